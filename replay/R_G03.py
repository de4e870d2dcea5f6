from rlib import np
from shipgrav import grav


def eotvos(lon, lat, ht, samp, a=6378137.0, b=6356752.3142):
    We = 0.00007292115

    def d1(f):
        return (f[2:] - f[:-2]) * samp / 2

    def d2(f):
        return (f[2:] - 2 * f[1:-1] + f[:-2]) * samp ** 2
    la, lo = np.radians(lat), np.radians(lon)
    ph, dph, ddph, dl, ddl = la[1:-1], d1(la), d2(la), d1(lo), d2(lo)
    h, dh, ddh = ht[1:-1], d1(ht), d2(ht)
    e = (a - b) / a
    rp = a * (1 - e * np.sin(ph) ** 2)
    drp = -a * e * np.sin(2 * ph) * dph
    ddrp = -a * e * np.sin(2 * ph) * ddph - 2 * a * e * np.cos(2 * ph) * dph ** 2
    D = np.arctan(e * np.sin(2 * ph))
    dD = 2 * e * np.cos(2 * ph) * dph
    ddD = 2 * e * np.cos(2 * ph) * ddph - 4 * e * np.sin(2 * ph) * dph ** 2
    S, K = np.sin(D), np.cos(D)
    W = dl + We
    c, s = np.cos(ph), np.sin(ph)
    # vectors along (north, east, down)
    r = (-rp * S, -rp * K - h)
    rd = (-drp * S - rp * dD * K, -drp * K + rp * dD * S - dh)
    rdd3 = -ddrp * K + 2 * drp * dD * S + rp * (ddD * S + dD ** 2 * K) - ddh
    w = (W * c, -dph, -W * s)
    wd2 = -ddph
    # down components of 2 w x r', w' x r, w x (w x r); r has no east part
    cor = 2 * (0 - w[1] * rd[0])
    eul = -wd2 * r[0]
    wr2 = w[2] * r[0] - w[0] * r[1]
    wr1 = w[1] * r[1]
    cen = w[0] * wr2 - w[1] * wr1
    we = (We * c, -We * s)
    cear = we[0] * (we[1] * r[0] - we[0] * r[1])
    E = (rdd3 + cor + eul + cen - cear) * 1e5
    return np.hstack((E[0], E, E[-1]))


def run(r):
    for k in r.rounds():
        n = r.size(3, 200, (3, 4, 5))
        samp = r.num(0.05, 20, (1.0, 0.5, 2.0, 10.0, 0.1))
        if r.rng.random() < .3:
            samp = int(r.pick([1, 2, 3, 10]))
        kind = r.rng.integers(4)
        lat0, lon0 = r.num(-89, 89, (0.0, 45.0)), r.num(-180, 180, (0.0, 180.0, -180.0))
        v = r.num(0, 300) / 111e3 / samp
        t = np.arange(n)
        if kind == 0:
            lat = lat0 + v * t * np.cos(lon0) * .1 + 1e-4 * np.sin(t / 7.)
            lon = lon0 + v * t * np.sin(lon0)
        elif kind == 1:
            lat, lon = r.arr(n, -60, 60), r.arr(n, -180, 180)
        elif kind == 2:
            lat, lon = np.full(n, lat0), np.full(n, lon0)
        else:
            lat = lat0 * .5 + np.cumsum(r.rng.normal(size=n)) * v
            lon = lon0 + np.cumsum(r.rng.normal(size=n)) * v
        lat = np.clip(lat, -90, 90)
        rest = kind == 2
        ht = r.pick([np.zeros(n), r.arr(n, -100, 10000), np.full(n, r.num(-100, 10000)), 5 * np.sin(t / 3.)])
        kw = {}
        if r.rng.random() < .3:
            a = r.num(6.3e6, 6.5e6)
            kw = {'a': a, 'b': a * r.pick([1.0, 297. / 298, .9])}
        # rounding of the second differences, in mGal
        eps = 2.2e-16 * 1e5 * (samp ** 2 + samp) * (6.5e6 * np.radians(max(np.abs(lon).max(), np.abs(lat).max())) + np.abs(ht).max())
        at = 1e-6 + 16 * eps
        r.compare(grav.eotvos_full, eotvos, [lon, lat, ht, samp], kw, rtol=1e-8, rmax=1e-10, atol=at, cond=30)
        if rest:
            E = r.call(grav.eotvos_full, [lon, lat, np.zeros(n), samp], kw)
            r.require(np.shape(E) == (n,) and np.abs(E).max() <= at, 'eotvos_full: platform at rest does not get 0',
                      args=[lon, lat, np.zeros(n), samp], got=E)
        y = r.arr(n, -1e3, 1e3)
        r.compare(grav.center_diff, lambda y, o, s: (y[2:] - y[:-2]) * s / 2 if o == 1 else
                  (y[2:] - 2 * y[1:-1] + y[:-2]) * s * s, [y, int(r.pick([1, 2])), samp], rtol=1e-10, atol=1e-10, cond=50)
