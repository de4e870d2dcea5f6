import datetime as dt
from rlib import np
from shipgrav import grav

UTC = dt.timezone.utc
ORIGIN = dt.datetime(1899, 12, 31, 12, tzinfo=UTC)


def longman(lon, lat, times, alt=0):
    secs = np.array([int((t - ORIGIN) // dt.timedelta(seconds=1)) for t in times], dtype=float)
    T = secs / 86400 / 36525
    t0 = ((secs + 43200) % 86400) / 3600
    sin, cos = np.sin, np.cos
    mu, M, S = 6.673e-8, 7.3537e25, 1.993e33
    e, m, c, c1, a = 0.05490, 0.074804, 3.84402e10, 1.495e13, 6.378270e8
    i, w = 0.08979719, np.radians(23.452)
    lam, H = np.radians(lat), np.asarray(alt) * 100.
    s = 4.720023434 + 8399.709299 * T + 0.0000440696 * T ** 2
    p = 5.835124713 + 71.01800936 * T - 0.000180545 * T ** 2 - 0.00000021817 * T ** 3
    h = 4.88162792 + 628.3319509 * T + 0.00000527962 * T ** 2
    N = 4.523588564 - 33.75715303 * T + 0.000036749 * T ** 2
    p1 = 4.908229461 + 0.03000526416 * T + 0.000007902463 * T ** 2
    e1 = 0.01675104 - 0.0000418 * T - 0.000000126 * T ** 2
    I = np.arccos(cos(w) * cos(i) - sin(w) * sin(i) * cos(N))
    nu = np.arcsin(sin(i) * sin(N) / sin(I))
    t = np.radians(15 * (t0 - 12) + lon)
    chi = t + h - nu
    ca = cos(N) * cos(nu) + sin(N) * sin(nu) * cos(w)
    sa = sin(w) * sin(N) / sin(I)
    xi = N - 2 * np.arctan(sa / (1 + ca))
    sg = s - xi
    l = (sg + 2 * e * sin(s - p) + 1.25 * e * e * sin(2 * (s - p)) + 3.75 * m * e * sin(s - 2 * h + p)
         + 1.375 * m * m * sin(2 * (s - h)))
    chi1 = t + h
    l1 = h + 2 * e1 * sin(h - p1)
    ct = sin(lam) * sin(I) * sin(l) + cos(lam) * (cos(I / 2) ** 2 * cos(l - chi) + sin(I / 2) ** 2 * cos(l + chi))
    cp = sin(lam) * sin(w) * sin(l1) + cos(lam) * (cos(w / 2) ** 2 * cos(l1 - chi1) + sin(w / 2) ** 2 * cos(l1 + chi1))
    r = a / np.sqrt(1 + 0.006738 * sin(lam) ** 2) + H
    ap, ap1 = 1 / (c * (1 - e * e)), 1 / (c1 * (1 - e1 * e1))
    di = (1 / c + ap * e * cos(s - p) + ap * e * e * cos(2 * (s - p)) + 1.875 * ap * m * e * cos(s - 2 * h + p)
          + ap * m * m * cos(2 * (s - h)))
    Di = 1 / c1 + ap1 * e1 * cos(h - p1)
    gm = mu * M * r * di ** 3 * (3 * ct ** 2 - 1) + 1.5 * mu * M * r * r * di ** 4 * (5 * ct ** 3 - 3 * ct)
    gs = mu * S * r * Di ** 3 * (3 * cp ** 2 - 1)
    love = 1 + 0.612 - 1.5 * 0.303
    return (gm + gs) * 1e3 * love, gm * 1e3 * love, gs * 1e3 * love


def stamps(r, n):
    mode = r.rng.integers(6)
    lo, hi = int(-90 * 365.25 * 86400), int(90 * 365.25 * 86400)
    if mode == 0:
        u = r.rng.integers(lo, hi, size=n)
    elif mode == 1:                       # dense series
        u = int(r.rng.integers(lo, hi)) + np.arange(n) * int(r.pick([1, 60, 3600, 86400]))
    elif mode == 2:                       # day, month and year boundaries
        y = int(r.rng.integers(1890, 2100))
        b = dt.datetime(y, int(r.rng.integers(1, 13)), 1, tzinfo=UTC) if r.rng.random() < .7 else dt.datetime(2000, 2, 29, tzinfo=UTC)
        u = int(b.timestamp()) + r.rng.integers(-2, 3, size=n) * int(r.pick([1, 1, 3600]))
    elif mode == 3:                       # unsorted
        u = r.rng.permutation(int(r.rng.integers(0, hi)) + np.arange(n) * 977)
    elif mode == 4:                       # around dates named by numbers in the source (years)
        ys = [int(v) for v in r.newlits + r.lits if 1890 <= v <= 2150 and v == int(v)] or [2000]
        y = int(r.pick(ys))
        u = int(dt.datetime(y, 1, 1, tzinfo=UTC).timestamp()) + r.rng.integers(-400 * 86400, 400 * 86400, size=n)
    else:
        u = int(r.rng.integers(0, hi)) + r.rng.integers(0, 86400, size=n)
    zones = [UTC] + [dt.timezone(dt.timedelta(minutes=int(v))) for v in (60, -300, 330, 765, -720, 840, 1, 1439, -1439)]
    z = r.rng.integers(3)
    out = []
    one = r.pick(zones)
    for v in u:
        tz = UTC if z == 0 else one if z == 1 else r.pick(zones)
        out.append((dt.datetime(1970, 1, 1, tzinfo=UTC) + dt.timedelta(seconds=int(v))).astimezone(tz))
    return out


def run(r):
    for k in r.rounds():
        n = r.size(1, 60)
        lon = r.arr(n, -180, 360, (0.0, 180.0, -180.0, 360.0))
        lat = r.arr(n, -90, 90, (0.0, 90.0, -90.0))
        t = stamps(r, n)
        kw = r.pick([{}, {'alt': 0}, {'alt': r.num(-100, 12000)}, {'alt': r.arr(n, -100, 12000)}])
        comp = bool(r.rng.integers(2))
        o = (lambda *a, **q: longman(*a, **{x: y for x, y in q.items() if x == 'alt'})) if comp else \
            (lambda *a, **q: longman(*a, **q)[0])
        if comp:
            kw = dict(kw, return_components=True)
        r.compare(grav.longman_tide_prediction, o, [lon, lat, t], kw, rtol=0, atol=2e-7, cond=10)
        if k % 5 == 0 and n > 1:
            bad = r.pick([[lon[:-1], lat, t], [lon, lat[:-1], t], [lon, lat, t[:-1]]])
            r.refused(grav.longman_tide_prediction, bad)
