from rlib import np
from shipgrav import grav
SEC = 365.25 * 24 * 3600


def plate(x, z, u=0.01, zL0=100.e3, Tm=1350, time=False, rhom=3300, rhow=1000, a=3e-5, k=1e-6):
    t = (x * 1e6 * SEC if time else np.abs(x) / (u / SEC))[None, :]
    z = np.asarray(z, float)[:, None]
    T = z / zL0 + 0 * t
    for n in range(1, 11):
        T = T + 2 / np.pi / n * np.exp(-n * n * k * np.pi ** 2 * t / zL0 ** 2) * np.sin(n * np.pi * z / zL0)
    T = np.where(z > zL0, Tm, Tm * T)
    s = sum(4 / np.pi ** 2 / q ** 2 * np.exp(-k * q * q * np.pi ** 2 * t[0] / zL0 ** 2) for q in (1, 3, 5))
    return T, rhom * a * Tm * zL0 / (rhom - rhow) * (.5 - s)


def run(r):
    for i in r.rounds():
        n, m = r.size(1, 30), r.size(1, 30)
        time = bool(r.rng.integers(2))
        x = r.arr(n, 0, 180, (0.0,)) if time else r.arr(n, -4e6, 4e6, (0.0,))
        kw = {'time': True} if time else r.pick([{}, {'time': False}])
        if not time and r.rng.random() < .6:
            kw = dict(kw, u=r.num(1e-3, .2))
        for q, lo, hi in (('Tm', 500, 2000), ('rhom', 2500, 4000), ('rhow', 0, 1500), ('a', 1e-6, 1e-4), ('k', 1e-7, 1e-5),
                          ('zL0', 2e4, 2e5)):
            if r.rng.random() < .4:
                kw[q] = r.num(lo, hi)
        zl = kw.get('zL0', 1e5)
        z = r.arr(m, 0, 2 * zl, (0.0, zl, zl * (1 + 1e-12), zl * .5))
        r.compare(grav.therm_plate, plate, [x, z], kw, rtol=1e-9, rmax=1e-12, atol=1e-9)
        k2 = dict(kw)
        minz, maxz, zsp = 0, 100e3, 1e2
        if r.rng.random() < .8:
            minz = k2['minz'] = r.num(0, 3e4, (0.0,))
            maxz = k2['maxz'] = minz + r.num(1e4, 1.5e5)
            zsp = k2['zsp'] = r.num(200, 2000)
        T = r.arr(r.size(1, 5), 0, kw.get('Tm', 1350), (0.0,))
        x2 = x[:12]
        if r.rng.random() < .1:
            x2 = x2[:0]
        got = np.asarray(r.call(grav.therm_Z_plate, r.pick([[x2, T], [x2, T], [list(x2), list(T)]]), k2))
        grid = np.arange(minz, maxz, zsp)
        r.require(got.shape == (len(T), len(x2)), 'therm_Z_plate has shape %s for %d temperatures and %d positions' % (
            got.shape, len(T), len(x2)), x=x2, T=T, kwargs=k2)
        if not len(x2):
            continue
        Tp = plate(x2, grid, **kw)[0]
        for a in range(len(T)):
            for b in range(len(x2)):
                j = int(np.argmin(np.abs(grid - got[a, b])))
                r.require(abs(grid[j] - got[a, b]) < 1e-6 * zsp, 'reported depth %r is not a grid depth' % got[a, b],
                          x=x2, T=T, kwargs=k2)
                d = np.abs(Tp[:, b] - T[a])
                r.require(d[j] <= d.min() + 1e-7 * kw.get('Tm', 1350),
                          'depth %r is not the grid depth closest in temperature to %r (position %r): %r' % (
                              got[a, b], T[a], x2[b], grid[d.argmin()]), x=x2, T=T, kwargs=k2)
