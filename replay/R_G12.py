from rlib import np
from shipgrav import grav
from scipy.special import erf, erfcinv
SEC = 365.25 * 24 * 3600


def age(x, u, time):
    return x * 1e6 * SEC if time else np.abs(x) / (u / SEC)


def hs(x, z, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000, a=3e-5, k=1e-6):
    t = age(x, u, time)
    T = Tm * erf(np.asarray(z)[:, None] / (2 * np.sqrt(k * t))[None, :])
    return T, 2 * rhom * a * Tm / (rhom - rhow) * np.sqrt(k * t / np.pi)


def zhs(x, T, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000, a=3e-5, k=1e-6):
    t = age(x, u, time)
    return 2 * np.sqrt(k * t) * erfcinv(1 - T / Tm), 2 * rhom * a * Tm / (rhom - rhow) * np.sqrt(k * t / np.pi)


def run(r):
    for i in r.rounds():
        n, m = r.size(1, 40), r.size(1, 40)
        time = bool(r.rng.integers(2))
        x = r.arr(n, .01, 180) if time else r.arr(n, -4e6, 4e6)
        x[x == 0] = 1.0
        z = r.arr(m, 0, 2e5, (0.0,))
        kw = {'time': True} if time else r.pick([{}, {'time': False}])
        if not time and r.rng.random() < .6:
            kw = dict(kw, u=r.num(1e-3, .2))
        for q, lo, hi in (('Tm', 500, 2000), ('rhom', 2500, 4000), ('rhow', 0, 1500), ('a', 1e-6, 1e-4), ('k', 1e-7, 1e-5)):
            if r.rng.random() < .4:
                kw[q] = r.num(lo, hi)
        r.compare(grav.therm_halfspace, hs, [x, z], kw, rtol=1e-9, atol=1e-12)
        Tm = kw.get('Tm', 1350)
        f = r.num(.001, .999, (.5,))
        if r.rng.random() < .4:     # close to the mantle or to the surface temperature
            f = 10 ** -r.num(1, 6)
            f = 1 - f if r.rng.random() < .7 else f
        T = Tm * f
        Z, W = r.compare(grav.therm_Z_halfspace, zhs, [x, T], kw, rtol=1e-8, atol=1e-9)
        # inverse of the temperature model
        j = int(r.rng.integers(n))
        back = r.call(grav.therm_halfspace, [x, np.atleast_1d(np.asarray(Z)[j])], kw)[0][0, j]
        r.require(abs(back - T) < 1e-6 * Tm, 'temperature at the reported isotherm depth is %r, requested %r' % (back, T),
                  x=x, T=T, kwargs=kw)
        if not time:
            u = kw.get('u', .01)
            k2 = {q: v for q, v in kw.items() if q not in ('u', 'time')}
            b = r.call(grav.therm_halfspace, [np.abs(x) / u / 1e6, z], dict(k2, time=True))
            a = r.call(grav.therm_halfspace, [x, z], kw)
            for p, q in zip(a, b):
                r.require(np.allclose(p, q, rtol=1e-9, atol=1e-9), 'positions and the corresponding ages differ', x=x, z=z, kwargs=kw)
