from rlib import np
from shipgrav import grav


def coef(per, dt, damp):
    o0 = 2 / dt * np.tan(np.pi / per * dt)
    oS = 2 / dt * np.tan(np.sqrt(9.8 / 6371100) * dt / 2)
    c = 2 / dt
    b = 2 * damp * o0 * c
    n = np.array([oS ** 2 - o0 ** 2 - b, 2 * (oS ** 2 - o0 ** 2), oS ** 2 - o0 ** 2 + b])
    d = np.array([c * c + b + o0 ** 2, 2 * o0 ** 2 - 2 * c * c, c * c - b + o0 ** 2])
    return n / d[0], d / d[0]


def rec(num, den, x):
    y = np.zeros(len(x))
    for i in range(len(x)):
        a = num[0] * x[i]
        for j in (1, 2):
            if i >= j:
                a += num[j] * x[i - j] - den[j] * y[i - j]
        y[i] = a
    return y


def up(dt, g, ca, la, oo, cper, cdamp, lper, ldamp):
    n = len(ca)
    with np.errstate(all='ignore'):
        off = (oo > 0) | np.isnan(g)
        dc = np.where(off | np.isnan(ca), 0, ca / g)
        dl = np.where(off | np.isnan(la), 0, la / g)
    c = np.arctan(rec(*coef(cper, dt, cdamp), dc))
    l = np.arctan(rec(*coef(lper, dt, ldamp), dl))
    out = np.empty((3, n))
    for i in range(n):
        sc, cc, sl, cl = np.sin(c[i]), np.cos(c[i]), np.sin(l[i]), np.cos(l[i])
        out[:, i] = (-sc * cl, -sl, cc * cl) if i % 2 == 0 else (-sc, -sl * cc, cl * cc)
    return out


def run(r):
    for k in r.rounds():
        n = r.size(1, 300, (1, 2, 3))
        dt = r.num(0.02, 2, (1.0, 0.1, 0.5))
        per = [dt * r.num(2.5, 4000) if r.rng.random() < .5 else r.num(30, 600, (240.0, 84.0)) for _ in range(2)]
        per = [max(p, 2.5 * dt) for p in per]
        damp = [r.num(0.05, 3, (0.707, 1.0, 0.5)) for _ in range(2)]
        g = 9.8e5 + r.arr(n, -3e3, 3e3) if r.rng.random() < .8 else np.abs(r.arr(n, 1, 10))
        ca, la = r.arr(n, -2e5, 2e5, (0.0,)), r.arr(n, -2e5, 2e5, (0.0,))
        oo = r.pick([np.zeros(n), (r.rng.random(n) < .3).astype(float), r.rng.integers(-1, 3, size=n), np.ones(n)])
        for a in (ca, la, g):
            if r.rng.random() < .4:
                a[r.rng.random(n) < .2] = np.nan
        want = lambda *a: up(*a)
        # the routine may clean its inputs in place: compare works on copies
        r.compare(grav.up_vecs, want, [dt, g, ca, la, oo, per[0], damp[0], per[1], damp[1]], rtol=1e-8, atol=1e-9, cond=200)
        if k % 4 == 0:
            r.compare(grav._tilt_filter, lambda p, d, m=np.sqrt(2) / 2: coef(p, d, m),
                      [per[0], dt] + r.pick([[], [damp[0]]]), rtol=1e-8, atol=1e-12, cond=200) \
                if hasattr(grav, '_tilt_filter') else None
