from rlib import np
from shipgrav import nav

C = {1: 5 / 6, 2: -5 / 21, 3: 5 / 84, 4: -5 / 504, 5: 1 / 1260}


def deriv(y):
    n = len(y)
    out = np.full(n, np.nan)
    for i in range(5, n - 5):
        out[i] = sum(c * (y[i + j] - y[i - j]) for j, c in C.items())
    return out


def en(lon, lat, freq=1):
    lon, lat = np.asarray(lon, float), np.asarray(lat, float)
    a, b = 6378137.0, 6356752.3142451
    e2 = 1 - b * b / a / a
    s = np.sin(np.radians(lat))
    w = np.sqrt(1 - e2 * s * s)
    return (np.radians(deriv(lat)) * a * (1 - e2) / w ** 3 * freq,
            np.radians(deriv(lon)) * a / w * np.cos(np.radians(lat)) * freq)


def run(r):
    for k in r.rounds():
        n = r.size(11, 200, (11, 12, 13))
        t = np.arange(n)
        kind = r.rng.integers(3)
        if kind == 0:
            lat, lon = r.arr(n, -89, 89, (0.0,)), r.arr(n, -360, 360)
        elif kind == 1:
            lat = r.num(-80, 80) + r.num(-1e-4, 1e-4) * t
            lon = r.num(-180, 180) + r.num(-1e-4, 1e-4) * t
        else:
            lat = r.num(-80, 80) + 1e-3 * np.cumsum(r.rng.normal(size=n))
            lon = r.num(-180, 180) + 1e-3 * np.cumsum(r.rng.normal(size=n))
        lat = np.clip(lat, -89.9, 89.9)
        kw = r.pick([{}, {'freq': 1}, {'freq': r.num(0.01, 100)}, {'freq': 0.5}])
        a = [lon, lat]
        if r.rng.random() < .1:
            a = [list(lon), list(lat)]
        r.compare(nav.latlon_to_EN, en, a, kw, rtol=1e-8, rmax=1e-11, atol=1e-9, cond=100)
        if k % 3 == 0:
            m = int(r.rng.integers(0, 11))
            r.refused(nav.latlon_to_EN, [lon[:m], lat[:m]])
            q = int(r.rng.integers(11, n + 1)) if n > 11 else 11
            if q != n:
                r.refused(nav.latlon_to_EN, r.pick([[lon[:q], lat], [lon, lat[:q]]]))
