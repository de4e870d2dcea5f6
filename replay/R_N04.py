from datetime import datetime, timedelta
from rlib import np
import iolib
from iolib import UTC
import pandas as pd
from shipgrav import io


def wrapped(r, n, spikes):
    """a continuous longitude track around the antimeridian, logged in [-180, 180]"""
    rng = r.rng
    step = rng.uniform(-.4, .4, size=n) if rng.random() < .6 else np.full(n, rng.uniform(-.05, .05))
    u = 180 + rng.uniform(-6, 6) + np.cumsum(step)
    u = np.clip(u, 100, 260)
    u = np.round(u, 8)
    logged = np.where(u > 180, u - 360, u)
    logged = np.round(logged, 8)
    at = np.abs(u - 180) < 1e-12
    logged = np.where(at & (rng.random(n) < .5), -180.0, logged)
    return u, logged


def call(r, lon, info):
    t0 = datetime(2023, 1, 13, tzinfo=UTC)
    st = [t0 + timedelta(seconds=i) for i in range(len(lon))]
    if r.rng.random() < .4:
        df = pd.DataFrame({'time_sec': [s.timestamp() for s in st], 'lon': lon, 'lat': np.zeros(len(lon)) + 5.})
        df['stamps'] = np.array(st, dtype=datetime)
        keep = df.copy()
        try:
            out = io._clean_180cross(df)
        except Exception as e:  # noqa: BLE001
            r.fail('_clean_180cross raised %s: %s' % (type(e).__name__, e), **info)
        direct = True
        r.require(out['lat'].equals(keep['lat']) and out['time_sec'].equals(keep['time_sec']), 'other columns changed', **info)
    else:
        def fun(lines, talker):
            return np.array(lon, dtype=float), np.zeros(len(lon)) + 5., np.array(st, dtype=object)
        with iolib.Scratch() as sc:
            p = sc.write('x\n')
            try:
                out = io.read_nav('any', p, talker='GPGGA', ship_function=fun, progressbar=False)
            except Exception as e:  # noqa: BLE001
                r.fail('read_nav raised %s: %s' % (type(e).__name__, e), **info)
        direct = False
    r.require(len(out) == len(lon), '%d rows for %d fixes' % (len(out), len(lon)), **info)
    return np.asarray(out['lon'].values, dtype=float), direct


def run(r):
    rng = r.rng
    for k in r.rounds():
        n = r.size(2, 80, (2, 3, 4))
        u, lon = wrapped(r, n, 0)
        crossing = bool(np.any(np.abs(np.diff(lon)) > 1))
        spike = np.zeros(n, bool)
        if n > 8 and rng.random() < .35:
            for i in range(3, n - 3):
                if rng.random() < .08 and not spike[i - 3:i].any():
                    spike[i] = True
        logged = lon.copy()
        m = int(spike.sum())
        if m:
            amp = rng.uniform(5, 60, size=m)
            logged[spike] = np.where(logged[spike] > 0, logged[spike] - amp, logged[spike] + amp)
        info = dict(lon=logged)
        got, direct = call(r, logged, info)
        if not crossing and not m and not direct:
            r.require(np.array_equal(got, logged), 'a track without jumps was changed', got=got, **info)
            r.note(('still', logged.tobytes()))
            continue
        d = got - logged
        near = np.round(d / 360) * 360
        good = ~spike
        r.require(np.all(np.abs(d - near)[good] < 1e-9) and np.all(np.isin(near[good], (-360., 0., 360.))),
                  'longitudes are not the logged ones plus whole turns', got=got, **info)
        npos, nneg = int((logged > 0).sum()), int((logged < 0).sum())
        if crossing and npos != nneg:
            side = npos > nneg
            r.require(np.all((near[good] == 0) | (near[good] == (360 if side else -360))) and
                      np.all((near == 0)[good & ((logged > 0) == side) & (logged != 0)]),
                      'the track was not moved to the side holding more points', got=got, **info)
        if crossing and len(got) > 1:
            r.require(np.all(np.abs(np.diff(got)) <= 1 + 1e-9), 'adjacent fixes still jump', got=got, **info)
        r.note((logged.tobytes(),), {'lon': logged[:8].tolist()})
    # a crossing and one gap in the log: a single jump is left after the shift, which is no spike; fixes on the meridian 0
    for k in range(60):
        n = int(rng.integers(4, 40))
        g = int(rng.integers(1, n - 1)) if rng.random() < .7 else n - 1
        u = 180 + rng.uniform(-.3, .3) + np.cumsum(rng.uniform(-.05, .05, size=n))
        gap = rng.uniform(2, 150) * rng.choice([-1, 1])
        u[g:] += gap
        if rng.random() < .5:
            u[-1] = 180 + 180 * np.sign(gap)
            if g < n - 1:
                u[-2] = u[-1] - .5 * np.sign(gap)
                u[g:-2] = u[-2] if g < n - 2 else u[g:-2]
        u = np.clip(np.round(u, 8), 0, 360)
        lon = np.round(np.where(u > 180, u - 360, u), 8)
        npos, nneg = int((lon > 0).sum()), int((lon < 0).sum())
        if npos == nneg or not np.any(np.abs(np.diff(lon)) > 1):
            continue
        east = npos > nneg
        want = np.where(lon < 0, lon + 360, lon) if east else np.where(lon > 0, lon - 360, lon)
        if (np.abs(np.diff(want)) > 1).sum() != 1:
            continue
        got, direct = call(r, lon, dict(lon=lon))
        r.require(np.all(np.abs(got - want) < 1e-9), 'longitudes are not the logged ones moved to the side holding more points', lon=lon, got=got)
        r.note(('gap', lon.tobytes()))
    # tracks away from the antimeridian
    for k in range(200):
        n = r.size(1, 60, (1, 2))
        lon = np.round(r.num(-170, 170) + np.cumsum(rng.uniform(-.9, .9, size=n) * rng.choice([.01, .1, 1])), 7)
        lon = np.clip(lon, -180, 180)
        t0 = datetime(2023, 1, 13, tzinfo=UTC)
        st = np.array([t0 + timedelta(seconds=i) for i in range(n)], dtype=object)
        with iolib.Scratch() as sc:
            p = sc.write('x\n')
            out = r.call(io.read_nav, ['any', p], dict(talker='GPGGA', ship_function=lambda l, t: (lon.copy(), lon * 0, st), progressbar=False))
        if np.all(np.abs(np.diff(lon)) <= 1):
            r.require(np.array_equal(out['lon'].values, lon), 'a track without jumps was changed', lon=lon, got=out['lon'].values)
        r.note(('plain', lon.tobytes()))
