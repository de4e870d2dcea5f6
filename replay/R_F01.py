"""inputs and module constants unchanged; the same call gives the same result whatever ran before"""
import copy
import types
from datetime import datetime, timedelta, timezone
from rlib import np
import pandas as pd
from shipgrav import grav, nav, utils


def state(mods):
    out = {}
    for m in mods:
        for k, v in vars(m).items():
            if k.startswith('__') or isinstance(v, (types.ModuleType, type)):
                continue
            if isinstance(v, types.FunctionType):
                if v.__module__ == m.__name__:
                    out[(m.__name__, k, 'defaults')] = repr((v.__defaults__, v.__kwdefaults__))
                continue
            if isinstance(v, (list, dict, tuple, set, int, float, str, bool, np.ndarray)):
                out[(m.__name__, k)] = v
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' else np.array_equal(a, b))
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b) and list(a.index) == list(b.index) and (not hasattr(a, 'columns') or list(a.columns) == list(b.columns))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and a != a:
        return b != b
    if hasattr(a, 'params') and hasattr(a, 'resid'):
        return same(np.asarray(a.params), np.asarray(b.params))
    return a == b


def cases(r):
    rng = r.rng
    n = r.size(3, 40, (3, 4, 11)) if rng.random() < .85 else int(rng.integers(100, 700))
    # a sub-range of the domain, so that whole tracks are on one side of whatever thresholds there are
    f0, f1 = sorted(rng.random(2)) if rng.random() < .6 else (0., 1.)

    def arr(m, lo=-50., hi=50., lists=False):
        a = rng.uniform(lo + f0 * (hi - lo), lo + f1 * (hi - lo), size=m)
        if rng.random() < .1:
            a = np.round(a)
        return a
    lat, lon, ht = arr(n, -80, 80), arr(n, -170, 170), arr(n, -100, 20000)
    t0 = datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(rng.integers(0, 9000)))
    times = [t0 + timedelta(seconds=float(rng.uniform(0, 1e6))) for _ in range(n)]
    yield grav.longman_tide_prediction, [lon, lat, r.pick([times, np.array(times, dtype=object)])], {'alt': r.pick([0, 10., arr(n, 0, 100)]), 'return_components': bool(rng.random() < .5)}
    yield grav._convert_datetime_tidetime, [times[0]], {}
    yield grav.eotvos_full, [lon, lat, ht, r.pick([1., 2.])], r.pick([{}, {'a': 6378000., 'b': 6356000.}])
    yield grav.free_air_second_order, [lat, ht], {'free_water': bool(rng.random() < .5)}
    yield grav.wgs_grav, [lat], {}
    yield grav.center_diff, [lat, int(rng.integers(1, 3)), 2.], {}
    z = np.zeros(n)
    z[rng.random(n) < .2] = 1
    # inputs that need no cleaning have to come back untouched
    yield grav.up_vecs, [1., 980000., arr(n, -1e5, 1e5), arr(n, -1e5, 1e5), np.zeros(n), r.pick([240., 300.]), r.pick([.7, .9]), r.pick([240., 300.]), r.pick([.7, .8])], {}
    yield grav._tilt_filter, [240., r.pick([1., .5])], r.pick([{}, {'damp': .9}, {'damp': .7}])
    yield grav._calc_up_vecs, [arr(n, -.1, .1), arr(n, -.1, .1)], {}
    x = np.arange(n) * 1000. + rng.uniform(0, 1e4)
    yield grav.grav1d_padded, [x, arr(n, -4000, -2000), 0., 1.7], {}
    nx, ny = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    yield grav.grav2d_folding, [np.arange(nx) * 1., np.arange(ny) * 1., arr((ny, nx), 3000, 3500), 1., 1.], {'ifold': bool(rng.random() < .5)}
    yield grav.grav2d_layer_variable_density, [arr((ny, nx), 2, 3), 1., 1., 1., 3.], {}
    yield grav.therm_halfspace, [arr(n, 1e3, 1e5), arr(5, 0, 1e5)], {'time': bool(rng.random() < .5)}
    yield grav.therm_Z_halfspace, [arr(n, 1e3, 1e5), r.pick([arr(n, 100, 1200), 600.])], {'time': bool(rng.random() < .5)}
    yield grav.therm_plate, [arr(n, 1e3, 1e5), arr(5, 0, 1.3e5)], {'time': bool(rng.random() < .5)}
    yield grav.therm_Z_plate, [r.pick([arr(n, 1e3, 1e5), list(arr(n, 1e3, 1e5))]), r.pick([arr(3, 100, 1200), list(arr(3, 100, 1200))])], {'time': bool(rng.random() < .5), 'zsp': 5e3}
    yield grav.crustal_thickness_2D, [arr(nx * ny), nx, ny, 5., 5.], {'back': bool(rng.random() < .5)}
    yield grav.crustal_thickness_2D, [arr(nx), nx, 1, 5.], {'back': bool(rng.random() < .5)}
    m = max(n, 11)
    yield nav.latlon_to_EN, [arr(m, -170, 170), arr(m, -80, 80)], r.pick([{}, {'freq': 10.}])
    yield nav.ENvel_to_course_heading, [lat, lon], {}
    yield nav.rotate_acceleration_EN_to_cl, [lon, lat, ht], {}
    L = int(rng.integers(1, n))
    yield utils.gaussian_filter, [arr(n), L], {}
    yield utils.gaussian_filter, [list(arr(n)), L], {}
    yield utils._gaussian_coeffs, [L], {}
    yield utils.decode_dgs_status_bits, [int(rng.integers(0, 65536))], {}
    if rng.random() < .15:
        q = int(rng.integers(1001, 1300))
        s = [arr(q) for _ in range(6)]
        if rng.random() < .5:
            ix = int(rng.integers(0, 9))
            s = [pd.Series(v) for v in s] if ix % 2 and False else s
        yield grav.calc_cross_coupling_coefficients, s, r.pick([{}, {'times': np.arange(q) * 1.}])


def invoke(f, a, k, r):
    with np.errstate(all='ignore'):
        try:
            return f(*a, **k)
        except Exception as e:  # noqa: BLE001
            r.fail('%s raised %s: %s' % (f.__name__, type(e).__name__, e), args=a, kwargs=k)


def run(r):
    mods = (grav, nav, utils)
    before = copy.deepcopy(state(mods))
    memo = []
    for k in r.rounds():
        for f, a, kw in cases(r):
            a0, k0 = copy.deepcopy(a), copy.deepcopy(kw)
            v = invoke(f, a, kw, r)
            r.require(same(a, a0) and same(kw, k0), '%s changed its arguments' % f.__name__, before=a0, after=a, kwargs=k0)
            now = state(mods)
            for q in before:
                r.require(q in now and same(now[q], before[q]), '%s changed %s.%s' % (f.__name__, q[0], q[1]), args=a0, kwargs=k0)
            keep = copy.deepcopy(v) if not hasattr(v, '__len__') or not any(hasattr(x, 'resid') for x in (v if isinstance(v, tuple) else ())) else v
            # what the caller does with the result stays with the caller
            for x in (v if isinstance(v, tuple) else (v,)):
                if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' and x.flags.writeable and x.size:
                    x += 1
            r.require(same(a, a0), 'the result of %s shares memory with its arguments' % f.__name__, args=a0, kwargs=k0)
            r.note((f.__name__, repr(a0)[:400], repr(k0)), {'function': f.__name__, 'kwargs': repr(k0)[:200]})
            memo.append((f, a0, k0, keep))
        if k % 4 == 3 or k < 2:
            for j in r.rng.permutation(len(memo))[:60]:
                f, a0, k0, keep = memo[j]
                v = invoke(f, copy.deepcopy(a0), copy.deepcopy(k0), r)
                r.require(same(v, keep), '%s gives another result when called again with the same arguments' % f.__name__, args=a0, kwargs=k0,
                          first=keep, again=v)
                r.evals += 1
            # a twin call: one scalar argument changed, then the first again
            for j in r.rng.permutation(len(memo))[:20]:
                f, a0, k0, keep = memo[j]
                a1, k1 = copy.deepcopy(a0), copy.deepcopy(k0)
                fl = [i for i, x in enumerate(a1) if isinstance(x, float)]
                if fl:
                    i = fl[int(r.rng.integers(len(fl)))]
                    a1[i] = a1[i] * 1.25
                for q in k1:
                    if isinstance(k1[q], bool):
                        k1[q] = not k1[q]
                    elif isinstance(k1[q], float):
                        k1[q] *= 1.25
                try:
                    with np.errstate(all='ignore'):
                        f(*a1, **k1)
                except Exception:  # noqa: BLE001
                    pass
                v = invoke(f, copy.deepcopy(a0), copy.deepcopy(k0), r)
                r.require(same(v, keep), '%s gives another result after a call with other arguments' % f.__name__, args=a0, kwargs=k0,
                          other=a1, first=keep, again=v)
            memo = memo[-400:]
    # the two documented exceptions
    for _ in range(20):
        n = int(r.rng.integers(3, 20))
        c, l, on = r.rng.normal(size=n) * 1e4, r.rng.normal(size=n) * 1e4, (r.rng.random(n) < .3) * 1.
        c[r.rng.random(n) < .2] = np.nan
        c0, l0, on0 = c.copy(), l.copy(), on.copy()
        grav.up_vecs(1., 980000., c, l, on, 240., .7, 240., .7)
        z = np.where(on > 0, 0, 1)
        r.require(same(on, on0) and same(c, np.where(np.isnan(c0), 0, c0) * z) and same(l, l0 * z), 'up_vecs changed more than missing or switched-off accelerations',
                  cross=c0, on_off=on0, after=c)
        df = pd.DataFrame({'a': r.rng.normal(size=n), 'status': r.rng.integers(0, 65536, size=n)})
        d0 = df.copy()
        utils.decode_dgs_status_bits(df)
        r.require(same(df[['a', 'status']], d0), 'decoding changed the table it was given', table=d0)
