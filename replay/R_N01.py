"""positions of every sentence; also carries the navigation oracle shared by N01, N02 and N03"""
from datetime import datetime
from rlib import np
import iolib
from iolib import UTC, ts
from shipgrav import io

SHIPS = ['Atlantis', 'Thompson', 'NBP', 'Ride', 'Revelle', 'Langseth', 'Sikuliaq']


def read(r, ship, path, info, **kw):
    try:
        return io.read_nav(ship, path, progressbar=False, **kw)
    except Exception as e:  # noqa: BLE001
        import traceback
        r.fail('read_nav(%r) raised %s: %s' % (ship, type(e).__name__, e), trace=traceback.format_exc()[-900:], **info)


def same(a, b):
    return (a is None and np.isnan(b)) or (a is not None and not np.isnan(b) and abs(a - b) <= 1e-11 * max(1, abs(a)))


def check_table(r, nav, want, info, whole=False, what=('pos', 'time')):
    """nav table against [(time, lat, lon)], in order"""
    r.require(hasattr(nav, 'columns') and {'time_sec', 'lon', 'lat', 'stamps'} <= set(nav.columns),
              'read_nav returned %r' % (nav if not hasattr(nav, 'columns') else list(nav.columns),), **info)
    r.require(len(nav) == len(want), '%d rows for %d distinct fixes' % (len(nav), len(want)), **info)
    tt, lo, la, st = (nav[c].values for c in ('time_sec', 'lon', 'lat', 'stamps'))
    st = list(nav['stamps'])
    for i, (t, a, o) in enumerate(want):
        if whole:
            t = t.replace(microsecond=0)
        if 'time' in what:
            r.require(abs(tt[i] - ts(t)) < 4e-7, 'fix %d has time %r, logged %s (%r)' % (i, tt[i], t, ts(t)), **info)
            s = st[i]
            r.require(getattr(s, 'tzinfo', None) is not None and s.utcoffset().total_seconds() == 0 and
                      abs((s - t).total_seconds()) < 1.5e-6, 'fix %d has stamp %r, logged %s' % (i, s, t), **info)
        if 'pos' in what:
            r.require(same(a, la[i]) and same(o, lo[i]), 'fix %d is at lat %r lon %r, logged %r %r' % (i, la[i], lo[i], a, o), **info)


def one_file(r, sc, ship, n=None, digits=None, dropout=True, **kw):
    rng = r.rng
    n = n or r.size(1, 25, (1, 2, 3))
    lo, hi = (1, 6) if ship in ('Langseth',) else (0, 6)
    digits = digits if digits is not None else int(rng.integers(lo, hi + 1))
    if ship == 'Revelle' or True:
        times, digits = iolib.instants(r, n, digits)
    tr = iolib.track(r, n)
    recs = [(t, None, None) if dropout and rng.random() < .08 else (t, a, o) for t, (a, o) in zip(times, tr)]
    return iolib.nav_file(r, ship, recs, digits, **kw)


def talker_of(r, ship):
    if ship == 'Ride':
        return r.pick(['INGGA', 'GPGGA', None])
    return r.pick([None, iolib.NAV_TALKER[ship]])


def run(r):
    with iolib.Scratch() as sc:
        for k in r.rounds():
            ship = SHIPS[k % len(SHIPS)] if k < 21 else r.pick(SHIPS)
            tk = talker_of(r, ship)
            text, want = one_file(r, sc, ship, talker=tk or iolib.NAV_TALKER[ship])
            if ship == 'Thompson':
                want2 = {}
                for t, a, o in want:
                    want2.setdefault(t.replace(microsecond=0), (a, o))
                want = [(t, a, o) for t, (a, o) in sorted(want2.items())]
            p = sc.write(text)
            kw = {} if tk is None else {'talker': tk}
            info = dict(ship=ship, text=text[:3000], talker=tk)
            nav = read(r, ship, r.pick([p, [p]]), info, **kw)
            check_table(r, nav, want, info, what=('pos',))
            # the parser alone, in file order
            r.note((ship, text), {'ship': ship, 'first_line': text.split('\n')[0]})
            sc.empty()
