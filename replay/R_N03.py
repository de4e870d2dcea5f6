from datetime import timedelta
from rlib import np
import iolib
from R_N01 import SHIPS, read, check_table, talker_of
from shipgrav import io


def run(r):
    with iolib.Scratch() as sc:
        for k in r.rounds():
            ship = SHIPS[k % len(SHIPS)] if k < 14 else r.pick(SHIPS)
            rng = r.rng
            digits = 0 if ship == 'Thompson' else int(rng.integers(1, 4)) if rng.random() < .8 else 6
            nf = int(rng.integers(1, 5))
            pool, _ = iolib.instants(r, int(rng.integers(1, 40)), digits, step=r.pick([None, 1.0, 20.0]))
            if digits == 6:     # fixes a few microseconds apart
                pool = sorted({t + timedelta(microseconds=int(d)) for t in pool for d in (0, rng.integers(2, 90))})
            if ship == 'Revelle':
                pool = [t for t in pool]
            tr = iolib.track(r, len(pool))
            files = []
            dec = int(r.pick([0, 0, 1, 2, 3, 7]))
            paths, texts = [], []
            best = {}
            md = int(rng.integers(3, 8))
            for f in range(nf):
                m = int(rng.integers(1, max(2, len(pool) + 1)))
                if rng.random() < .4:
                    ix = np.sort(rng.integers(0, len(pool), size=m))        # overlapping files, repeats
                elif rng.random() < .7:
                    ix = np.arange(len(pool))[f::nf]
                    ix = ix if len(ix) else np.array([0])
                else:
                    ix = rng.integers(0, len(pool), size=m)                 # out of order
                recs = []
                for i in ix:
                    a, o = tr[i]
                    if rng.random() < .5:
                        a, o = a + rng.uniform(-.001, .001), o + rng.uniform(-.001, .001)     # a repeat elsewhere
                    recs.append((pool[i], None, None) if rng.random() < .05 else (pool[i], a, o))
                text, want = iolib.nav_file(r, ship, recs, digits, talker=iolib.NAV_TALKER[ship], md=md)
                texts.append(text)
                paths.append(sc.write(text))
                # first fix logged at that time in the file, then every d-th line of the file
                first = {}
                for t, a, o in want:
                    first.setdefault(t, (a, o))
                rows = [(t,) + first[t] for t, _, _ in want]
                for t, a, o in (rows[::dec] if dec else rows):
                    best.setdefault(t, (a, o))
            want = [(t,) + best[t] for t in sorted(best)]
            kw = {'decimate': dec} if dec or rng.random() < .3 else {}
            info = dict(ship=ship, files=[t[:1500] for t in texts], decimate=dec)
            if rng.random() < .3:
                # the same table through a user-supplied reader
                def fun(lines, talker, ship=ship):
                    lon, lat = io._navcoords(lines, talker)
                    f = getattr(io, '_navdate_' + {'Sikuliaq': 'Ride'}.get(ship, ship))
                    return lon, lat, f(lines, talker)
                kw['ship_function'] = fun
            arg = paths[0] if nf == 1 and rng.random() < .5 else paths
            nav = read(r, ship, arg, info, **kw)
            check_table(r, nav, want, info)
            r.note((ship, dec, tuple(texts)), {'ship': ship, 'files': nf, 'rows': len(want)})
            sc.empty()
