from rlib import np
import iolib
from iolib import ts
from R_N01 import SHIPS, read, check_table, one_file, talker_of


def run(r):
    r.known = []
    with iolib.Scratch() as sc:
        for k in r.rounds():
            ship = SHIPS[k % len(SHIPS)] if k < 21 else r.pick(SHIPS)
            tk = talker_of(r, ship)
            whole = ship == 'Thompson' and r.rng.random() < .6
            text, want = one_file(r, sc, ship, talker=tk or iolib.NAV_TALKER[ship], digits=0 if whole else None, dropout=False)
            p = sc.write(text)
            kw = {} if tk is None else {'talker': tk}
            info = dict(ship=ship, text=text[:3000], talker=tk)
            nav = read(r, ship, p, info, **kw)
            if ship == 'Thompson' and any(t.microsecond for t, _, _ in want):
                # known finding: whole seconds only
                w2 = {}
                for t, a, o in want:
                    w2.setdefault(t.replace(microsecond=0), (a, o))
                w2 = [(t, a, o) for t, (a, o) in sorted(w2.items())]
                full = sorted({ts(t) for t, _, _ in want})
                got = [float(x) for x in nav['time_sec'].values]
                if len(got) == len(full) and all(abs(a - b) < 4e-7 for a, b in zip(got, full)):
                    pass                     # repaired: fractions are there
                else:
                    check_table(r, nav, w2, info, what=('time',))
                    if 'N02-thompson-fraction' not in r.known:
                        r.known.append('N02-thompson-fraction')
            else:
                check_table(r, nav, want, info, what=('time',))
            r.note((ship, text), {'ship': ship, 'first_line': text.split('\n')[0]})
            sc.empty()
