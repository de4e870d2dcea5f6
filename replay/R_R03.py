from rlib import np
import iolib
from shipgrav import io

SHIPS = ['Ride', 'Atlantis', 'Thompson', 'Sikuliaq', 'Revelle', 'anything']


def run(r):
    with iolib.Scratch() as sc:
        for k in r.rounds():
            ship = SHIPS[k % len(SHIPS)]
            nf = int(r.pick([1, 1, 2, 3]))
            fs = [iolib.dgs_raw(r, ship, r.size(1, 20, (1, 2))) for _ in range(nf)]
            cols = [set(w[0]) for _, w in fs]
            if any(c != cols[0] for c in cols):
                fs, nf = fs[:1], 1
            paths = [sc.write(t) for t, _ in fs]
            sccp = r.pick([None, True, False])
            kw = {} if sccp is None else {'scale_ccp': sccp}
            info = dict(ship=ship, files=[t[:1500] for t, _ in fs], scale_ccp=sccp)
            got = iolib.reader(r, io.read_dgs_raw, [paths[0] if nf == 1 and r.rng.random() < .5 else paths, ship], info, **kw)
            rows = [dict(x) for _, w in fs for x in w]
            if sccp is not False:
                for x in rows:
                    for c in ('ve', 'ax', 'al', 'vcc'):
                        x[c] = x[c] * 1e-5
            iolib.frame(r, got, sorted(rows[0]), rows, info)
            r.note((ship, sccp, tuple(t for t, _ in fs)), {'ship': ship, 'first_line': fs[0][0][:160]})
            sc.empty()
