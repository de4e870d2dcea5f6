from rlib import np
import iolib
from shipgrav import io

SCALE = {'Atlantis': 4.994070552, 'Thompson': 5.003353363, 'Revelle': 4.99980755, 'Langseth': 5.0}


def run(r):
    with iolib.Scratch() as sc:
        for k in r.rounds():
            nf = int(r.pick([1, 1, 2, 3]))
            if k % 5 == 4:
                ship = r.pick(['Atlantis', 'NBP'])
                fs = [iolib.bgm_rgs(r, r.size(1, 12, (1, 2))) for _ in range(nf)]
                paths = [sc.write(t) for t, _ in fs]
                info = dict(ship=ship, files=[t[:900] for t, _ in fs])
                got = iolib.reader(r, io.read_bgm_rgs, [paths[0] if nf == 1 and r.rng.random() < .5 else paths, ship], info)
                iolib.frame(r, got, ['grav', 'lat', 'lon', 'date_time'], [x for _, w in fs for x in w], info)
            else:
                ship = list(SCALE)[k % 5]
                fs = [iolib.bgm_serial(r, ship, r.size(1, 30, (1, 2))) for _ in range(nf)]
                paths = [sc.write(t) for t, _ in fs]
                kw = {}
                s = SCALE[ship]
                if r.rng.random() < .4:
                    s = kw['scale'] = r.num(-10, 10, (1.0, 5.0, 0.0))
                info = dict(ship=ship, files=[t[:900] for t, _ in fs], scale=s)
                got = iolib.reader(r, io.read_bgm_raw, [paths[0] if nf == 1 and r.rng.random() < .5 else paths, ship], info, **kw)
                rows = [dict(x, rgrav=s * x['counts']) for _, w in fs for x in w]
                iolib.frame(r, got, ['counts', 'date_time', 'rgrav'], rows, info)
            r.note((ship, tuple(t for t, _ in fs)), {'ship': ship, 'first_line': fs[0][0][:120]})
            sc.empty()
