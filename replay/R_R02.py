from rlib import np
import iolib
from shipgrav import io

SHIPS = ['Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth', 'Langseth']
COLS = ['rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc', 'al', 'ax', 'lat', 'lon', 'year', 'month', 'day', 'hour', 'minute',
        'second', 'date_time']
TCOLS = ['rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon', 'date_time']


def run(r):
    with iolib.Scratch() as sc:
        for k in r.rounds():
            ship = SHIPS[k % len(SHIPS)]
            nf = int(r.pick([1, 1, 2, 3]))
            fs = [iolib.dgs_laptop(r, ship, r.size(1, 20, (1, 2)), bad=r.rng.random() < .6) for _ in range(nf)]
            paths = [sc.write(t) for t, _ in fs]
            info = dict(ship=ship, files=[t[:1500] for t, _ in fs])
            got = iolib.reader(r, io.read_dgs_laptop, [paths[0] if nf == 1 and r.rng.random() < .5 else paths, ship], info)
            iolib.frame(r, got, TCOLS if ship == 'Thompson' else COLS, [x for _, w in fs for x in w], info)
            r.note((ship, tuple(t for t, _ in fs)), {'ship': ship, 'first_line': fs[0][0][:160]})
            sc.empty()
