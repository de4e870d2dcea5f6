import builtins
import os
from rlib import np
import iolib
import pandas as pd
import tomli
from shipgrav import io

NAV = dict(iolib.NAV_TALKER)
SCALE = {'Atlantis': 4.994070552, 'Thompson': 5.003353363, 'Revelle': 4.99980755, 'Langseth': 5.0}
RGS = ['Atlantis', 'NBP']
LAPTOP = {'Atlantis': 'general', 'Revelle': 'general', 'NBP': 'general', 'Ride': 'general', 'DGStest': 'general',
          'Thompson': 'Thompson', 'Sikuliaq': 'Sikuliaq', 'Langseth': 'Langseth'}
EVERY = sorted(set(NAV) | set(SCALE) | set(RGS) | set(LAPTOP))
NAMES = ['Titanic', '', 'atlantis', 'ATLANTIS', 'Atlantis ', 'Katama', 'Boaty McBoatface', 'nav-talkers', 'dgs', '0', 'Rid', 'Rides', 'Kilo Moana',
         'Oceanus', 'Endeavor', 'Healy', 'Armstrong', 'Sally Ride', 'Gould', 'Palmer']


class Watch:
    """files opened while a reader runs, the package's own database aside"""

    def __enter__(self):
        self.seen = []
        self.o = builtins.open
        pk = os.path.dirname(os.path.abspath(io.__file__))

        def opn(f, *a, **k):
            if isinstance(f, (str, bytes, os.PathLike)) and not os.path.abspath(os.fspath(f)).startswith(pk):
                self.seen.append(os.fspath(f))
            return self.o(f, *a, **k)
        builtins.open = opn
        return self

    def __exit__(self, *a):
        builtins.open = self.o


def refuse(r, f, args, kw, label, path):
    with Watch() as w:
        got = iolib.reader(r, f, args, dict(call=label), **kw)
    r.require(isinstance(got, (int, np.integer)) and got == -999, '%s returned %r instead of -999' % (label, got))
    r.require(not w.seen, '%s opened %s' % (label, w.seen))
    r.note(label)


def run(r):
    rng = r.rng
    db = tomli.load(open(os.path.join(os.path.dirname(io.__file__), 'database.toml'), 'rb'))
    r.require(db['nav-talkers'] == NAV, 'nav talkers in the database are %r' % (db['nav-talkers'],))
    r.require(db['BGM-scale'] == SCALE, 'BGM scale factors in the database are %r' % (db['BGM-scale'],))
    with iolib.Scratch() as sc:
        nope = os.path.join(sc.dir, 'not there')
        for k in r.rounds():
            ship = r.pick(NAMES + EVERY) if k >= len(NAMES + EVERY) else (NAMES + EVERY)[k]
            if ship and rng.random() < .1 and ship not in EVERY:
                ship = ship + str(rng.integers(0, 100))
            elif k >= len(NAMES + EVERY) and rng.random() < .3:
                s = r.pick(EVERY)
                i = int(rng.integers(0, len(s)))
                ship = r.pick([s[:i], s[i:], s + s, s.swapcase(), s[:i] + '*' + s[i:], ' ' + s, s + '\n', '^' + s, s[:i] + s[i + 1:]])
            paths = r.pick([nope, [nope], [nope, nope + '2']])
            one = dict(progressbar=False)
            # ---------------- refusals
            if ship not in NAV:
                refuse(r, io.read_nav, [ship, paths], {}, 'read_nav(%r)' % ship, paths)
                refuse(r, io.read_nav, [ship, paths], {'talker': 'GPGGA'}, 'read_nav(%r, talker)' % ship, paths)
            if ship not in SCALE:
                refuse(r, io.read_bgm_raw, [ship and paths, ship], {}, 'read_bgm_raw(%r)' % ship, paths)
                refuse(r, io.read_bgm_raw, [paths, ship], {'scale': 5.}, 'read_bgm_raw(%r, scale)' % ship, paths)
            if ship not in RGS:
                refuse(r, io.read_bgm_rgs, [paths, ship], {}, 'read_bgm_rgs(%r)' % ship, paths)
            if ship not in LAPTOP:
                refuse(r, io.read_dgs_laptop, [paths, ship], {}, 'read_dgs_laptop(%r)' % ship, paths)
            # ---------------- a supplied function, talker or scale comes first
            log = []
            counts = rng.integers(1, 1000, size=3)

            def bgm(path):
                log.append(path)
                return pd.DataFrame({'counts': counts})
            s = r.num(-9, 9, (1., 2.))
            if rng.random() < .3:
                s = r.pick([0., *SCALE.values()]) * (1 + r.pick([0., 1e-9, 1e-6, 1e-4, 3e-3, -.03]) * rng.random())
            info = dict(ship=ship)
            lst = [paths] if isinstance(paths, str) else paths
            got = iolib.reader(r, io.read_bgm_raw, [paths, ship], info, ship_function=bgm, scale=s)
            iolib.frame(r, got, ['counts', 'rgrav'], [{'counts': int(c), 'rgrav': s * c} for _ in lst for c in counts], info)
            r.require(log == lst, 'the supplied reader saw %r' % log, **info)
            if ship in SCALE:
                log.clear()
                got = iolib.reader(r, io.read_bgm_raw, [paths, ship], info, ship_function=bgm)
                iolib.frame(r, got, ['counts', 'rgrav'], [{'counts': int(c), 'rgrav': SCALE[ship] * c} for _ in lst for c in counts], info)
            log.clear()
            got = iolib.reader(r, io.read_dgs_laptop, [paths, ship], info, ship_function=bgm)
            iolib.frame(r, got, ['counts'], [{'counts': int(c)} for _ in lst for c in counts], info)
            r.require(log == lst, 'the supplied reader saw %r' % log, **info)
            text = 'line one\nline two\n'
            p = sc.write(text)
            tk = r.pick(['GPGGA', 'XXGGA', 'INGGA'])
            log.clear()
            t0, _ = iolib.instants(r, 4, 3)

            def nav(lines, talker):
                log.append((list(lines), talker))
                return np.array([1., 1.1, 1.2, 1.3]), np.array([5., 6., 7., 8.]), np.array(t0, dtype=object)
            got = iolib.reader(r, io.read_nav, [ship, p], info, ship_function=nav, talker=tk)
            r.require(log == [(['line one\n', 'line two\n'], tk)], 'the supplied reader saw %r' % (log,), **info)
            r.require(list(got['lat']) == [5., 6., 7., 8.], 'supplied positions came back as %r' % list(got['lat']), **info)
            log.clear()
            if ship in NAV:
                iolib.reader(r, io.read_nav, [ship, p], info, ship_function=nav)
                r.require(log[0][1] == NAV[ship], 'the supplied reader was given talker %r' % (log[0][1],), **info)
                # the ship's own parser and talker
                import R_N01
                t, want = R_N01.one_file(r, sc, ship, digits=0 if ship == 'Thompson' else None)
                q = sc.write(t)
                got = R_N01.read(r, ship, q, dict(ship=ship, text=t[:1500]))
                R_N01.check_table(r, got, want, dict(ship=ship, text=t[:1500]))
                if ship != 'Sikuliaq':
                    other = 'GPGGA' if NAV[ship] == 'INGGA' else 'INGGA'
                    t, want = R_N01.one_file(r, sc, ship, digits=0 if ship == 'Thompson' else None, talker=other)
                    got = R_N01.read(r, ship, sc.write(t), dict(ship=ship, talker=other, text=t[:1500]), talker=other)
                    R_N01.check_table(r, got, want, dict(ship=ship, talker=other, text=t[:1500]))
            if ship in SCALE:
                t, rows = iolib.bgm_serial(r, ship, 3)
                got = iolib.reader(r, io.read_bgm_raw, [sc.write(t), ship], dict(ship=ship, text=t))
                iolib.frame(r, got, ['counts', 'date_time', 'rgrav'], [dict(x, rgrav=SCALE[ship] * x['counts']) for x in rows], dict(ship=ship, text=t))
                q = r.pick([s, SCALE[ship] * (1 + r.pick([1e-9, 1e-6, 1e-4, 3e-3, -.03]) * rng.random())])
                got = iolib.reader(r, io.read_bgm_raw, [sc.write(t), ship], dict(ship=ship, text=t, scale=q), scale=q)
                iolib.frame(r, got, ['counts', 'date_time', 'rgrav'], [dict(x, rgrav=q * x['counts']) for x in rows], dict(ship=ship, text=t, scale=q))
            if ship in RGS:
                t, rows = iolib.bgm_rgs(r, 3)
                got = iolib.reader(r, io.read_bgm_rgs, [sc.write(t), ship], dict(ship=ship, text=t))
                iolib.frame(r, got, ['grav', 'lat', 'lon', 'date_time'], rows, dict(ship=ship, text=t))
            if ship in LAPTOP:
                t, rows = iolib.dgs_laptop(r, ship, 3)
                got = iolib.reader(r, io.read_dgs_laptop, [sc.write(t), ship], dict(ship=ship, text=t[:900]))
                iolib.frame(r, got, sorted(rows[0]), rows, dict(ship=ship, text=t[:900]))
            r.note((ship, repr(paths)), {'ship': ship})
            sc.empty()
