"""Dispatch: refusals that touch nothing, overrides that win, and each ship's own parser, talker and scale factor."""
import os
import tomllib
from .navtext import *
from . import R01, R02, R03, navlib

NAV = TALKER
RGS = ('Atlantis', 'NBP')
LAPTOP = ('Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth')
KNOWN = sorted(set(NAV) | set(R01.SCALE) | set(RGS) | set(LAPTOP))
nf = ivar('files')
COUNTS = lambda f: Arr((rows(f),), lambda ix: ranged('count', 0, 999999, f, ix[0]), 'i')


def name_of(ship):
    return ship if isinstance(ship, str) else 'any other name'


def refuse(C, label, target, ship, nav=False, **kw):
    """-999, and no file but the package's own database is opened"""
    for single in (True, False):
        def build(I, single=single):
            I.assume(ge(nf, 1))
            paths = path_word(ONE_FILE) if single else I.new_symlist(nf, path_word)
            k = {q: (x() if callable(x) else x) for q, x in kw.items()}
            return ([ship, paths] if nav else [paths, ship]), dict(k, progressbar=False), {}

        def post(P_, I, env, v):
            P_.ob('refused', I.is_number(v), repr(v))
            if I.is_number(v):
                P_.eq('refused with -999', I.poly(v), -999)
        C.call('%s refuses %s%s' % (label, name_of(ship), '' if single else ', list of paths'), target, build, post)


def frame_of(P_, I, v, *cols):
    D = I.heap[v] if isinstance(v, ObjRef) else None
    ok = isinstance(D, pdmodel.DF) and set(cols) <= set(D.cols)
    P_.ob('table', ok, repr(v))
    if not ok:
        raise Broken()
    return D


def supplied(C, label, target, ship, scale=None, kw={}):
    """the table of a user-supplied reading function, one call per path, is what comes back (scaled once)"""
    def user(I, args, k):
        f = path_no(args[0]) if len(args) == 1 and not k else None
        I.oblige('the function is given the path', f is not None, repr((args, k)))
        if f is None:
            raise Unsupported('reading function called with something else')
        return pdmodel.mk_df(I, {'counts': COUNTS(f)}, rows(f))

    def build(I, paths):
        return [paths, ship], dict({q: (x() if callable(x) else x) for q, x in kw.items()}, progressbar=False, ship_function=Builtin('ship_function', user)), {}

    def post(P_, I, env, v, single, nf):
        cols = {'counts': lambda f, j: ranged('count', 0, 999999, f, j)}
        if scale is not None:
            cols['rgrav'] = lambda f, j: scale * ranged('count', 0, 999999, f, j)
        table_post(P_, I, v, single, cols, nf=nf)
    each_list(C, '%s with a supplied function, %s' % (label, name_of(ship)), target, build, post)


def own(C, label, target, ship, line, cols, n=rows, scale=None, scaled_by=None):
    """the ship's own format gives a table with a row per record"""
    def build(I):
        I.files = data_files(line, n=n[1] if isinstance(n, tuple) else None)
        kw = dict(progressbar=False)
        if scaled_by:
            kw['scale'] = fl(scaled_by)
        return [path_word(ONE_FILE), ship], kw, {}

    def post(P_, I, env, v):
        D = frame_of(P_, I, v, *cols)
        P_.eq('a row per record', D.n, (n[0] if isinstance(n, tuple) else n)(ONE_FILE))
        if scale is not None:
            k = var('row', 'i')
            P_.eq('scale factor', N.as_poly(D.cols['rgrav'].at(k)), scale * N.as_poly(D.cols['counts'].at(k)), I.pc.extend(le(0, k), lt(k, D.n)))
    C.call('%s reads %s%s' % (label, name_of(ship), ', scale given' if scaled_by else ''), target, build, post)


def run(C):
    other = F.OtherName('ship')
    # ---------------------------------------------------------------- refused
    for ship in [other] + KNOWN:
        if ship not in NAV:
            refuse(C, 'read_nav', 'io.read_nav', ship, nav=True)
            refuse(C, 'read_nav, talker given,', 'io.read_nav', ship, nav=True, talker='GPGGA')
        if ship not in R01.SCALE:
            refuse(C, 'read_bgm_raw', 'io.read_bgm_raw', ship)
        if ship not in RGS:
            refuse(C, 'read_bgm_rgs', 'io.read_bgm_rgs', ship)
        if ship not in LAPTOP:
            refuse(C, 'read_dgs_laptop', 'io.read_dgs_laptop', ship)

    # ---------------------------------------------------------------- what the user supplies wins
    for ship in [other] + KNOWN:
        sc = D(R01.SCALE[ship]) if ship in R01.SCALE else None
        supplied(C, 'read_bgm_raw, scale given,', 'io.read_bgm_raw', ship, scale=var('scale'), kw={'scale': lambda: fl('scale')})
        if sc is not None:
            supplied(C, 'read_bgm_raw', 'io.read_bgm_raw', ship, scale=sc)
        supplied(C, 'read_dgs_laptop', 'io.read_dgs_laptop', ship)
        for tk in ([None] if ship in NAV else []) + ['GPGGA', 'INGGA', 'XXGGA']:
            def build(I, ship=ship, tk=tk):
                I.files = navlib.files_reader()
                fun = navlib.ship_fun(lambda f: (rows(f), lambda i: el('lon', f, i), lambda i: el('lat', f, i), lambda i: el('t', f, i)), tk or NAV[ship])
                return [ship, path_word(ONE_FILE)], dict({'talker': tk} if tk else {}, ship_function=fun, progressbar=False), {}

            def post(P_, I, env, v):
                D = frame_of(P_, I, v, 'time_sec', 'lat', 'lon')
                n = rows(ONE_FILE)
                lam = lam1(lambda j: el('t', ONE_FILE, j))
                k = var('row', 'i')
                pc = I.pc.extend(le(0, k), lt(k, D.n))
                at = N.first_index(n, lam, k)
                P_.eq('rows', D.n, N.count_distinct(n, lam))
                P_.eq('time', N.as_poly(D.cols['time_sec'].at(k)), el('t', ONE_FILE, at), pc)
                P_.eq('lat', N.as_poly(D.cols['lat'].at(k)), el('lat', ONE_FILE, N.same_as(n, lam, at)), pc)
            C.call('read_nav with a supplied function, %s, %s' % (name_of(ship), tk or 'talker not given'), 'io.read_nav', build, post)

    # another talker than the ship's own
    for ship, tk in (('Atlantis', 'INGGA'), ('NBP', 'INGGA'), ('Revelle', 'INGGA'), ('Langseth', 'GPGGA')):
        def build(I, ship=ship, tk=tk):
            I.files = nav_files(ship, tk, ',')
            I.assume(ge(nfix(ONE_FILE), 1))
            if ship == 'Revelle':
                stamped(I)
            return [ship, path_word(ONE_FILE)], dict(talker=tk, progressbar=False), {}
        C.call('read_nav, %s, talker %s' % (ship, tk), 'io.read_nav', build,
               lambda P_, I, env, v, ship=ship, tk=tk: nav_table(P_, I, v, ship, tk, ('time',)))

    # ---------------------------------------------------------------- each ship's own
    for ship, sc in R01.SCALE.items():
        cols = ('counts', 'date_time', 'rgrav')
        own(C, 'read_bgm_raw', 'io.read_bgm_raw', ship, lambda f, j, ship=ship: R01.line(ship, f, j), cols, scale=D(sc))
        own(C, 'read_bgm_raw', 'io.read_bgm_raw', ship, lambda f, j, ship=ship: R01.line(ship, f, j), cols, scale=var('scale'), scaled_by='scale')
    for ship in RGS:
        own(C, 'read_bgm_rgs', 'io.read_bgm_rgs', ship, R01.rgs, ('grav', 'lat', 'lon', 'date_time'))
    for ship in LAPTOP:
        if ship == 'Thompson':
            own(C, 'read_dgs_laptop', 'io.read_dgs_laptop', ship, R02.thompson, ('rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon', 'date_time'))
        elif ship == 'Sikuliaq':
            own(C, 'read_dgs_laptop', 'io.read_dgs_laptop', ship, R02.sikuliaq, (*R02.KEEP, 'date_time'), n=(rows, lambda f: rows(f) + 19))
        elif ship == 'Langseth':
            own(C, 'read_dgs_laptop', 'io.read_dgs_laptop', ship, R02.langseth, (*R02.KEEP, 'date_time'),
                n=(lambda f: sum_(0, rows(f), lambda z: ite(R02.good(f, z), ONE, ZERO)), rows))
        else:
            own(C, 'read_dgs_laptop', 'io.read_dgs_laptop', ship, R02.line, (*R02.KEEP, 'date_time'))
    for ship in SHIPS:
        def build(I, ship=ship):
            I.files = nav_files(ship, NAV[ship], ',')
            I.assume(ge(nfix(ONE_FILE), 1))
            if ship == 'Revelle':
                stamped(I)
            return [ship, path_word(ONE_FILE)], dict(progressbar=False), {}
        C.call('read_nav reads %s' % ship, 'io.read_nav', build, lambda P_, I, env, v: frame_of(P_, I, v, 'time_sec', 'lon', 'lat', 'stamps'))

    # ---------------------------------------------------------------- what the database lists is supported
    db = tomllib.load(open(os.path.join(C_repo(), 'shipgrav', 'database.toml'), 'rb'))
    C.fact('database: every ship with a nav talker is read by read_nav', set(db['nav-talkers']) <= set(NAV), sorted(db['nav-talkers']))
    C.fact('database: every ship with a BGM scale factor is read by read_bgm_raw', set(db['BGM-scale']) <= set(R01.SCALE), sorted(db['BGM-scale']))


def C_repo():
    return os.environ.get('SHIPGRAV_REPO', '/repo')
