"""BGM tables: one row per line."""
from .fmtlib import *

SCALE = {'Atlantis': '4.994070552', 'Thompson': '5.003353363', 'Revelle': '4.99980755', 'Langseth': '5.0'}


def counts_(ship, f, j):
    return ranged('count', 0, 999999, f, j) if ship == 'Langseth' else fn('counts', P(f), P(j), sort='i', nonneg=True)


def counter(ship, f, j):
    """six digits in Langseth's fixed columns, any number of them elsewhere"""
    return S.Dig(6, counts_(ship, f, j)) if ship == 'Langseth' else S.IntRun(counts_(ship, f, j))


def line(ship, f, j, width=4):
    w = When(f, j, has=T.pred('hasfrac', P(f)))
    cs = ['0', S.Dig(1, ranged('flag', 0, 9, f, j)), ':', counter(ship, f, j)]
    tail = ' 0' , S.Dig(1, ranged('tail', 0, 9, f, j))
    if ship == 'Atlantis':
        return ['BGM ', *w.ymd(), ' ', *w.hms(), ' BGM3 ', *cs, *tail]
    if ship == 'Thompson':
        return [*w.mdy(), ',', *w.hms(), ',', *cs, *tail]
    if ship == 'Revelle':
        return [*w.ymd('-'), 'T', *w.hms(), 'Z ', *cs, *tail]
    return ['vc01\t', *w.ydoy(), ':', S.Dig(2, w.h), ':', S.Dig(2, w.m), ':', S.Dig(2, w.s), '.',
            S.Dig(width, ranged('sub%d' % width, 0, 10 ** width - 1, f, j)), '\t', *cs, *tail]


def when(ship, f, j, width=4):
    if ship == 'Langseth':
        w = When(f, j, has=FALSE)
        return w.utc_doy() + ranged('sub%d' % width, 0, 10 ** width - 1, f, j) / 10 ** width
    return When(f, j, has=T.pred('hasfrac', P(f))).utc()


def rgs(f, j):
    w = When(f, j, has=T.pred('hasfrac', P(f)))
    full = seq(' ', 'RGS', w.ymd(), w.hms(), real('grav', f, j), count('g4', f, j), real('g5', f, j), real('g6', f, j), '855577.390', 'BGM3', 'S210',
               'GPS:', real('lat', f, j), real('lon', f, j), real('g13', f, j), '0', '0', 'UNKNOWN_SRC', real('g17', f, j), real('g18', f, j),
               'DEPTH:', '-999', '-999', 'NONE', 'HDG:', real('g24', f, j), real('g25', f, j), 'SRC_GYRO', 'NO_DNV_ERROR', real('g28', f, j), '-999')
    return full


def run(C):
    for ship in SCALE:
        for width in ((4,) if ship != 'Langseth' else (1, 2, 3, 4, 5, 6)):
            for given in (False, True):
                if given and width != 4:
                    continue
                name = 'serial/%s%s%s' % (ship, '/%d digits' % width if ship == 'Langseth' else '', '/scale given' if given else '')

                def build(I, paths, ship=ship, width=width, given=given):
                    I.files = data_files(lambda f, j: line(ship, f, j, width))
                    kw = dict(progressbar=False)
                    if given:
                        kw['scale'] = fl('scale')
                    return [paths, ship], kw, {}

                def post(P_, I, env, v, single, nf, ship=ship, width=width, given=given):
                    sc = var('scale') if given else D(SCALE[ship])
                    cnt = lambda f, j: counts_(ship, f, j)
                    table_post(P_, I, v, single, {'counts': cnt, 'date_time': lambda f, j: when(ship, f, j, width),
                                                  'rgrav': lambda f, j: sc * cnt(f, j)}, nf=nf)
                each_list(C, name, 'io.read_bgm_raw', build, post)
    for ship in ('Atlantis', 'NBP'):
        def build(I, paths, ship=ship):
            # blank lines may stand between the records
            I.files = data_files(lambda f, j: [S.Choice(T.pred('blank', P(f), P(j)), (), rgs(f, j))])
            return [paths, ship], dict(progressbar=False), {}

        def post(P_, I, env, v, single, nf):
            rec = lambda f: lam1(lambda z: not_(T.pred('blank', P(f), z)))
            at = lambda f, j: N.nth(rows(f), rec(f), j)
            n = lambda f: sum_(0, rows(f), lambda z: ite(T.pred('blank', P(f), z), ZERO, ONE))
            table_post(P_, I, v, single, {
                'grav': lambda f, j: el('grav', f, at(f, j)), 'lat': lambda f, j: el('lat', f, at(f, j)), 'lon': lambda f, j: el('lon', f, at(f, j)),
                'date_time': lambda f, j: When(f, at(f, j), has=T.pred('hasfrac', P(f))).utc()}, n=n, nf=nf)
        each_list(C, 'RGS/' + ship, 'io.read_bgm_rgs', build, post)
