"""DGS serial tables: raw fields in place, times from where the format records them, monitors scaled exactly once."""
from .fmtlib import *

RAW = ['Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax', 'status', 'checksum',
       'latitude', 'longitude', 'speed', 'course']
REAL = ('latitude', 'longitude', 'speed', 'course')
MON = ('ve', 'vcc', 'al', 'ax')
SIK = {'rgrav': 'Gravity', 'long_a': 'Long', 'crss_a': 'Cross', 'vcc': 'vcc', 've': 've', 'al': 'al', 'ax': 'ax', 'lat': 'latitude', 'lon': 'longitude'}


def val(c, f, j):
    return el(c, f, j) if c in REAL else el(c, f, j, sort='i')


def field(c, f, j):
    return S.Real(val(c, f, j)) if c in REAL else S.IntRun(val(c, f, j), neg=True)


def name(f, j):
    return ['$AT1M_', word('meter', f, j, chars=S.DIGITS | S.LETTERS | frozenset('._'))]


def scaled(c, x, on):
    return x * D('0.00001') if on and c in MON else x


def iso(w):
    return [*w.ymd('-'), 'T', *w.hms(), 'Z']


def run(C):
    for sc in (None, True, False):
        tag = {None: '', True: ', scale_ccp=True', False: ', scale_ccp=False'}[sc]
        on = sc is not False
        kw = {} if sc is None else {'scale_ccp': sc}
        base = lambda on=on: {c: (lambda f, j, c=c: scaled(c, val(c, f, j), on)) for c in RAW}

        # the general format, with the three ways of recording the time
        for kind in ('stamp', 'stamp after a prefix', 'prefix', 'no time'):
            for ship in ('Ride', F.OtherName('ship')) if kind == 'stamp' else ('Atlantis',):
                def parts(f, j, kind=kind):
                    w = When(f, j, has=T.pred('hasfrac', P(f)), ylo=2000)
                    pre = [*iso(When(f, j, has=T.pred('hasfrac', P(f)), ylo=2000, q='log' if kind == 'stamp after a prefix' else '')), ' '] \
                        if kind in ('stamp after a prefix', 'prefix') else []
                    if kind.startswith('stamp'):
                        st = [S.Dig(4, w.Y), S.Dig(2, w.mon), S.Dig(2, w.day), S.Dig(2, w.h), S.Dig(2, w.m), S.Dig(2, w.s)]
                    else:
                        st = ['1', S.Dig(9, ranged('ticks', 0, 999999999, f, j))]
                    return pre + name(f, j), st, w

                def line(f, j, parts=parts):
                    s, st, w = parts(f, j)
                    return seq(',', s, *[field(c, f, j) for c in RAW], st)

                def build(I, paths, line=line, ship=ship):
                    I.files = data_files(line)
                    return [paths, ship], dict(kw, progressbar=False), {}

                def post(P_, I, env, v, single, nf, parts=parts, kind=kind):
                    cols = base()
                    cols['string'] = lambda f, j: parts(f, j)[0]
                    cols['timestamp'] = lambda f, j: S.digits_value(S.norm(parts(f, j)[1]))
                    if kind != 'no time':
                        cols['date_time'] = lambda f, j: (parts(f, j)[2].utc() if kind == 'prefix' else parts(f, j)[2].utc() - parts(f, j)[2].f())
                    table_post(P_, I, v, single, cols, nf=nf)
                each_list(C, 'general/%s/%s%s' % (kind, ship, tag), 'io.read_dgs_raw', build, post)

        def thom(f, j):
            w = When(f, j)
            return seq(',', w.mdy(), w.hms(), name(f, j), *[field(c, f, j) for c in RAW], count('ticks', f, j))

        def build(I, paths):
            I.files = data_files(thom)
            return [paths, 'Thompson'], dict(kw, progressbar=False), {}

        def post(P_, I, env, v, single, nf):
            cols = base()
            cols['date'] = lambda f, j: When(f, j).mdy()
            cols['time'] = lambda f, j: When(f, j).hms()
            cols['string'] = name
            cols['date_time'] = lambda f, j: When(f, j).utc()
            table_post(P_, I, v, single, cols, nf=nf)
        each_list(C, 'Thompson' + tag, 'io.read_dgs_raw', build, post)

        def sik(f, j):
            w = When(f, j, has=T.pred('hasfrac', P(f)))
            head = ('#', S.Run('word', fn('header', P(f), P(j), sort='i'), S.PRINT - {'"', '#'}, 0))
            return [S.Choice(T.pred('header', P(f), P(j)), head, (
                'grav_dgs_33_raw\t', *iso(w), '\t', *seq(',', name(f, j), *[field(c, f, j) for c in RAW], count('ticks', f, j))))]

        def build(I, paths):
            I.files = data_files(sik)
            return [paths, 'Sikuliaq'], dict(kw, progressbar=False), {}

        def post(P_, I, env, v, single, nf, on=on):
            rec = lambda f: lam1(lambda z: not_(T.pred('header', P(f), z)))
            at = lambda f, j: N.nth(rows(f), rec(f), j)
            n = lambda f: sum_(0, rows(f), lambda z: ite(T.pred('header', P(f), z), ZERO, ONE))
            cols = {q: (lambda f, j, q=q, c=c: scaled(q, val(c, f, at(f, j)), on)) for q, c in SIK.items()}
            cols['date_time'] = lambda f, j: When(f, at(f, j), has=T.pred('hasfrac', P(f))).utc()
            table_post(P_, I, v, single, cols, n=n, nf=nf)
        each_list(C, 'Sikuliaq' + tag, 'io.read_dgs_raw', build, post)
