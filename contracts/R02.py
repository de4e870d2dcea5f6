"""DGS laptop tables: every documented field in its own column, one row per well-formed line."""
from .fmtlib import *

LAPTOP = ['qc', 'rgrav', 'long_a', 'crss_a', 'beam', 'temp', 'status', 'checksum', 'press', 'etemp', 've', 'vcc', 'al', 'ax',
          'lat', 'lon', 'speed', 'course', 'vmond']
KEEP = ['rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc', 'al', 'ax', 'lat', 'lon']
CLOCK = [('year', 1000, 9999), ('month', 1, 12), ('day', 1, 31), ('hour', 0, 23), ('minute', 0, 59)]


def value(c, f, j):
    return el(c, f, j, sort='i', nonneg=True) if c in ('status', 'checksum') else el(c, f, j)


def field(c, f, j):
    return [pad(num(LAPTOP.index(c)), f, j), S.IntRun(value(c, f, j)) if c in ('status', 'checksum') else S.Real(value(c, f, j))]


def clock(f, j):
    return [[S.IntRun(ranged(q, lo, hi, f, j))] for q, lo, hi in CLOCK] + [[S.Real(el('sec', f, j, nonneg=True), neg=False)]]


def utc(f, j):
    q = {q: ranged(q, lo, hi, f, j) for q, lo, hi in CLOCK}
    return civil(q['year'], q['month'], q['day']) * 86400 + q['hour'] * 3600 + q['minute'] * 60 + el('sec', f, j, nonneg=True)


def line(f, j):
    return seq(',', *[field(c, f, j) for c in LAPTOP], *clock(f, j), count('counter', f, j))


def columns(at=lambda f, j: j):
    cols = {c: (lambda f, j, c=c: value(c, f, at(f, j))) for c in KEEP}
    for q, lo, hi in CLOCK:
        cols[q] = lambda f, j, q=q, lo=lo, hi=hi: ranged(q, lo, hi, f, at(f, j))
    cols['second'] = lambda f, j: el('sec', f, at(f, j), nonneg=True)
    cols['date_time'] = lambda f, j: utc(f, at(f, j))
    return cols


def stamp(f, j):
    """any log stamp"""
    return S.Run('word', fn('stamp', P(f), P(j), sort='i'), S.DIGITS | frozenset(':.-TZ'), 1)


def thompson(f, j):
    w = When(f, j, has=T.pred('hasfrac', P(f)))
    return seq(',', w.mdy(), w.hms(), *[field(c, f, j) for c in LAPTOP], count('counter', f, j))


def sikuliaq(f, j):
    # 19 lines of header, whatever they say
    head = S.Run('word', fn('header', P(f), P(j), sort='i'), S.PRINT, 0)
    rec = lambda j: ['grav_dgs_33_proc\t', stamp(f, j), '\t', *line(f, j)]
    return [S.Choice(lt(P(j), 19), (head,), rec(P(j) - 19))]


# Langseth: records with or without a prefix, among lines to be skipped

def good(f, j):
    return T.pred('good', P(f), P(j))


def langseth(f, j):
    f, j = P(f), P(j)
    tab = lambda q: S.Choice(T.pred('tab', f, j, P(q)), ('\t',), (' ',))
    pre = S.Choice(T.pred('prefixed', f, j), (pad(num(99), f, j), 'dgsdata', tab(0), stamp(f, j), tab(1)), ())
    m = el('fields', f, j, sort='i', nonneg=True) + 1
    m = m + ite(le(26, m), ONE, ZERO)               # any number of fields but 26
    bad = S.Choice(T.pred('empty', f, j), (), (S.Choice(
        T.pred('broken', f, j), (pad(num(99), f, j), 'dgsdata', S.Choice(T.pred('bare', f, j), (), (tab(0), stamp(f, j)))),
        (pre, S.Fields(fn('bad', f, j, sort='i'), m, S.NUMERAL | {',', ' '}))),))
    return [S.Choice(good(f, j), (pre, *line(f, j)), (bad,))]


def run(C):
    for ship in ('Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest'):
        def build(I, paths, ship=ship):
            I.files = data_files(line)
            return [paths, ship], dict(progressbar=False), {}
        each_list(C, ship, 'io.read_dgs_laptop', build, lambda P_, I, env, v, single, nf: table_post(P_, I, v, single, columns(), nf=nf))

    def build(I, paths):
        I.files = data_files(thompson)
        return [paths, 'Thompson'], dict(progressbar=False), {}

    def post(P_, I, env, v, single, nf):
        cols = {c: (lambda f, j, c=c: value(c, f, j)) for c in ('rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon')}
        cols['date_time'] = lambda f, j: When(f, j, has=T.pred('hasfrac', P(f))).utc()
        table_post(P_, I, v, single, cols, nf=nf)
    each_list(C, 'Thompson', 'io.read_dgs_laptop', build, post)

    def build(I, paths):
        I.files = data_files(sikuliaq, n=lambda f: rows(f) + 19)
        return [paths, 'Sikuliaq'], dict(progressbar=False), {}
    each_list(C, 'Sikuliaq', 'io.read_dgs_laptop', build, lambda P_, I, env, v, single, nf: table_post(P_, I, v, single, columns(), nf=nf))

    def build(I, paths):
        I.files = data_files(langseth)
        return [paths, 'Langseth'], dict(progressbar=False), {}

    def post(P_, I, env, v, single, nf):
        rec = lambda f: lam1(lambda z: good(f, z))
        n = lambda f: sum_(0, rows(f), lambda z: ite(good(f, z), ONE, ZERO))
        table_post(P_, I, v, single, columns(lambda f, j: N.nth(rows(f), rec(f), j)), n=n, nf=nf)
    each_list(C, 'Langseth', 'io.read_dgs_laptop', build, post)
