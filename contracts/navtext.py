"""Text of the navigation logs: line j of file f is a sentence of the chosen talker or any other text.

Every field of a sentence is an arbitrary value of its documented form: time of day with or without a fraction of a
second, degrees and minutes (any number of digits after the point), hemisphere letters, blank position fields, and any
tail; the ships' log stamps in front of the sentence, and any lines in between that do not carry the talker."""
from .fmtlib import *
from engine.terms import NAN

SHIPS = ['Atlantis', 'NBP', 'Thompson', 'Revelle', 'Ride', 'Langseth', 'Sikuliaq']
TALKER = {'Atlantis': 'GPGGA', 'NBP': 'GPGGA', 'Thompson': 'INGGA', 'Revelle': 'GPGGA', 'Ride': 'INGGA', 'Langseth': 'INGGA',
          'Sikuliaq': 'GPGGA'}
BLANK_LINE = S.PRINT | frozenset('\t')


class Sentence:
    """the sentence in line j of file f"""

    def __init__(self, f, j, ship, talker):
        self.f, self.j, self.ship, self.talker = f, j, ship, talker
        a = (P(f), P(j))
        self.isT = T.pred('sentence', *a)
        self.dated = T.pred('dated', *a)
        self.nopos = T.pred('nolat', *a), T.pred('nolon', *a)
        self.w = When(f, j, has=T.pred('hasfrac', *a), q='fix')          # the fix
        self.log = When(f, j, has=T.pred('loghasfrac', *a), q='log')     # the log's own clock
        self.south, self.west = T.pred('south', *a), T.pred('west', *a)
        self.ladeg, self.lodeg = ranged('ladeg', 0, 90, *a), ranged('lodeg', 0, 180, *a)
        self.lamin, self.lomin = el('lamin', *a, nonneg=True), el('lomin', *a, nonneg=True)

    def lat(self):
        v = self.ladeg + self.lamin / 60
        return ite(self.south, -v, v)

    def lon(self):
        v = self.lodeg + self.lomin / 60
        return ite(self.west, -v, v)

    def missing(self):
        return or_(*self.nopos)

    def clock(self, w):
        return [S.Dig(2, w.h), S.Dig(2, w.m), S.Dig(2, w.s), w.frac()]

    def minutes(self, v):
        return S.Real(v, neg=False)

    def pos(self):
        a = (P(self.f), P(self.j))
        la = S.Choice(self.nopos[0], (), (S.Dig(2, self.ladeg), self.minutes(self.lamin)))
        lo = S.Choice(self.nopos[1], (), (S.Dig(3, self.lodeg), self.minutes(self.lomin)))
        return [la, ',', S.Choice(self.south, 'S', 'N'), ',', lo, ',', S.Choice(self.west, 'W', 'E')]

    def text(self, name, comma=True):
        chars = BLANK_LINE if comma else BLANK_LINE - {','}
        return S.Run('word', fn(name, P(self.f), P(self.j), sort='i'), chars, 0, lacks=(self.talker,))

    def prefix(self):
        ship, w, l = self.ship, self.w, self.log
        if ship == 'Atlantis':
            same = [S.Dig(4, w.Y), '/', S.Dig(2, w.mon), '/', S.Dig(2, w.day)]
            return ['NAV ', *same, ' ', *l.hms(), ' GPS ']
        if ship == 'NBP':
            # the day of the year with or without its leading zero
            short = and_(ge(w.doy, 10), lt(w.doy, 100), T.pred('unpadded', P(self.f), P(self.j)))
            return [S.Dig(2, self.yy()), '+', S.Choice(short, (S.Dig(2, w.doy),), (S.Dig(3, w.doy),)), ':', *l.hms(), ' ']
        if ship == 'Thompson':
            return [S.Dig(2, w.mon), '/', S.Dig(2, w.day), '/', S.Dig(4, w.Y), ',', *l.hms(), ',']
        if ship == 'Revelle':
            return []
        if ship in ('Ride', 'Sikuliaq'):
            if self.talker == 'INGGA':
                return [S.IntRun(self.posix()), w.frac(), ' ']
            return [*w.ymd('-'), 'T', S.Dig(2, w.h), ':', S.Dig(2, w.m), ':', S.Dig(2, w.s), '.', S.Frac(w.us / 1000000), 'Z ']
        if ship == 'Langseth':
            return ['seapath\t', *w.ydoy(), ':', S.Dig(2, w.h), ':', S.Dig(2, w.m), ':', S.Dig(2, w.s), '.', S.Frac(w.us / 1000000), '\t']
        raise AssertionError(ship)

    def yy(self):
        return ranged('yy', 0, 99, self.f, self.j)

    def posix(self):
        return ranged('posix', 0, 253402300799, self.f, self.j)

    def sentence(self, sep):
        own = self.ship in ('Ride', 'Sikuliaq', 'Langseth')
        return ['$', self.talker, sep, *self.clock(self.log if own else self.w), ',', *self.pos(), *[x for k in range(9) for x in (',', self.text('tail%d' % k, comma=False))]]

    def line(self, sep=','):
        other = [self.text('other')]
        if self.ship == 'Revelle':
            d = self.w
            other = [S.Choice(self.dated, (*When(self.f, self.j, q='stamp').ymd('-'), 'T', *self.log.hms(), 'Z ', self.text('other')),
                              ('$', self.text('other')))]
        return [S.Choice(self.isT, (*self.prefix(), *self.sentence(sep)), other)]


def nav_files(ship, talker, sep):
    return data_files(lambda f, j: Sentence(f, j, ship, talker).line(sep))


def nfix(f):
    return sum_(0, rows(f), lambda j: ite(T.pred('sentence', P(f), j), ONE, ZERO))


def at(f, i):
    """line of fix i of file f"""
    return N.nth(rows(f), lam1(lambda z: T.pred('sentence', P(f), z)), i)


def stamp_line(f, i):
    """(whether there is a dated line between the sentence of fix i and the previous sentence, the last such line)"""
    a, here = ite(eq(i, 0), num(-1), at(f, i - 1)), at(f, i)
    n = here - a - 1
    lam = lam1(lambda b: and_(not_(T.pred('sentence', P(f), here - 1 - b)), T.pred('dated', P(f), here - 1 - b)))
    return T.exists_(n, lam), here - 1 - N.nth(n, lam, ZERO)


def stamped(I):
    """Revelle: the date is on a line of its own, at least one before every sentence (after the previous one)"""
    I.foralls.append((lambda i: and_(le(0, i), lt(i, nfix(ONE_FILE))), lambda i: stamp_line(ONE_FILE, i)[0]))


# ---------------------------------------------------------------- the table those lines must give

def fix_time(ship, talker, f, i, whole=False):
    j = at(f, i)
    w = Sentence(f, j, ship, talker).w
    frac = ZERO if whole else w.f()
    if ship == 'NBP':
        s = Sentence(f, j, ship, talker)
        return (civil(s.yy() + 2000, 1, 1) + w.doy - 1) * 86400 + w.h * 3600 + w.m * 60 + w.s + frac
    if ship in ('Ride', 'Sikuliaq') and talker == 'INGGA':
        return Sentence(f, j, ship, talker).posix() + w.f()
    if ship == 'Revelle':
        d = When(f, stamp_line(f, i)[1], q='stamp')
        return civil(d.Y, d.mon, d.day) * 86400 + w.h * 3600 + w.m * 60 + w.s + frac
    if ship in ('Ride', 'Sikuliaq', 'Langseth'):
        frac = w.us / 1000000
    if ship == 'Langseth':
        return (civil(w.Y, 1, 1) + w.doy - 1) * 86400 + w.h * 3600 + w.m * 60 + w.s + frac
    return civil(w.Y, w.mon, w.day) * 86400 + w.h * 3600 + w.m * 60 + w.s + frac


def same_keys(I, got, n, t):
    """the element function of t; as the code writes it where that is the same for every index"""
    a = T.find_atom(got, 'uidx', lambda a: a.args[0] is n)
    z = var('fix', 'i')
    if a is not None and prover.prove_eq(a.args[1].open(z), t.at(z), I.pc.extend(le(0, z), lt(z, n))):
        return a.args[1]
    return N.lam_of(t, I)


def nav_table(P_, I, v, ship, talker, what):
    """v is the table of the fixes of file 7, ordered by time; what: 'pos' and/or 'time'"""
    D = I.heap[v] if isinstance(v, ObjRef) else None
    ok = isinstance(D, pdmodel.DF) and {'time_sec', 'lon', 'lat', 'stamps'} <= set(D.cols) and D.index is None
    P_.ob('table', ok, repr(v))
    if not ok:
        raise Broken()
    f = ONE_FILE
    n = nfix(f)
    k = var('row', 'i')
    pc = I.pc.extend(le(0, k), lt(k, D.n))
    got = N.as_poly(D.cols['time_sec'].at(k))
    # Thompson logs: see the finding N02-thompson-fraction
    modes = (False, True) if ship == 'Thompson' and 'time' not in what else (what == ('time', 'whole'),)
    for whole in modes:
        t = Arr((n,), lambda ix: fix_time(ship, talker, f, ix[0], whole), 'f')
        lam = same_keys(I, got, n, t)
        first = N.first_index(n, lam, k)
        if whole is modes[-1] or prover.prove_eq(got, t.at(first), pc):
            break
    P_.eq('rows', D.n, N.count_distinct(n, lam))
    P_.eq('time', got, t.at(first), pc)
    if 'time' in what:
        with P_.under(pc):
            s = D.cols['stamps'].at(k)
        P_.ob('stamp/datetime', isinstance(s, DT) and s.off is not None, repr(s))
        if isinstance(s, DT) and s.off is not None:
            P_.eq('stamp/UTC', s.off, 0, pc)
            P_.eq('stamp', s.u, t.at(first), pc)
        return
    row = N.same_as(n, lam, first)

    def pos(q, i):
        s = Sentence(f, at(f, i), ship, talker)
        return ite(s.missing(), NAN, getattr(s, q)())
    P_.eq('lat', N.as_poly(D.cols['lat'].at(k)), pos('lat', row), pc)
    lon = N.as_poly(D.cols['lon'].at(k))
    if prover.prove_eq(lon, pos('lon', row), pc):
        P_.ob('lon', True)
    else:
        def logged(j):
            x = Sentence(f, at(f, N.first_index(n, lam, j)), ship, talker)
            return x.missing(), x.lon()

        def jump(j):
            (ma, a), (mb, b) = logged(j), logged(j + 1)
            return ite(and_(not_(ma), not_(mb), gt(T.abs_(b - a), 1)), ONE, ZERO)
        c = sum_(0, D.n - 1, jump)
        # on this path the track jumps
        ok = False
        for q in I.pc.conds:
            if q.op == 'le' and len(q.args[0].m) == 2:
                p = 1 - q.args[0]
                ok = ok or T.single_atom(p) is not None and prover.prove_eq(p, c, I.pc.extend(ge(D.n, 1)))
        P_.ob('lon is the logged one unless the track jumps', ok, 'not shown to be a track with a jump')
