"""Text of the log files of the supported ships, as symbolic lines (file f, row j).

Every field is an arbitrary value of its documented form: dates and times of day, fractions of a second of 0 to 6
digits, decimal numerals with any number of digits and sign, integers, padding blanks, and words."""
import hashlib
from .base import *
from engine import pdmodel, strmodel as S, filemodel as F, dtmodel, evalt
from engine.dtmodel import DT, civil
from .navlib import path_word, path_no

_defs = {}


def ranged(name, lo, hi, *ix):
    """an arbitrary integer between lo and hi"""
    if name not in _defs:
        _defs[name] = (lo, hi)

        def side(z, r, args):
            return [r >= lo, r <= hi]

        def val(ev, a):
            h = hashlib.sha256(repr((name, [ev.poly(x) for x in a])).encode()).digest()
            return lo + int.from_bytes(h[:6], 'big') % (hi - lo + 1)
        prover.SIDE[name] = side
        evalt.EVAL[name] = val
    assert _defs[name] == (lo, hi)
    return fn(name, *[T.P(i) for i in ix], sort='i', nonneg=lo >= 0)


def us(*ix):
    """fraction of a second, in seconds: a whole number of microseconds"""
    return ranged('us', 0, 999999, *ix) / 1000000


class When:
    """an arbitrary UTC instant of row ix, written in pieces; `has` is the condition under which there is a fraction"""

    def __init__(self, *ix, has=TRUE, ylo=1000, yhi=9999, q=''):
        self.Y = ranged('year%s' % ('' if ylo == 1000 else ylo) + q, ylo, yhi, *ix)
        self.mon = ranged('month' + q, 1, 12, *ix)
        self.day = ranged('day' + q, 1, 31, *ix)
        self.doy = ranged('doy' + q, 1, 366, *ix)
        self.h = ranged('hour' + q, 0, 23, *ix)
        self.m = ranged('minute' + q, 0, 59, *ix)
        self.s = ranged('second' + q, 0, 59, *ix)
        self.us = ranged('us' + q, 0, 999999, *ix)
        self.has = has

    def frac(self):
        return S.Choice(self.has, ('.', S.Frac(self.us / 1000000)), ())

    def f(self):
        return ite(self.has, self.us / 1000000, ZERO)

    def sod(self):
        return self.h * 3600 + self.m * 60 + self.s + self.f()

    def utc(self):
        return civil(self.Y, self.mon, self.day) * 86400 + self.sod()

    def utc_doy(self):
        return (civil(self.Y, 1, 1) + self.doy - 1) * 86400 + self.sod()

    def ymd(self, sep='/'):
        return [S.Dig(4, self.Y), sep, S.Dig(2, self.mon), sep, S.Dig(2, self.day)]

    def mdy(self):
        return [S.Dig(2, self.mon), '/', S.Dig(2, self.day), '/', S.Dig(4, self.Y)]

    def ydoy(self, sep=':'):
        return [S.Dig(4, self.Y), sep, S.Dig(3, self.doy)]

    def hms(self):
        return [S.Dig(2, self.h), ':', S.Dig(2, self.m), ':', S.Dig(2, self.s), self.frac()]


def pad(*ix):
    """any number of blanks"""
    return S.Run('word', fn('pad', *[T.P(i) for i in ix], sort='i'), ' ', 0)


def word(name, *ix, chars=None, least=1):
    return S.Run('word', fn(name, *[T.P(i) for i in ix], sort='i'), S.PRINT - frozenset(' ,"#$') if chars is None else chars, least)


def real(name, *ix):
    return S.Real(el(name, *ix))


def integer(name, *ix):
    return S.IntRun(el(name, *ix, sort='i'), neg=True)


def count(name, *ix):
    return S.IntRun(el(name, *ix, sort='i', nonneg=True))


def seq(sep, *fields):
    out = []
    for k, x in enumerate(fields):
        if k:
            out.append(sep)
        out.extend(x if isinstance(x, (list, tuple)) else [x])
    return out


def rows(f):
    """number of data lines of file f"""
    return el('rows', f, sort='i', nonneg=True) + 1


def data_files(line, n=None, head=None):
    """file model: path f -> n(f) lines; line(f, j) pieces"""
    n = n or rows

    def files(I, path, mode):
        f = path_no(path)
        if f is None:
            raise Unsupported('unexpected path %r' % (path,))
        return F.text_file(I, path, mode, F.Text(n(f), lambda j: S.mk(line(f, j)), name=f))
    return files


ONE_FILE = num(7)


def table_post(P_, I, v, single, cols, n=None, nf=None, tz=('date_time',), kinds=None):
    """v is a table whose rows are the rows of all files in order.
    cols: name -> function (f, j) giving the number, text, or instant"""
    n = n or rows
    D = I.heap[v] if isinstance(v, ObjRef) else None
    ok = isinstance(D, pdmodel.DF)
    P_.ob('table', ok, repr(v))
    if not ok:
        raise Broken()
    P_.ob('columns', set(D.cols) == set(cols), 'columns %s, expected %s' % (list(D.cols), list(cols)))
    P_.ob('fresh row index', D.index is None, repr(D.index))
    if set(D.cols) != set(cols):
        raise Broken()
    k = var('row', 'i')
    if prover.prove(I.pc, eq(D.n, 0)):
        # no row to say anything about
        P_.eq('rows', n(ONE_FILE) if single else N.concat_map_arr(I, nf, lambda f: Arr((n(f),), lambda ix: ZERO, 'i')).shape[0], ZERO)
        return

    def spec(g, sort='f'):
        if single:
            return Arr((n(ONE_FILE),), lambda ix: g(ONE_FILE, ix[0]), sort)
        return N.concat_map_arr(I, nf, lambda f: Arr((n(f),), lambda ix: g(f, ix[0]), sort))
    total = spec(lambda f, j: j, 'i').shape[0]
    P_.eq('rows', D.n, total)
    pc = I.pc.extend(le(0, k), lt(k, D.n))
    pc0 = I.pc
    I.pc = pc
    try:
        for q, g in cols.items():
            A = D.cols[q]
            x = A.at(k)
            if q in tz:
                ok = isinstance(x, DT) and x.off is not None
                P_.ob(q + '/aware time', ok, repr(x))
                if ok:
                    P_.eq(q + '/UTC', x.off, 0, pc)
                    P_.eq(q, x.u, spec(g).at(k), pc)
                continue
            want = g(ZERO, ZERO)
            if isinstance(want, (list, tuple)) or S.is_string(want):
                if not S.is_string(x):
                    P_.ob(q, False, 'not text: %r' % (x,))
                    continue
                if single:
                    w = S.mk(g(ONE_FILE, k))
                else:
                    fa = N.concat_map_arr(I, nf, lambda f: Arr((n(f),), lambda ix: f, 'i')).at(k)
                    ra = N.concat_map_arr(I, nf, lambda f: Arr((n(f),), lambda ix: ix[0], 'i')).at(k)
                    w = S.mk(g(fa, ra))
                P_.holds(q, S.equal(x, w), pc)
                continue
            ok = A.dtype in 'if'
            P_.ob(q + '/numbers', ok, 'dtype %s' % A.dtype)
            if ok:
                P_.eq(q, N.as_poly(x), spec(g).at(k), pc)
    finally:
        I.pc = pc0


def each_list(C, label, target, build, post):
    """the contract for one path and for a list of any number of paths"""
    nf = ivar('files')
    for single in (True, False):
        def b(I, single=single):
            I.assume(ge(nf, 1))
            paths = path_word(ONE_FILE) if single else I.new_symlist(nf, path_word)
            return build(I, paths)

        def p(P_, I, env, v, single=single):
            post(P_, I, env, v, single, nf)
        C.call('%s, %s' % (label, 'one path' if single else 'list of paths'), target, b, p)
