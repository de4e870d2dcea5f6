"""Structured symbolic strings.

A string is a sequence of pieces: literal text, fixed-width digits of an integer, binary digits, decimal
numerals, digits of a fraction, arbitrary text over a character set, or a choice between two piece
sequences.  An operation is carried out only when its result is the same function of the pieces for every
text the pieces can stand for; otherwise it is Unsupported (never guessed)."""
import hashlib
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover
from .values import *

DIGITS = frozenset('0123456789')
PRINT = frozenset(chr(c) for c in range(32, 127))
SPACE = frozenset(' \t\n\r\x0b\x0c')
ALL = PRINT | SPACE
LETTERS = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
NUMERAL = DIGITS | frozenset('.+-eE')


class Piece:
    width = None      # exact number of characters, if fixed
    least = 0         # at least this many
    chars = ALL

    @property
    def first(self):
        """the characters it can begin with"""
        return self.chars

    @property
    def last(self):
        return self.chars

    def subst(self, mp):
        return self

    def fvs(self):
        return frozenset()

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Dig(Piece):
    """an integer 0 <= p < 10**width, zero padded"""
    chars = DIGITS

    def __init__(self, width, p):
        self.width = self.least = width
        self.p = P(p)

    def key(self):
        return ('dig', self.width, self.p)

    def subst(self, mp):
        return Dig(self.width, T.subst(self.p, mp))

    def fvs(self):
        return self.p.fv

    def cut(self, a, b):
        q = T.floor(self.p / 10 ** (self.width - b))
        if a:
            q = q - 10 ** (b - a) * T.floor(q / 10 ** (b - a))
        return Dig(b - a, q)

    def __repr__(self):
        return '<%d digits %r>' % (self.width, self.p)


class Bits(Piece):
    """binary digits of 0 <= p < 2**width, most significant first"""
    chars = frozenset('01')

    def __init__(self, width, p):
        self.width = self.least = width
        self.p = P(p)

    def key(self):
        return ('bits', self.width, self.p)

    def subst(self, mp):
        return Bits(self.width, T.subst(self.p, mp))

    def fvs(self):
        return self.p.fv

    def cut(self, a, b):
        q = T.floor(self.p / 2 ** (self.width - b))
        if a:
            q = q - 2 ** (b - a) * T.floor(q / 2 ** (b - a))
        return Bits(b - a, q)

    def __repr__(self):
        return '<%d bits %r>' % (self.width, self.p)


class Run(Piece):
    """text of unknown length.  kind: 'int' (numeral of the integer p), 'real' (numeral of p), 'frac' (the digits
    after the point of the fraction p), 'word' (arbitrary text, p is its name)"""

    def __init__(self, kind, p, chars, least=1, lacks=(), first=None, last=None, isnt=(), notnum=False):
        self.kind, self.p, self.chars, self.least = kind, P(p), frozenset(chars), least
        self.lacks = tuple(lacks)       # literals that do not occur in it
        self.ends = (first, last)       # the characters it can begin and end with, if fewer
        self.isnt, self.notnum = tuple(isnt), notnum    # words it is not; it does not spell a number

    @property
    def first(self):
        return self.chars if self.ends[0] is None else self.ends[0]

    @property
    def last(self):
        return self.chars if self.ends[1] is None else self.ends[1]

    def key(self):
        return (self.kind, self.p, self.chars, self.least, self.lacks)

    def copy(self, **kw):
        v = dict(kind=self.kind, p=self.p, chars=self.chars, least=self.least, lacks=self.lacks, first=self.ends[0], last=self.ends[1],
                 isnt=self.isnt, notnum=self.notnum)
        v.update(kw)
        return Run(**v)

    def without(self, chars):
        """the same text, known to hold none of these"""
        cut = lambda q: None if q is None else q - chars
        return self.copy(chars=self.chars - chars, first=cut(self.ends[0]), last=cut(self.ends[1]))

    def part(self, p, chars=None):
        """another text over the same characters, of which nothing else is known"""
        return Run('word', p, self.chars if chars is None else chars, 0, self.lacks if chars is None else ())

    def subst(self, mp):
        return self.copy(p=T.subst(self.p, mp))

    def fvs(self):
        return self.p.fv

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.p)


class Head(Piece):
    """the first character of a run that is not empty"""
    width = least = 1

    def __init__(self, p, chars):
        self.p, self.chars = P(p), frozenset(chars)

    def key(self):
        return ('head', self.p, self.chars)

    def subst(self, mp):
        return Head(T.subst(self.p, mp), self.chars)

    def fvs(self):
        return self.p.fv

    def __repr__(self):
        return '<first of %r>' % (self.p,)


class Choice(Piece):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, tuple(a), tuple(b)
        wa, wb = total_width(self.a), total_width(self.b)
        self.width = wa if wa is not None and wa == wb else None
        self.least = min(sum(least(x) for x in self.a), sum(least(x) for x in self.b))
        self.chars = charset(self.a) | charset(self.b)

    def key(self):
        return ('choice', self.c, self.a, self.b)

    def subst(self, mp):
        c = T.subst(self.c, mp)
        return Choice(c, sub_pieces(self.a, mp), sub_pieces(self.b, mp))

    def fvs(self):
        return self.c.fv | fv_pieces(self.a) | fv_pieces(self.b)

    def __repr__(self):
        return '<%r ? %r : %r>' % (self.c, self.a, self.b)


class Fields(Piece):
    """m >= 1 comma-separated fields of any text over chars, not beginning or ending with a blank, not all empty"""
    width, least = None, 1
    kind = 'fields'

    def __init__(self, p, m, chars):
        self.p, self.m, self.inner = P(p), P(m), frozenset(chars) - {','}
        self.chars = self.inner | {','}

    @property
    def first(self):
        return self.chars - SPACE

    last = first

    def key(self):
        return (self.p, self.m, self.chars)

    def subst(self, mp):
        return Fields(T.subst(self.p, mp), T.subst(self.m, mp), self.chars)

    def fvs(self):
        return self.p.fv | self.m.fv

    def items(self, I, pre=(), post=()):
        return I.new_symlist(self.m, lambda i: mk((Choice(eq(P(i), 0), pre, ()), Run('word', fn('field', self.p, P(i), sort='i'), self.inner, 0),
                                                   Choice(eq(P(i), self.m - 1), post, ()))))

    def __repr__(self):
        return '<%r fields %r>' % (self.m, self.p)


def IntRun(p, neg=False):
    return Run('int', p, DIGITS | (frozenset('-') if neg else frozenset()))


def Real(p, neg=True):
    return Run('real', p, DIGITS | frozenset('.') | (frozenset('-') if neg else frozenset()))


def Frac(p):
    return Run('frac', p, DIGITS)


def Word(p, chars=LETTERS, least=1):
    return Run('word', p, chars, least)


def least(x):
    return len(x) if isinstance(x, str) else x.least


def width(x):
    return len(x) if isinstance(x, str) else x.width


def chars_of(x):
    return frozenset(x) if isinstance(x, str) else x.chars


def total_width(ps):
    n = 0
    for x in ps:
        w = width(x)
        if w is None:
            return None
        n += w
    return n


def charset(ps):
    out = frozenset()
    for x in ps:
        out |= chars_of(x)
    return out


def sub_pieces(ps, mp):
    return tuple(x if isinstance(x, str) else x.subst(mp) for x in ps)


def fv_pieces(ps):
    out = frozenset()
    for x in ps:
        if not isinstance(x, str):
            out |= x.fvs()
    return out


def norm(ps):
    out = []
    for x in ps:
        if isinstance(x, SStr):
            items = x.ps
        else:
            items = (x,)
        for y in items:
            if isinstance(y, Choice):
                if y.c is TRUE:
                    z = norm(y.a)
                elif y.c is FALSE:
                    z = norm(y.b)
                elif y.a == y.b:
                    z = norm(y.a)
                else:
                    z = (y,)
            elif not isinstance(y, str) and y.width == 0:
                z = ()
            elif isinstance(y, Dig) and y.p.is_const:
                z = ('%0*d' % (y.width, int(y.p.const)),)
            elif isinstance(y, Bits) and y.p.is_const:
                z = (format(int(y.p.const), '0%db' % y.width),)
            else:
                z = (y,)
            for w in z:
                if isinstance(w, str):
                    if not w:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += w
                        continue
                out.append(w)
    return tuple(out)


def mk(ps):
    ps = norm(ps)
    if not ps:
        return ''
    if len(ps) == 1 and isinstance(ps[0], str):
        return ps[0]
    return SStr(ps)


def pieces(v):
    if isinstance(v, str):
        return (v,) if v else ()
    if isinstance(v, SStr):
        return v.ps
    raise Unsupported('string expected: %r' % (v,))


def is_string(v):
    return isinstance(v, (str, SStr))


def resolve(I, ps):
    """pieces without choices on this path (forks when undecided)"""
    out = []
    for x in ps:
        if isinstance(x, Choice):
            out.extend(resolve(I, x.a if I.decide(x.c) else x.b))
        else:
            out.append(x)
    return norm(out)


def expand(ps):
    """list of (condition, choice-free pieces)"""
    alts = [(TRUE, ())]
    for x in ps:
        if isinstance(x, Choice):
            new = []
            for c, pre in alts:
                for d, q in expand(x.a):
                    new.append((and_(c, x.c, d), pre + q))
                for d, q in expand(x.b):
                    new.append((and_(c, not_(x.c), d), pre + q))
            alts = new
        else:
            alts = [(c, pre + (x,)) for c, pre in alts]
    return [(c, norm(q)) for c, q in alts if c is not FALSE]


# ---------------------------------------------------------------- cells: one per character, or one per run

class Cell:
    __slots__ = ('chars', 'run', 'src', 'off', 'least', 'lacks', 'first', 'last')

    def __init__(self, chars, run, src, off, least=1, lacks=(), first=None, last=None):
        self.chars, self.run, self.src, self.off, self.least, self.lacks = chars, run, src, off, least, lacks
        self.first, self.last = chars if first is None else first, chars if last is None else last


def cells(ps):
    out = []
    for n, x in enumerate(ps):
        if isinstance(x, str):
            for j, ch in enumerate(x):
                out.append(Cell(frozenset(ch), False, n, j))
        elif x.width is not None:
            for j in range(x.width):
                out.append(Cell(x.chars, False, n, j))
        else:
            out.append(Cell(x.chars, True, n, 0, x.least, getattr(x, 'lacks', ()), x.first, x.last))
    return out


def may_contain(ps, lit):
    """can the literal occur?  'no' / 'yes' (certain) / 'maybe'"""
    for x in ps:
        if isinstance(x, str) and lit in x:
            return 'yes'
    cs = cells(ps)
    for c in range(len(cs)):
        if reach(cs, c, lit):
            return 'maybe'
    return 'no'


def reach(cs, ci, lit):
    """can the literal be read starting at a character of cell ci?"""
    todo = [(ci, 0, False)]
    seen = set()
    free = any(x in lit for x in cs[ci].lacks)     # then not wholly inside cell ci
    while todo:
        c, q, new = todo.pop()
        if (c, q, new) in seen:
            continue
        seen.add((c, q, new))
        if q == len(lit):
            if free and c == ci:
                continue
            return True
        if c >= len(cs):
            continue
        cell = cs[c]
        if lit[q] in (cell.first if new else cell.chars):
            if not (free and c == ci and q + 1 == len(lit)) and (q + 1 == len(lit) or lit[q] in cell.last):
                todo.append((c + 1, q + 1, True))
            if cell.run:
                todo.append((c, q + 1, False))
        if cell.run and cell.least == 0 and c != ci and new:
            todo.append((c + 1, q, True))
    return False


def contains_lit(ps, lit):
    if not lit:
        return TRUE
    # a choice whose text cannot take part is left alone
    r = may_contain(ps, lit)
    if r != 'maybe':
        return TRUE if r == 'yes' else FALSE
    for k, x in enumerate(ps):
        if isinstance(x, Choice):
            a, b = [norm(ps[:k] + br + ps[k + 1:]) for br in (x.a, x.b)]
            return or_(and_(x.c, contains_lit(a, lit)), and_(not_(x.c), contains_lit(b, lit)))
    out = FALSE
    for c, q in expand(ps):
        r = may_contain(q, lit)
        if r == 'maybe':
            # decided by a single run of text on its own?
            ws = [x for x in q if not isinstance(x, str) and x.width is None and may_contain((x,), lit) == 'maybe']
            rest = [x for x in q]
            if len(ws) == 1 and all(may_contain(tuple(rest[:i] + [_blank(x)] + rest[i + 1:]), lit) == 'no'
                                    for i, x in enumerate(rest) if x is ws[0]):
                w = ws[0]
                out = or_(out, and_(c, T.pred('has', w.p, _tag(lit))))
                continue
            raise Unsupported('%r may occur in %r' % (lit, q))
        if r == 'yes':
            out = or_(out, c)
    return out


def _blank(x):
    return '\x00'


def _tag(lit):
    return lit


class SStr:
    is_str = True

    def __init__(self, ps):
        self.ps = ps

    def __repr__(self):
        return 'SStr' + repr(list(self.ps))

    # -- engine hooks
    def subst(self, mp):
        return mk(sub_pieces(self.ps, mp))

    def fvs(self):
        return fv_pieces(self.ps)

    def merge(self, c, o):
        if is_string(o):
            return merge_str(c, self, o)
        return None

    def truth(self, I):
        if sum(least(x) for x in self.ps) > 0:
            return True
        return mk_bool(not_(eq_lit(self.ps, '')))

    def length(self, I):
        w = total_width(self.ps)
        if w is not None:
            return num(w)
        n = ZERO
        for x in self.ps:
            n = n + (num(width(x)) if width(x) is not None else fn('len', x.p if isinstance(x, Run) else _nolen(),
                                                                  sort='i', nonneg=True))
        return n

    def iterate(self, I):
        ps = resolve(I, self.ps)
        w = total_width(ps)
        if w is None:
            raise Unsupported('iteration over text of unknown length')
        s = mk(ps)
        return [slice_(I, s, k, k + 1) for k in range(w)]

    def binop(self, I, op, o, refl):
        if op == 'Add' and is_string(o):
            return mk((o, self)) if refl else mk((self, o))
        if op == 'Mod' and not refl:
            raise Unsupported('formatting with a symbolic template')
        return None

    def compare(self, I, op, o, refl):
        if op in ('Eq', 'NotEq'):
            if not is_string(o):
                if isinstance(o, (ArrRef, ObjRef)):
                    return None
                return op == 'NotEq'
            c = equal(self, o)
            return mk_bool(c if op == 'Eq' else not_(c))
        if op in ('Lt', 'LtE', 'Gt', 'GtE'):
            raise Unsupported('ordering of symbolic text')
        return None

    def contains(self, I, x):
        if isinstance(x, str):
            return mk_bool(contains_lit(self.ps, x))
        raise Unsupported('symbolic substring')

    def in_str(self, I, container):
        c = FALSE
        for d, q in expand(self.ps):
            w = total_width(q)
            if len(q) > 1 or w is None:
                raise Unsupported('symbolic substring')
            for k in range(len(container) - w + 1):
                c = or_(c, and_(d, eq_lit(q, container[k:k + w])))
        return mk_bool(c)

    def getitem(self, I, idx):
        if isinstance(idx, SliceVal):
            f = lambda x: None if x is None else int(const_of(I, x))
            if idx.step is not None and f(idx.step) != 1:
                raise Unsupported('stepped slice of symbolic text')
            try:
                return slice_(I, self, f(idx.lo), f(idx.hi))
            except Unsupported:
                if f(idx.lo) in (None, 0) and f(idx.hi) is not None and f(idx.hi) > 0:
                    return Start(self, f(idx.hi))
                raise
        k = int(const_of(I, idx))
        r = slice_(I, self, k, k + 1 if k != -1 else None)
        if isinstance(r, str) and len(r) != 1:
            raise PyRaise('IndexError', 'string index out of range')
        return r

    def getattr(self, I, name):
        f = METHODS.get(name)
        if f is None:
            from .builtins_model import STR_METHODS
            if name in STR_METHODS:
                raise Unsupported('str.%s of symbolic text' % name)
            raise PyRaise('AttributeError', name)
        return Builtin('str.' + name, lambda I2, a, k: f(I2, self, *a, **k))

    def to_int(self, I):
        return to_int(I, self)

    def to_float(self, I):
        return to_float(I, self)

    def format_(self, I, spec):
        if spec == '' or spec is None:
            return self
        raise Unsupported('format of symbolic text')

    def typeval(self):
        from .builtins_model import BUILTINS
        return BUILTINS['str']


def _nolen():
    raise Unsupported('length of symbolic text')


def const_of(I, v):
    p = I.poly(v)
    if not p.is_const:
        p = prover.simp(p, I.pc)
    if not p.is_const:
        raise Unsupported('symbolic index into text')
    return p.const


def merge_str(c, a, b):
    """text that is a under c, else b; shares the common ends"""
    x, y = list(pieces(a)), list(pieces(b))
    pre, post = [], []
    while x and y and x[0] == y[0]:
        pre.append(x.pop(0))
        y.pop(0)
    while x and y and x[-1] == y[-1]:
        post.insert(0, x.pop())
        y.pop()
    return mk(tuple(pre) + (Choice(c, x, y),) + tuple(post))


# ---------------------------------------------------------------- equality

def eq_lit(ps, s):
    """condition under which the pieces spell the literal"""
    if not ps:
        return TRUE if s == '' else FALSE
    x, rest = ps[0], ps[1:]
    if isinstance(x, str):
        return eq_lit(rest, s[len(x):]) if s.startswith(x) else FALSE
    if isinstance(x, Choice):
        return or_(and_(x.c, eq_lit(x.a + rest, s)), and_(not_(x.c), eq_lit(x.b + rest, s)))
    if sum(least(y) for y in ps) > len(s):
        return FALSE
    if x.width is not None:
        t = s[:x.width]
        if not set(t) <= x.chars:
            return FALSE
        if isinstance(x, Head):
            return and_(TRUE if x.chars == {t} else T.pred('starts', x.p, t), eq_lit(rest, s[1:]))
        base = 2 if isinstance(x, Bits) else 10
        return and_(eq(x.p, int(t, base)), eq_lit(rest, s[x.width:]))
    # a run
    out = FALSE
    n = 0
    for k in range(x.least, len(s) + 1):
        if not set(s[:k]) <= x.chars:
            break
        r = eq_lit(rest, s[k:])
        if r is FALSE:
            continue
        t = s[:k]
        out = or_(out, and_(run_is(x, t), r))
        n += 1
    if n > 1:
        raise Unsupported('ambiguous comparison with %r' % s)
    return out


def run_is(x, t):
    if t in x.isnt or any(q in t for q in x.lacks) or (t and (t[0] not in x.first or t[-1] not in x.last)):
        return FALSE
    if x.kind == 'int':
        try:
            int(t)
        except ValueError:
            return FALSE
    if x.kind == 'real':
        try:
            float(t)
        except ValueError:
            return FALSE
    return T.pred('text', x.p, t)


def equal(a, b):
    if isinstance(b, str):
        return eq_lit(pieces(a), b)
    if isinstance(a, str):
        return eq_lit(pieces(b), a)
    if a.ps == b.ps:
        return TRUE
    out = FALSE
    for c, x in expand(a.ps):
        for d, y in expand(b.ps):
            e = and_(c, d)
            if e is FALSE:
                continue
            out = or_(out, and_(e, _eq_flat(list(x), list(y))))
    return out


def _eq_flat(x, y):
    if not x or not y:
        return eq_lit(tuple(x or y), '')
    if all(isinstance(q, str) for q in x):
        return eq_lit(tuple(y), ''.join(x))
    if all(isinstance(q, str) for q in y):
        return eq_lit(tuple(x), ''.join(y))
    a, b = x[0], y[0]
    if a == b:
        return _eq_flat(x[1:], y[1:])
    if isinstance(a, str) and isinstance(b, str):
        k = min(len(a), len(b))
        if a[:k] != b[:k]:
            return FALSE
        return _eq_flat([q for q in [a[k:]] if q] + x[1:], [q for q in [b[k:]] if q] + y[1:])
    if not isinstance(a, str) and not isinstance(b, str) and type(a) is type(b):
        if a.width is not None and a.width == b.width:
            return and_(eq(a.p, b.p), _eq_flat(x[1:], y[1:]))
        if isinstance(a, Run) and len(x) == len(y) == 1:
            return T.pred('same_text', a.p, b.p) if not (a.chars.isdisjoint(b.chars) and min(a.least, b.least) > 0) else FALSE
    ca, cb = cells(x), cells(y)
    if ca[0].chars.isdisjoint(cb[0].chars) and ca[0].least > 0 and cb[0].least > 0:
        return FALSE
    raise Unsupported('comparison of %r and %r' % (x, y))


# ---------------------------------------------------------------- slicing

def slice_(I, s, lo, hi):
    if isinstance(s, str):
        return s[lo:hi]
    ps = s.ps
    if lo is None:
        lo = 0
    if hi is not None and hi == lo and lo >= 0:
        return ''
    w = total_width(ps)
    if lo < 0 or (hi is not None and hi < 0):
        ps2 = resolve(I, ps) if w is None else ps
        w = total_width(ps2)
        if w is None:
            return slice_from_right(ps2, lo, hi)
        ps = ps2
        if lo < 0:
            lo = max(0, w + lo)
        if hi is not None and hi < 0:
            hi = max(0, w + hi)
        if hi is not None and hi <= lo:
            return ''
    out = []
    pos = 0
    todo = list(ps)
    while todo:
        if hi is not None and pos >= hi:
            break
        x = todo.pop(0)
        n = width(x)
        if n is None:
            if pos >= lo and hi is None:
                out.append(x)
                out.extend(todo)
                break
            if isinstance(x, Choice):
                todo = list(resolve(I, (x,))) + todo
                continue
            d = fixed_width(I, x)
            if d is not None:
                todo = [d] + todo
                continue
            if pos == lo and hi == lo + 1 and isinstance(x, Run):
                if x.least == 0:
                    c = run_is(x, '')
                    if c is not FALSE and I.decide(c):
                        continue
                out.append(Head(x.p, x.first))
                break
            raise Unsupported('slice inside text of unknown length %r' % (x,))
        a, b = max(lo - pos, 0), n if hi is None else min(hi - pos, n)
        if a < b:
            if a == 0 and b == n:
                out.append(x)
            elif isinstance(x, str):
                out.append(x[a:b])
            elif isinstance(x, Choice):
                todo = list(resolve(I, (x,))) + todo
                continue
            else:
                out.append(x.cut(a, b))
        pos += n
    return mk(out)


def slice_from_right(ps, lo, hi):
    """slices counted from the end of text of unknown length"""
    def cut_end(ps, k):
        ps = list(ps)
        while k and ps:
            x = ps[-1]
            n = width(x)
            if n is None:
                raise Unsupported('slice inside text of unknown length')
            if n <= k:
                ps.pop()
                k -= n
            else:
                ps[-1] = x[:n - k] if isinstance(x, str) else x.cut(0, n - k)
                k = 0
        return ps

    def keep_end(ps, k):
        out = []
        ps = list(ps)
        while k and ps:
            x = ps.pop()
            n = width(x)
            if n is None:
                raise Unsupported('slice inside text of unknown length')
            if n <= k:
                out.insert(0, x)
                k -= n
            else:
                out.insert(0, x[n - k:] if isinstance(x, str) else x.cut(n - k, n))
                k = 0
        return out
    if lo == 0 and hi is not None and hi < 0:
        return mk(cut_end(ps, -hi))
    if lo < 0 and hi is None:
        return mk(keep_end(ps, -lo))
    if lo < 0 and hi < 0:
        return mk(keep_end(cut_end(ps, -hi), -lo + hi)) if lo < hi else ''
    if lo > 0 and hi is not None and hi < 0:
        raise Unsupported('slice of text of unknown length')
    raise Unsupported('slice of text of unknown length')


# ---------------------------------------------------------------- methods

def lits(I, v):
    if isinstance(v, str):
        return v
    raise Unsupported('symbolic string argument')


def touch(I, ps, bad):
    """resolve the choices whose text satisfies bad()"""
    out = []
    for x in ps:
        if isinstance(x, Choice) and bad(x):
            out.extend(touch(I, norm(x.a if I.decide(x.c) else x.b), bad))
        else:
            out.append(x)
    return norm(out)


def split(I, s, sep=None, maxsplit=-1, **kw):
    if 'sep' in kw:
        sep = kw['sep']
    mx = int(I.poly(kw['maxsplit'] if 'maxsplit' in kw else maxsplit).const)
    if sep is None:
        return I.new_list(split_ws(I, s.ps, mx))
    sep = lits(I, sep)
    if not sep:
        raise PyRaise('ValueError', 'empty separator')
    ps = touch(I, s.ps, lambda x: not chars_of(x).isdisjoint(sep))
    if sep == ',' and mx < 0 and sum(isinstance(x, Fields) for x in ps) == 1 and \
            all(isinstance(x, Fields) or ',' not in chars_of(x) for x in ps):
        k = next(i for i, x in enumerate(ps) if isinstance(x, Fields))
        return ps[k].items(I, ps[:k], ps[k + 1:])
    parts, cur = [], []
    done = 0
    # the separator may lie only inside literal text
    for x in ps:
        if isinstance(x, str):
            while sep in x and (mx < 0 or done < mx):
                a, x = x.split(sep, 1)
                parts.append(cur + [a])
                cur = []
                done += 1
        elif not x.chars.isdisjoint(sep) and (mx < 0 or done < mx) and may_contain((x,), sep) != 'no':
            if not (isinstance(x, Run) and x.kind == 'word' and len(sep) == 1):
                raise Unsupported('%r may occur in %r' % (sep, x))
            if done and mx < 0:
                # the parts so far are known, the others and their number are not
                return some_items(I, [mk(q) for q in parts], fn('nsep', num(lit_no(sep)), *[y.p for y in ps if hasattr(y, 'p')], sort='i', nonneg=True))
            if not I.decide(T.pred('has', x.p, _tag(sep))):
                x = x.without(frozenset(sep))
            else:
                here = part_of('upto', x, sep, x.chars - frozenset(sep))
                parts.append(cur + [here])
                if mx != 1:
                    return some_items(I, [mk(q) for q in parts], 1 + fn('nsep', num(lit_no(sep)), *[y.p for y in ps if hasattr(y, 'p')], sort='i', nonneg=True))
                done, cur, x = 1, [], part_of('after', x, sep, x.chars)
        cur.append(x)
    parts.append(cur)
    if len(sep) > 1:
        # no occurrence may straddle two pieces
        for q in (parts if mx < 0 else parts[:-1]):
            if may_contain(norm(q), sep) != 'no':
                raise Unsupported('%r may occur in %r' % (sep, q))
    return I.new_list([mk(q) for q in parts])


def lit_no(*texts):
    """a number that names the texts"""
    return int(hashlib.md5('\0'.join(texts).encode()).hexdigest()[:12], 16)


def part_of(what, x, sep, chars):
    return Run('word', fn(what, x.p, num(lit_no(sep)), sort='i'), chars, 0)


def some_items(I, known, more):
    """a list of which only the first items are known"""
    def at(i):
        if i.is_const and 0 <= i.const < len(known):
            return known[int(i.const)]
        raise Unsupported('a part of arbitrary text')
    return I.new_symlist(len(known) + more, at)


def split_ws(I, ps, mx):
    ps = touch(I, ps, lambda x: not chars_of(x).isdisjoint(SPACE) or x.least == 0)
    parts, cur = [], []
    ps = list(ps)
    k = 0
    while k < len(ps):
        x = ps[k]
        if isinstance(x, str):
            j = 0
            while j < len(x):
                if x[j] in SPACE:
                    if cur:
                        parts.append(cur)
                        cur = []
                    j += 1
                    continue
                if not cur and mx >= 0 and len(parts) == mx:
                    return [mk(q) for q in parts] + [mk([x[j:]] + ps[k + 1:])]
                e = j
                while e < len(x) and x[e] not in SPACE:
                    e += 1
                cur.append(x[j:e])
                j = e
        elif x.chars <= SPACE and not cur:
            pass
        elif x.chars <= SPACE and x.least > 0:
            parts.append(cur)
            cur = []
        else:
            if not cur and mx >= 0 and len(parts) == mx:
                if x.least == 0 or not x.first.isdisjoint(SPACE):
                    raise Unsupported('whitespace may begin %r' % (x,))
                return [mk(q) for q in parts] + [mk(ps[k:])]
            if not x.chars.isdisjoint(SPACE) or (x.least == 0 and not cur):
                raise Unsupported('whitespace may occur in %r' % (x,))
            cur.append(x)
        k += 1
    if cur:
        parts.append(cur)
    return [mk(q) for q in parts]


def _beyond(rest, cs, left):
    """what lies behind possibly empty text cannot be stripped either"""
    for x in rest:
        if isinstance(x, str):
            return x[0 if left else -1] not in cs
        if not x.chars.isdisjoint(cs):
            return False
        if x.least > 0:
            return True
    return True


def _stops(x, cs, left):
    if isinstance(x, str):
        return x[0 if left else -1] not in cs
    return x.least > 0 and (x.first if left else x.last).isdisjoint(cs)


def _one_of(I, x):
    """decide one choice, leaving the choices inside it open"""
    return list(x.a if I.decide(x.c) else x.b)


def _strip_side(I, s, cs, left):
    cs = SPACE if cs is None else frozenset(cs)
    ps = list(pieces(s))
    while ps:
        k = 0 if left else -1
        x = ps[k]
        if isinstance(x, str):
            y = x.lstrip(''.join(cs)) if left else x.rstrip(''.join(cs))
            if y:
                ps[k] = y
                break
            del ps[k]
            continue
        if x.least > 0 and (x.first if left else x.last).isdisjoint(cs):
            break
        if x.chars <= cs:
            del ps[k]
            continue
        if x.chars.isdisjoint(cs):
            if isinstance(x, Choice):
                if not _beyond(ps[1:] if left else ps[-2::-1], cs, left):
                    ps[k:k + 1 or None] = _one_of(I, x)
                    continue
                break
            rest = ps[1:] if left else ps[:-1]
            if rest and not chars_of(rest[0 if left else -1]).isdisjoint(cs):
                raise Unsupported('strip of possibly empty text')
            break
        if isinstance(x, Choice):
            ps[k:k + 1 or None] = _one_of(I, x)
            continue
        if set(x.chars) <= cs:
            del ps[k]
            continue
        if isinstance(x, Run) and x.kind == 'word' and (len(ps) == 1 or _stops(ps[1] if left else ps[-2], cs, left)):
            ps[k] = Run('word', fn('strip', x.p, fn('num', num(0 if left else 1)), sort='i'), x.chars, 0, x.lacks)
            break
        raise Unsupported('strip: %r may begin or end with one of %r' % (x, ''.join(sorted(cs))))
    return mk(ps)


def lstrip_(I, s, cs=None):
    return _strip_side(I, s, cs, True)


def rstrip_(I, s, cs=None):
    return _strip_side(I, s, cs, False)


def strip_(I, s, cs=None):
    return rstrip_(I, lstrip_(I, s, cs), cs)


class Start:
    """text[:n], cut inside text of unknown length: it can only be compared with literal text"""

    def __init__(self, s, n):
        self.s, self.n = s, n

    def compare(self, I, op, y, refl):
        if op not in ('Eq', 'NotEq') or not isinstance(y, str) or len(y) != self.n:
            raise Unsupported('slice inside text of unknown length')
        r = I.truth(starts(I, self.s, y))
        return r if op == 'Eq' else (not r) if isinstance(r, bool) else mk_bool(T.not_(I.cond(r)))


def starts(I, s, pre, *a):
    if a:
        raise Unsupported('startswith offsets')
    if isinstance(pre, tuple):
        c = FALSE
        for q in pre:
            c = or_(c, I.cond(starts(I, s, q)))
        return mk_bool(c)
    return mk_bool(_starts(pieces(s), lits(I, pre)))


def _starts(ps, pre):
    if not pre:
        return TRUE
    if not ps:
        return FALSE
    x, rest = ps[0], ps[1:]
    if isinstance(x, str):
        k = min(len(x), len(pre))
        return _starts(rest, pre[k:]) if x[:k] == pre[:k] else FALSE
    if isinstance(x, Choice):
        return or_(and_(x.c, _starts(x.a + rest, pre)), and_(not_(x.c), _starts(x.b + rest, pre)))
    if x.width is not None:
        k = min(x.width, len(pre))
        if not set(pre[:k]) <= x.chars:
            return FALSE
        head = x if k == x.width else x.cut(0, k)
        return and_(eq_lit((head,), pre[:k]), _starts(rest, pre[k:]))
    if x.least > 0 and pre[0] not in x.first:
        return FALSE
    if x.least == 0 and pre[0] not in x.chars:
        return and_(run_is(x, ''), _starts(rest, pre)) if _starts(rest, pre) is not FALSE else FALSE
    if x.kind == 'int' and len(pre) == 1 and pre in '123456789' and CUR[0] is not None:
        d = leading_digit(x.p, int(pre), CUR[0].pc)
        if d is not None:
            return TRUE if d else FALSE
    if x.least > 0 and len(pre) == 1:
        return T.pred('starts', x.p, pre)
    # a run that must stop before some character of the prefix
    for k in range(x.least, len(pre) + 1):
        if k < len(pre) and pre[k] not in x.chars:
            r = _starts(rest, pre[k:])
            if r is FALSE:
                return FALSE
            break
    return T.pred('starts', x.p, pre)


def fixed_width(I, x):
    """the numeral of an integer known to have so many digits"""
    if x.kind == 'int':
        for w in range(0, 18):
            if prover.prove(I.pc, and_(le(10 ** w, x.p), lt(x.p, 10 ** (w + 1)))):
                return Dig(w + 1, x.p)
    return None


def leading_digit(p, d, pc):
    """is d the first digit of the positive integer p?  None when that is not settled"""
    for w in range(0, 18):
        if prover.prove(pc, and_(le(10 ** w, p), lt(p, 10 ** (w + 1)))):
            return prover.decide(pc, and_(le(d * 10 ** w, p), lt(p, (d + 1) * 10 ** w)))
    return None


def ends(I, s, suf):
    ps = resolve(I, pieces(s))
    suf = lits(I, suf)
    last = ps[-1] if ps else ''
    if isinstance(last, str) and len(last) >= len(suf):
        return last.endswith(suf)
    if not suf:
        return True
    if suf[-1] not in chars_of(last) and least(last) > 0:
        return False
    raise Unsupported('endswith of symbolic text')


def replace_(I, s, old, new, count=None):
    old = lits(I, old)
    if not is_string(new):
        raise PyRaise('TypeError', 'replace() argument 2 must be str')
    count = -1 if count is None else int(const_of(I, count))
    if count not in (-1, 1) or not old:
        raise Unsupported('replace count')
    if count == 1:
        ps = touch(I, pieces(s), lambda x: may_contain((x,), old) != 'no')
        for i, x in enumerate(ps):
            if isinstance(x, str) and old in x:
                k = x.index(old)
                head = norm(ps[:i] + (x[:k],))
                if may_contain(head + (x[k:k + len(old) - 1],), old) != 'no':
                    raise Unsupported('%r may occur in %r' % (old, head))
                return mk(head + (new, x[k + len(old):]) + tuple(ps[i + 1:]))
        if may_contain(ps, old) == 'no':
            return mk(ps)
        raise Unsupported('%r may occur in %r' % (old, ps))
    out = []
    ps = touch(I, pieces(s), lambda x: not chars_of(x).isdisjoint(old))
    tail = ()
    x = ps[-1] if ps else ''
    if isinstance(x, Run) and x.kind == 'word' and isinstance(new, str) and may_contain((x,), old) != 'no':
        # arbitrary text at the end: so is what becomes of it
        cs = cells(ps)
        if any(reach(cs, c, old) for c in range(len(cs) - 1)
               if not (isinstance(ps[cs[c].src], str) and ps[cs[c].src].startswith(old, cs[c].off))):
            raise Unsupported('%r may occur across pieces' % (old,))
        tail = (Run('word', fn('replaced', x.p, num(lit_no(old, new)), sort='i'), x.chars | frozenset(new), 0),)
        ps = ps[:-1]
    for x in ps:
        if isinstance(x, str):
            q = x.split(old)
            for i, y in enumerate(q):
                if i:
                    out.append(new)
                out.append(y)
        elif len(old) == 1 and isinstance(x, Run) and x.kind == 'word' and old in x.chars and isinstance(new, str):
            out.append(char_replaced(x, old, new))
        else:
            if may_contain((x,), old) != 'no':
                raise Unsupported('%r may occur in %r' % (old, x))
            out.append(x)
    if len(old) > 1:
        q = tuple(y.replace(old, '\x00') if isinstance(y, str) else y for y in ps)
        if may_contain(q, old) != 'no':
            raise Unsupported('%r may occur across pieces' % (old,))
    return mk(tuple(out) + tail)


def char_replaced(x, c, new):
    """the text x with every character c replaced"""
    turn = lambda q, e: None if q is None or not new else (q - {c}) | ({new[e]} if c in q else frozenset())
    return Run('word', fn('replaced', x.p, num(lit_no(c, new)), sort='i'), (x.chars - {c}) | frozenset(new), x.least if new else 0, (),
               turn(x.first, 0), turn(x.last, -1))


def case_(f):
    def g(I, s):
        out = []
        for x in pieces(s):
            if isinstance(x, str):
                out.append(f(x))
            elif x.chars.isdisjoint(LETTERS):
                out.append(x)
            elif isinstance(x, Choice):
                out.append(Choice(x.c, pieces(g(I, mk(x.a))), pieces(g(I, mk(x.b)))))
            else:
                raise Unsupported('case change of symbolic text')
        return mk(out)
    return g


def isdigit_(I, s):
    if all(chars_of(x) <= DIGITS for x in pieces(s)) and sum(least(x) for x in pieces(s)) > 0:
        return True
    ps = resolve(I, pieces(s))
    for x in ps:
        if chars_of(x).isdisjoint(DIGITS) and least(x) > 0:
            return False
        if isinstance(x, str) and not x.isdigit():
            return False
    if all(chars_of(x) <= DIGITS for x in ps) and ps:
        return sum(least(x) for x in ps) > 0
    raise Unsupported('isdigit of symbolic text')


def find_(I, s, lit):
    ps = resolve(I, pieces(s))
    lit = lits(I, lit)
    pos = 0
    for k, x in enumerate(ps):
        if isinstance(x, str) and lit in x:
            if may_contain(norm(ps[:k] + (x[:x.index(lit) + len(lit) - 1],)), lit) != 'no':
                raise Unsupported('find')
            return pos + x.index(lit)
        if width(x) is None:
            if may_contain(ps, lit) == 'no':
                return -1
            raise Unsupported('position in text of unknown length')
        pos += width(x)
    if may_contain(ps, lit) == 'no':
        return -1
    raise Unsupported('find')


def partition_(I, s, sep):
    L = I.heap[split(I, s, sep, 1)].items
    if len(L) == 2:
        return (L[0], sep, L[1])
    return (L[0], '', '')


def rsplit_(I, s, sep=None, maxsplit=-1, **kw):
    L = I.heap[split(I, s, sep)].items
    mx = int(I.poly(maxsplit).const)
    if mx >= 0 and len(L) > mx + 1:
        head = [L[0]]
        for x in L[1:len(L) - mx]:
            head += [sep, x]
        return I.new_list([mk(head)] + list(L[len(L) - mx:]))
    return I.new_list(L)


def rpartition_(I, s, sep):
    L = I.heap[rsplit_(I, s, sep, 1)].items
    if len(L) == 2:
        return (L[0], sep, L[1])
    return ('', '', L[0])


def join_m(I, s, seq):
    return join(I, s, seq)


METHODS = {
    'split': split, 'strip': strip_, 'lstrip': lstrip_, 'rstrip': rstrip_, 'startswith': starts, 'endswith': ends,
    'replace': replace_, 'upper': case_(str.upper), 'lower': case_(str.lower), 'isdigit': isdigit_,
    'isnumeric': isdigit_, 'find': find_, 'partition': partition_, 'rpartition': rpartition_, 'rsplit': rsplit_, 'join': join_m,
    'encode': lambda I, s, *a, **k: _bytes(s),
    'index': lambda I, s, x: _index(find_(I, s, x)),
    'zfill': lambda I, s, n: _zfill(I, s, n),
}


def _bytes(s):
    from .filemodel import Bytes
    return Bytes(s)


def _index(k):
    if k == -1:
        raise PyRaise('ValueError', 'substring not found')
    return k


def _zfill(I, s, n):
    w = total_width(pieces(s))
    n = int(I.poly(n).const)
    if w is not None:
        return s if w >= n else mk(('0' * (n - w), s))
    raise Unsupported('zfill')


def join(I, sep, seq):
    items = I.concrete_items(seq)
    if items is None:
        from .docmodel import joined
        return joined(I, sep, seq)
    out = []
    for k, x in enumerate(items):
        if not is_string(x):
            raise PyRaise('TypeError', 'join')
        if k:
            out.append(sep)
        out.append(x)
    return mk(out)


# ---------------------------------------------------------------- numbers

def digits_value(ps):
    """integer spelled by fixed-width digits and literals; None if not"""
    v = ZERO
    for x in ps:
        if isinstance(x, str):
            if not x.isdigit():
                return None
            v = v * 10 ** len(x) + int(x)
        elif isinstance(x, Dig):
            v = v * 10 ** x.width + x.p
        elif isinstance(x, Bits) and x.width == 1:
            v = v * 10 + x.p
        else:
            return None
    return v


def to_int(I, s):
    ps = resolve(I, pieces(strip_(I, s)))
    if not ps:
        raise PyRaise('ValueError', 'int()')
    sign = 1
    if isinstance(ps[0], str) and ps[0][0] in '+-':
        sign = -1 if ps[0][0] == '-' else 1
        ps = norm((ps[0][1:],) + ps[1:])
    if ps and all(isinstance(x, str) for x in ps[:-1]) and isinstance(ps[-1], Run) and ps[-1].kind == 'int':
        if len(ps) == 1:
            return mk_int(sign * ps[-1].p)
        if all(set(x) <= {'0'} for x in ps[:-1]) and ps[-1].chars <= DIGITS:
            return mk_int(sign * ps[-1].p)
    v = digits_value(ps)
    if v is not None and ps:
        return mk_int(sign * v)
    for x in ps:
        if isinstance(x, str) and not set(x) <= DIGITS | {'_'}:
            raise PyRaise('ValueError', 'invalid literal for int()')
        if not isinstance(x, str) and x.chars.isdisjoint(DIGITS) and x.least > 0:
            raise PyRaise('ValueError', 'invalid literal for int()')
    raise Unsupported('int of %r' % (ps,))


def to_float(I, s):
    ps = resolve(I, pieces(strip_(I, s)))
    if not ps:
        raise PyRaise('ValueError', 'could not convert string to float')
    if all(isinstance(x, str) for x in ps):
        from .builtins_model import t_float
        return t_float(I, [''.join(ps)], {})
    sign = 1
    if isinstance(ps[0], str) and ps[0][0] in '+-':
        sign = -1 if ps[0][0] == '-' else 1
        ps = norm((ps[0][1:],) + ps[1:])
    v = float_value(ps)
    if v is not None:
        return mk_float(sign * v)
    for x in ps:
        if isinstance(x, str) and not set(x) <= NUMERAL | frozenset('_infatyINFATY'):
            raise PyRaise('ValueError', 'could not convert string to float')
    c = not_float(ps)
    if c is not None:
        if I.decide(c):
            raise PyRaise('ValueError', 'could not convert string to float')
        # the text happens to be a numeral
        return mk_float(fn('numeral', *[x.p for x in ps if isinstance(x, Run)]))
    raise Unsupported('float of %r' % (ps,))


def not_float(ps):
    """condition under which a text with arbitrary runs is not a numeral"""
    ws = [x for x in ps if isinstance(x, Run) and x.kind == 'word']
    if not ws:
        return None
    for x in ws:
        if x.notnum and len(ps) == 1:
            return TRUE
        if x.chars.isdisjoint(NUMERAL) and x.least > 0 and x.chars.isdisjoint(frozenset('infatyINFATY_')):
            return TRUE
    return not_(T.pred('is_numeral', *[x.p for x in ws]))


def float_value(ps):
    if len(ps) == 1 and isinstance(ps[0], Run) and ps[0].kind in ('real', 'int'):
        return ps[0].p
    v = ZERO
    k = 0
    seen = False
    while k < len(ps):
        x = ps[k]
        if isinstance(x, str):
            for j, ch in enumerate(x):
                if ch == '.':
                    rest = norm((x[j + 1:],) + tuple(ps[k + 1:]))
                    f = frac_value(rest)
                    return None if f is None or not (seen or rest) else v + f
                if ch not in DIGITS:
                    return None
                v = v * 10 + int(ch)
                seen = True
        elif isinstance(x, Dig):
            v = v * 10 ** x.width + x.p
            seen = True
        elif isinstance(x, Run) and x.kind == 'int' and x.chars <= DIGITS and (v.is_zero):
            v = x.p
            seen = True
        else:
            return None
        k += 1
    return v if seen else None


def frac_value(ps):
    """value of the digits after a point"""
    v, scale = ZERO, Fraction(1)
    for k, x in enumerate(ps):
        if isinstance(x, str):
            if not x.isdigit():
                return None
            scale = scale / 10 ** len(x)
            v = v + int(x) * scale
        elif isinstance(x, Dig):
            scale = scale / 10 ** x.width
            v = v + x.p * scale
        elif isinstance(x, Run) and x.kind == 'frac' and k == len(ps) - 1:
            return v + x.p * scale
        else:
            return None
    return v


# ---------------------------------------------------------------- formatting

def in_range(I, p, lo, hi):
    return prover.decide(I.pc, and_(le(lo, p), lt(p, hi))) is True or \
        (prover.prove(I.pc, le(lo, p)) and prover.prove(I.pc, lt(p, hi)))


def format_num(I, v, spec):
    p = I.poly(v)
    ty = I.numty(v)
    m = re.fullmatch(r'0?(\d+)?([bd])?', spec)
    if m and ty == 'int':
        w = int(m.group(1) or 0)
        padded = spec.startswith('0')
        if m.group(2) == 'b':
            if w and padded and in_range(I, p, 0, 2 ** w):
                return mk((Bits(w, p),))
            raise Unsupported('binary format of an integer that may not fit %s' % spec)
        if w and padded:
            return padded_digits(I, p, w)
        if not w:
            return mk((IntRun(p, neg=True),)) if not prover.prove(I.pc, le(0, p)) else mk((IntRun(p),))
    return None


def padded_digits(I, p, w):
    if in_range(I, p, 0, 10 ** w):
        return mk((Dig(w, p),))
    raise Unsupported('number that may not fit %d digits' % w)


def percent(I, fmt, vals):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic template')
    out = []
    k = 0
    pos = 0
    for m in re.finditer(r'%(?:(%)|(0?)(\d*)(?:\.(\d+))?([sdif]))', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1):
            out.append('%')
            continue
        if k >= len(vals):
            raise PyRaise('TypeError', 'not enough arguments for format string')
        v = vals[k]
        k += 1
        t = m.group(5)
        if t == 's' and not m.group(3):
            if is_string(v):
                out.append(v)
            elif I.is_number(v):
                from .builtins_model import format_value
                r = format_value(I, v, '')
                if not is_string(r):
                    return None
                out.append(r)
            else:
                return None
        elif t in 'di':
            if not I.is_number(v):
                raise PyRaise('TypeError', '%d format: a number is required')
            p = I.poly(v)
            if I.numty(v) != 'int':
                raise Unsupported('%d of a non-integer')
            w = int(m.group(3) or 0)
            if p.is_const:
                out.append(('%%%s%sd' % (m.group(2), m.group(3))) % int(p.const))
            elif w and m.group(2):
                out.append(padded_digits(I, p, w))
            elif not w:
                out.append(format_num(I, v, 'd'))
            else:
                return None
        else:
            return None
    if '%' in re.sub(r'%(?:(%)|(0?)(\d*)(?:\.(\d+))?([sdif]))', '', fmt):
        return None
    out.append(fmt[pos:])
    if k != len(vals):
        raise PyRaise('TypeError', 'not all arguments converted during string formatting')
    return mk(out)
