"""Conversion of meter configurations: line by line the same sections, keys and values, as valid TOML.

The input is any number of lines, each of one of the kinds below, its names, numbers, quoted, bare and comment texts
arbitrary.  The output file must have a line for every line of the input (an empty last line may go), of the same kind,
with the same key and the value as TOML writes it, whatever else the file holds."""
from .fmtlib import *
from engine import docmodel

STEM = num(5)
LINE = S.ALL - frozenset('\n\r\x0b\x0c')
BLANK = frozenset(' \t')
KEY = S.LETTERS | S.DIGITS | frozenset('_-')
NUMBER = S.DIGITS | frozenset('.+-eE_')
WORDS = ('TRUE', 'FALSE', 'true', 'false')
END = ('nothing', '#', '//', 'close //')


def n():
    return fn('nlines', num(0), sort='i', nonneg=True)


def kind(name, j):
    return T.pred('is_' + name, P(j))


def first_of(j, alts, name):
    """nested choice between the texts of alts, by the predicates name0, name1, .."""
    out = tuple(alts[-1])
    for k in range(len(alts) - 2, -1, -1):
        out = (S.Choice(kind('%s%d' % (name, k), j), tuple(alts[k]), out),)
    return out


def word(name, j, chars, least=1, **kw):
    return S.Run('word', fn(name, P(j), sort='i'), chars, least, **kw)


def pad(name, j, least=0):
    return word('pad_' + name, j, BLANK, least)


def tails(j, q, value=None, tight=True):
    """what may follow on the line: blanks, then nothing or a comment"""
    out = [[pad('end' + q, j)], [pad('end' + q, j), '#', word('comment', j, LINE, 0)],
           [pad('end1' + q, j, 1), '//', word('comment', j, LINE, 0)]]
    return out + ([['//', word('comment', j, LINE, 0)]] if tight else [])


NAME = S.LETTERS | S.DIGITS | frozenset('_.-')
BARE = LINE - frozenset('"#\t')


def values(j, dollar):
    """(kind of value, its text, may a comment sign follow at once)"""
    no = frozenset('$') if dollar else frozenset()
    bare = lambda **kw: word('bare', j, BARE - no, lacks=('//',), first=BARE - no - S.SPACE, isnt=WORDS, notnum=True, **kw)
    out = [('word', [w], True) for w in WORDS]
    out.append(('number', [S.Run('real', el('number', j), NUMBER)], True))
    out.append(('quoted', ['"', word('quoted', j, LINE - frozenset('"') - no, 0), '"'], True))
    out.append(('bare', [bare(last=BARE - no - S.SPACE)], False))
    out.append(('bare, comment at once', [bare(last=BARE - no - S.SPACE - frozenset('/')), '//', word('comment', j, LINE, 0)], None))
    return out


def settings(j, dollar):
    out = []
    for q, v, tight in values(j, dollar):
        ends = [[]] if tight is None else tails(j, '', tight=tight)
        out.append(first_of(j, [['$'] * dollar + [word('key', j, KEY), pad('key', j), '=', pad('value', j), *v, *e] for e in ends], 'end'))
    return first_of(j, out, 'value')


def sections(j):
    out = [['[', word('section', j, NAME), ']'], ['["', word('quoted', j, LINE - frozenset('"'), 0), '"]']]
    return first_of(j, [[pad('line', j), *first_of(j, [v + e for e in tails(j, '')], 'end')] for v in out], 'name')


def comments(j):
    return first_of(j, [[pad('line', j), c, word('comment', j, LINE, 0)] for c in ('#', '//')], 'sign')


def line(j):
    return S.mk(first_of(j, [[], [pad('line', j, 1)], comments(j), sections(j), settings(j, 0), settings(j, 1)], 'kind'))


def empty(j):
    return kind('kind0', j)


def path(ext):
    return S.mk((S.Run('word', fn('stem', STEM, sort='i'), S.PRINT, 1, last=S.PRINT - frozenset('/.')), ext))


OUT = docmodel.OutFile(ObjRef())


def files(I, p, mode):
    if S.is_string(p) and p != '' and S.equal(p, path('.ini')) is TRUE and mode in ('r', 'rt'):
        return F.text_file(I, p, mode, docmodel.Lines(n(), line, empty))
    if S.is_string(p) and mode in ('w', 'wt') and S.pieces(p) == S.pieces(path('.toml')):
        I.heap[OUT.ref] = docmodel.OutState()
        return OUT
    I.oblige('opens the input for reading and the output beside it for writing', False, 'open(%r, %r)' % (p, mode))
    raise Unsupported('open(%r, %r)' % (p, mode))


class Reader:
    """the pieces of an output line, from the left"""

    def __init__(self, s, pc):
        self.ps = list(simplify(S.pieces(s), pc))

    def lit(self, t):
        if self.ps and isinstance(self.ps[0], str) and self.ps[0].startswith(t):
            self.ps[0] = self.ps[0][len(t):]
            if not self.ps[0]:
                del self.ps[0]
            return True
        return False

    def blanks(self):
        while self.ps:
            x = self.ps[0]
            if isinstance(x, str):
                y = x.lstrip(' \t')
                self.ps[0] = y
                if y:
                    break
                del self.ps[0]
            elif x.chars <= BLANK:
                del self.ps[0]
            else:
                break
        return True

    def run(self, w):
        x = self.ps[0] if self.ps else None
        if isinstance(x, S.Run) and x.kind == w.kind and x.p == w.p:
            del self.ps[0]
            return True
        return False

    def item(self, w):
        return self.lit(w) if isinstance(w, str) else self.run(w)

    def end(self):
        """nothing more, or blanks, or a comment"""
        self.blanks()
        return not self.ps or (isinstance(self.ps[0], str) and self.ps[0][0] == '#')

    def all(self, ws):
        return all(self.item(w) for w in ws)


def simplify(ps, pc):
    out = []
    for x in ps:
        if isinstance(x, S.Choice):
            d = prover.decide(pc, x.c)
            if d is not None:
                out.extend(simplify(x.a if d else x.b, pc))
                continue
        out.append(x)
    return S.norm(tuple(out))


def resolved(I, x):
    return S.mk(S.resolve(I, simplify(S.pieces(x), I.pc))) if S.is_string(x) else x


def expected(what, v, j):
    """the value as TOML writes it"""
    if what == 'word':
        return [v[0].lower()]
    if what.startswith('bare'):
        return ['"', v[0], '"']
    return v


def is_kind(name, j, k, last):
    """the k-th alternative of first_of"""
    return and_(*[not_(kind('%s%d' % (name, q), j)) for q in range(k)], *([kind('%s%d' % (name, k), j)] if k < last else []))


def check(P_, I, v):
    ok = S.is_string(v) and S.pieces(v) == S.pieces(path('.toml'))
    P_.ob('returns the path of the output', ok, repr(v))
    st = I.heap.get(OUT.ref)
    P_.ob('writes the output', st is not None and not isinstance(st, int), repr(st))
    if isinstance(st, docmodel.Closed):
        st = st.s
    if not isinstance(st, docmodel.OutState):
        raise Broken()
    cnt, at = st.n, st.at
    if st.part != '':
        n1, at1, part = st.n, st.at, st.part
        cnt = n1 + 1
        at = lambda j: at1(j) if I.decide(lt(P(j), n1)) else part
    P_.holds('a line for every line', or_(eq(cnt, n()), and_(eq(cnt, n() - 1), empty(n() - 1))))
    j = var('line', 'i')
    pc0 = I.pc
    base = pc0.extend(le(0, j), lt(j, cnt), lt(j, n()))
    cases = [('empty line', is_kind('kind', j, 0, 5), lambda r: r.blanks() and not r.ps),
             ('blank line', is_kind('kind', j, 1, 5), lambda r: r.blanks() and not r.ps)]
    for k, c in enumerate('#/'):
        cases.append(('comment ' + c, and_(is_kind('kind', j, 2, 5), is_kind('sign', j, k, 1)), lambda r: r.blanks() and bool(r.ps) and r.end()))
    for k, name in enumerate((['[', word('section', j, NAME), ']'], ['["', word('quoted', j, LINE, 0), '"]'])):
        for e in range(4):
            cases.append(('section %d, then %s' % (k, END[e]), and_(is_kind('kind', j, 3, 5), is_kind('name', j, k, 1), is_kind('end', j, e, 3)),
                          lambda r, name=name: r.blanks() and r.all(name) and r.end()))
    for dollar in (0, 1):
        vs = values(j, dollar)
        for k, (what, v, tight) in enumerate(vs):
            ne = 1 if tight is None else 4 if tight else 3
            for e in range(ne):
                cases.append(('%s%s %s, then %s' % ('$' * dollar, what, v[0] if what == 'word' else '', END[e]),
                              and_(is_kind('kind', j, 4 + dollar, 5), is_kind('value', j, k, len(vs) - 1), is_kind('end', j, e, ne - 1)),
                              lambda r, what=what, v=v: r.blanks() and r.run(word('key', j, KEY)) and r.blanks() and r.lit('=') and r.blanks()
                              and r.all(expected(what, v, j)) and r.end()))
    try:
        for tag, c, f in cases:
            I.pc = base.extend(c)
            if prover.contradictory(I.pc):
                P_.ob('case', False, 'the case "%s" is not reached' % tag)
                continue
            for kd, x, pc, st, w in I.explore(lambda: resolved(I, at(j))):
                if prover.contradictory(pc):
                    continue
                if kd != 'normal' or not S.is_string(x):
                    P_.ob(tag, False, repr((kd, x)))
                    continue
                P_.ob(tag, f(Reader(x, pc)), repr(x))
                if ' ' in tag and '[' not in repr(S.pieces(x)[:1]):
                    # not the value of another setting
                    r = Reader(x, pc)
                    P_.C.negative('%s/another number' % tag, r.blanks() and r.run(word('key', j, KEY)) and r.blanks() and r.lit('=') and r.blanks()
                                  and r.run(S.Run('real', el('number', j + 1), NUMBER)))
    finally:
        I.pc = pc0


def run(C):
    def build(I):
        I.files = files
        I.assume(ge(n(), 1))
        I.heap[OUT.ref] = 0
        return [path('.ini')], {}, {'_modifies': (OUT.ref,)}
    C.call('any configuration', 'utils.clean_ini_to_toml', build, lambda P_, I, env, v: check(P_, I, v))
