"""Trusted model of the re module on structured symbolic text.

The pattern (always a literal of the program) is parsed by re itself; matching follows the backtracking order of re over
the cells of the text.  A cell is one character known to lie in a set, or a run of unknown length over a set.  A match is
reported only when every text the cells stand for is matched in the same way, at the same cell boundaries; a failure only
when every such text fails.  Anything else is Unsupported."""
import hashlib
import re as _re
from re import _parser, _constants as K
from .terms import *
from .values import *
from . import terms as T
from . import strmodel as S

MODELS = {}
NO = None


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class Unsure(Exception):
    pass


ALLCH = S.ALL
WORDCH = S.LETTERS | S.DIGITS | frozenset('_')
CATS = {K.CATEGORY_DIGIT: S.DIGITS, K.CATEGORY_SPACE: S.SPACE, K.CATEGORY_WORD: WORDCH,
        K.CATEGORY_NOT_DIGIT: ALLCH - S.DIGITS, K.CATEGORY_NOT_SPACE: ALLCH - S.SPACE, K.CATEGORY_NOT_WORD: ALLCH - WORDCH}


def charset(op, av):
    """set of characters of a one-character node, None if it is not one"""
    if op is K.LITERAL:
        return frozenset(chr(av))
    if op is K.NOT_LITERAL:
        return ALLCH - {chr(av)}
    if op is K.ANY:
        return ALLCH - {'\n'}
    if op is K.CATEGORY:
        return CATS.get(av)
    if op is K.IN:
        out, negate = set(), False
        for o, v in av:
            if o is K.NEGATE:
                negate = True
            elif o is K.LITERAL:
                out.add(chr(v))
            elif o is K.RANGE:
                out |= {chr(c) for c in range(v[0], v[1] + 1)}
            elif o is K.CATEGORY:
                out |= CATS[v]
            else:
                raise Unsupported('regular expression class %s' % (o,))
        return frozenset(ALLCH - out if negate else out)
    return None


_parsed = {}


def parse(pat, flags=0):
    if not isinstance(pat, str):
        raise Unsupported('symbolic regular expression %r' % (pat,))
    if (pat, flags) not in _parsed:
        try:
            p = _parser.parse(pat, flags)
        except _re.error as e:
            raise PyRaise('error', str(e))
        if p.state.flags & ~(K.SRE_FLAG_UNICODE):
            raise Unsupported('regular expression flags')
        _parsed[pat, flags] = (list(p.data), p.state.groups, dict(p.state.groupdict))
    return _parsed[pat, flags]


class Matcher:
    def __init__(self, ps):
        self.ps = ps
        self.cs = S.cells(ps)
        # an undecided choice of texts is a run like any other
        self.n = len(self.cs)
        self.steps = 0

    # pos = (i, s): s = 0 before cell i; 1 inside run i with at least one character of it left
    def seq(self, nodes, k, pos, caps, sure, cont):
        self.steps += 1
        if self.steps > 60000:
            raise Unsure('pattern too hard')
        if k == len(nodes):
            return cont(pos, caps, sure)
        op, av = nodes[k]
        rest = lambda p, c, s: self.seq(nodes, k + 1, p, c, s, cont)
        cls = charset(op, av)
        if cls is not None:
            return self.one(cls, pos, sure, lambda p, s: rest(p, caps, s))
        if op is K.SUBPATTERN:
            g, addf, delf, sub = av
            if addf or delf:
                raise Unsupported('inline flags')

            def close(p, c, s):
                if g is not None:
                    c = dict(c)
                    c[g] = (pos, p)
                return rest(p, c, s)
            return self.seq(list(sub), 0, pos, caps, sure, close)
        if op is K.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, caps, sure, rest)
                if r is not NO:
                    return r
            return NO
        if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            hi = None if hi is K.MAXREPEAT else hi
            sub = list(sub)
            if op is K.POSSESSIVE_REPEAT:
                raise Unsupported('possessive repeat')
            cls = charset(*sub[0]) if len(sub) == 1 else None
            if cls is not None:
                f = self.greedy if op is K.MAX_REPEAT else self.lazy
                return f(cls, lo, hi, 0, pos, sure, lambda p, s: rest(p, caps, s))
            return self.group(sub, lo, hi, 0, pos, caps, sure, op is K.MAX_REPEAT, rest)
        if op is K.AT:
            return self.at(av, pos, caps, sure, rest)
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Unsupported('lookbehind')
            r = self.seq(list(sub), 0, pos, caps, sure, lambda p, c, s: ('look', s, c))
            if r is not NO and not r[1]:
                raise Unsure('lookahead')
            if (r is not NO) == (op is K.ASSERT):
                return rest(pos, caps if r is NO else r[2], sure)
            return NO
        raise Unsupported('regular expression node %s' % (op,))

    def maybe_empty(self, pos):
        i, s = pos
        return i < self.n and self.cs[i].run and s == 0 and self.cs[i].least == 0

    def worlds(self, pos, f):
        """a run that may be empty: both cases must end alike"""
        i, s = pos
        a = f((i + 1, 0))
        b = f((i, 3))
        return same(a, b)

    def one(self, cls, pos, sure, cont):
        i, s = pos
        if i >= self.n:
            return NO
        if self.maybe_empty(pos) or s == 2:
            return self.worlds(pos, lambda p: self.one(cls, p, sure, cont))
        c = self.cs[i]
        if c.chars.isdisjoint(cls):
            return NO
        if not c.chars <= cls:
            sure = False
        if not c.run:
            return cont((i + 1, 0), sure)
        return cont((i, 2), sure)

    def greedy(self, cls, lo, hi, n, pos, sure, cont):
        i, s = pos
        self.steps += 1
        if self.steps > 60000:
            raise Unsure('pattern too hard')
        if hi is not None and n >= hi:
            return cont(pos, sure)
        if i >= self.n:
            return cont(pos, sure) if n >= lo else NO
        c = self.cs[i]
        whole = c.run and hi is None and lo <= n + 1
        if c.run and (s == 2 or self.maybe_empty(pos)):
            if hi is None and lo <= n and c.chars <= cls:
                # taken whole, empty or not
                r = self.greedy(cls, lo, hi, n, (i + 1, 0), sure, cont)
                if r is not NO:
                    return r
                self.must_fail(cont, (i, 1))
                return cont(pos, sure)
            return self.worlds(pos, lambda p: self.greedy(cls, lo, hi, n, p, sure, cont))
        if c.chars.isdisjoint(cls):
            return cont(pos, sure) if n >= lo else NO
        certain = c.chars <= cls
        if c.run and whole:
            if not certain:
                for p in ((i + 1, 0),):
                    if self.greedy(cls, lo, hi, n + 1, p, False, cont) is not NO:
                        raise Unsure('repeat')
                self.must_fail(cont, (i, 1))
                if n >= lo:
                    return cont(pos, sure)
                return NO
            r = self.greedy(cls, lo, hi, n + 1, (i + 1, 0), sure, cont)
            if r is not NO:
                return r
            self.must_fail(cont, (i, 1))
            return cont(pos, sure) if n >= lo else NO
        nxt = (i, 2) if c.run else (i + 1, 0)
        r = self.greedy(cls, lo, hi, n + 1, nxt, sure and certain, cont)
        if r is not NO:
            return r
        return cont(pos, sure) if n >= lo else NO

    def lazy(self, cls, lo, hi, n, pos, sure, cont):
        i, s = pos
        self.steps += 1
        if self.steps > 60000:
            raise Unsure('pattern too hard')
        if i < self.n and self.cs[i].run and (s == 2 or self.maybe_empty(pos)):
            c = self.cs[i]
            if n >= lo and hi is None and c.chars <= cls and self.fails(cont, (i, 1)):
                return self.lazy(cls, lo, hi, n, (i + 1, 0), sure, cont)
            return self.worlds(pos, lambda p: self.lazy(cls, lo, hi, n, p, sure, cont))
        if n >= lo:
            r = cont(pos, sure)
            if r is not NO:
                return r
        if (hi is not None and n >= hi) or i >= self.n:
            return NO
        c = self.cs[i]
        if c.chars.isdisjoint(cls):
            return NO
        certain = c.chars <= cls
        if c.run:
            if hi is None and n + 1 >= lo and self.fails(cont, (i, 1)):
                return self.lazy(cls, lo, hi, n + 1, (i + 1, 0), sure and certain, cont)
            if hi is None and not certain:
                raise Unsure('repeat')
            if hi is None and n >= lo:
                raise Unsure('repeat')
            return self.lazy(cls, lo, hi, n + 1, (i, 2), sure and certain, cont)
        return self.lazy(cls, lo, hi, n + 1, (i + 1, 0), sure and certain, cont)

    def fails(self, cont, pos):
        try:
            return cont(pos, False) is NO
        except Unsure:
            return False

    def must_fail(self, cont, pos):
        if cont(pos, False) is not NO:
            raise Unsure('inside a run')

    def group(self, sub, lo, hi, n, pos, caps, sure, greedy, rest):
        def more():
            if hi is not None and n >= hi:
                return NO

            def again(p, c, s):
                if p == pos and n >= lo:
                    return NO
                return self.group(sub, lo, hi, n + 1, p, c, s, greedy, rest)
            return self.seq(sub, 0, pos, caps, sure, again)
        if n < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not NO else rest(pos, caps, sure)
        r = rest(pos, caps, sure)
        return r if r is not NO else more()

    def at(self, av, pos, caps, sure, rest):
        i, s = pos
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            if s == 0 and i == 0:
                return rest(pos, caps, sure)
            if s in (1, 2) or not all(c.run and c.least == 0 for c in self.cs[:i]):
                return NO
            return self.unsure_rest(rest, pos, caps)
        if av in (K.AT_END, K.AT_END_STRING):
            if i >= self.n:
                return rest(pos, caps, sure)
            left = self.cs[i:]
            if av is K.AT_END and len(left) == 1 and not left[0].run and left[0].chars == {'\n'}:
                return rest(pos, caps, sure)
            need = sum(c.least if c.run else 1 for c in left) if s == 0 else 1 + sum(c.least if c.run else 1 for c in left[1:])
            if s == 2:
                need = sum(c.least if c.run else 1 for c in left[1:])
            if need > (1 if av is K.AT_END else 0) or (need == 1 and not any('\n' in c.chars for c in left)):
                return NO
            return self.unsure_rest(rest, pos, caps)
        raise Unsupported('regular expression anchor %s' % (av,))

    def unsure_rest(self, rest, pos, caps):
        if rest(pos, caps, False) is not NO:
            raise Unsure('anchor')
        return NO

    def match_at(self, nodes, pos, full=False):
        def end(p, c, s):
            if full:
                if p[0] < self.n:
                    if p[1] == 0 and all(x.run and x.least == 0 for x in self.cs[p[0]:]) or p[1] == 2:
                        raise Unsure('end')
                    return NO
            if not s:
                raise Unsure('may or may not match')
            return ('m', bnd(p), tuple(sorted((g, (bnd(a), bnd(b))) for g, (a, b) in c.items())))
        return self.seq(nodes, 0, pos, {}, True, end)

    def search(self, nodes, i0=0, s0=0):
        anchored = has(nodes, lambda op, av: op is K.AT)
        for i in range(i0, self.n + 1):
            run = i < self.n and self.cs[i].run
            # the alternatives that can begin in a run
            here = self.possible(nodes, i) if run else nodes
            if here is None:
                continue
            # an empty run: the match would begin at the next cell
            r = self.match_at(here, (i, 3 if run and self.cs[i].least == 0 and not anchored else 0))
            if r is not NO:
                return (i, 0), r
            if run:
                # starting inside the run
                if self.match_at(here, (i, 1)) is not NO:
                    raise Unsure('match inside a run')
        return None

    def match_maybe(self, nodes, i):
        """may a match begin in the run of cell i?"""
        for s in ((3 if self.cs[i].least == 0 else 0), 1):
            try:
                if self.match_at(nodes, (i, s)) is not NO:
                    return True
            except Unsure:
                return True
        return False

    def possible(self, nodes, i):
        """the pattern without the alternatives that are literals which cannot be read from cell i; None if none is left"""
        alts = [list(x) for x in nodes[0][1][1]] if len(nodes) == 1 and nodes[0][0] is K.BRANCH else [nodes]
        keep = []
        for x in alts:
            lit = ''.join(chr(av) for op, av in x) if x and all(op is K.LITERAL for op, av in x) else None
            if lit is None or S.reach(self.cs, i, lit):
                keep.append(x)
        if len(keep) == len(alts):
            return nodes
        if not keep:
            return None
        return keep[0] if len(keep) == 1 else [(K.BRANCH, (None, keep))]


def has(nodes, f):
    """does the pattern hold a node of this kind?"""
    for x in nodes:
        if isinstance(x, tuple) and len(x) == 2:
            if f(*x):
                return True
            if x[0] is K.IN:
                continue
        if isinstance(x, (tuple, list)) or hasattr(x, 'data'):
            if has(list(x), f):
                return True
    return False


def bnd(p):
    return p


def same(a, b):
    if a == b:
        return a
    raise Unsure('depends on the length of a run')


# positions (i, 2) and (i, 3) that end a capture are inside a run and cannot be named
def boundary(m, p):
    i, s = p
    if s in (0, 3):
        return i
    raise Unsure('inside a run')


def text(m, a, b):
    a, b = boundary(m, a), boundary(m, b)
    out = []
    k = a
    while k < b:
        c = m.cs[k]
        x = m.ps[c.src]
        if c.run:
            out.append(x)
            k += 1
            continue
        e = k
        while e < b and m.cs[e].src == c.src:
            e += 1
        lo, hi = c.off, m.cs[e - 1].off + 1
        if isinstance(x, str):
            out.append(x[lo:hi])
        elif lo == 0 and hi == x.width:
            out.append(x)
        elif isinstance(x, S.Choice):
            raise Unsure('part of a choice')
        else:
            out.append(x.cut(lo, hi))
        k = e
    return S.mk(out)


def attempt(I, s, f):
    """f(matcher) with the choices of the text resolved only as far as needed"""
    ps = S.pieces(s)
    while True:
        try:
            return f(Matcher(ps))
        except Unsure as e:
            k = next((k for k, x in enumerate(ps) if isinstance(x, S.Choice)), None)
            if k is None:
                raise Unsupported('regular expression on %r: %s' % (ps, e))
            # the first choice the match depends on
            for k in [k for k, x in enumerate(ps) if isinstance(x, S.Choice)]:
                break
            x = ps[k]
            ps = S.norm(tuple(ps[:k]) + tuple(x.a if I.decide(x.c) else x.b) + tuple(ps[k + 1:]))


class Match:
    def __init__(self, whole, groups, names, span=None):
        self.whole, self.gs, self.names, self.span = whole, groups, names, span

    def truth(self, I):
        return True

    def group_(self, I, k):
        if isinstance(k, str):
            if k not in self.names:
                raise PyRaise('IndexError', 'no such group')
            k = self.names[k]
        else:
            k = S.const_of(I, k)
        if not 0 <= k <= len(self.gs):
            raise PyRaise('IndexError', 'no such group')
        return self.whole if k == 0 else self.gs[int(k) - 1]

    def getattr(self, I, name):
        if name == 'group':
            def g(I2, a, k):
                xs = [self.group_(I2, x) for x in (a or [0])]
                return xs[0] if len(xs) == 1 else tuple(xs)
            return Builtin('Match.group', g)
        if name == 'groups':
            return Builtin('Match.groups', lambda I2, a, k: tuple((a[0] if a else None) if x is None else x for x in self.gs))
        if name == 'groupdict':
            return Builtin('Match.groupdict', lambda I2, a, k: I2.new_dict({q: self.gs[j - 1] for q, j in self.names.items()}))
        raise Unsupported('Match.%s' % name)

    def getitem(self, I, idx):
        return self.group_(I, idx)


def mk_match(m, nodes_groups, names, start, r):
    _, end, caps = r
    caps = dict(caps)
    return Match(text(m, start, end), [text(m, *caps[g]) if g in caps else None for g in range(1, nodes_groups)], names)


def flags_of(a, k, pos):
    if len(a) > pos or k.get('flags'):
        raise Unsupported('regular expression flags')


@model('re.search')
def search(I, a, k):
    nodes, ng, names = parse(a[0])
    flags_of(a, k, 2)

    def f(m):
        r = m.search(nodes)
        return None if r is None else mk_match(m, ng, names, *r)
    return attempt(I, a[1], f)


def match_(I, a, k, full):
    nodes, ng, names = parse(a[0])
    flags_of(a, k, 2)

    def f(m):
        r = m.match_at(nodes, (0, 0), full)
        return None if r is NO else mk_match(m, ng, names, (0, 0), r)
    return attempt(I, a[1], f)


MODELS['re.match'] = lambda I, a, k: match_(I, a, k, False)
MODELS['re.fullmatch'] = lambda I, a, k: match_(I, a, k, True)


def all_matches(m, nodes, ng, names, out=None):
    out = [] if out is None else out
    i = 0
    while i <= m.n:
        r = m.search(nodes, i)
        if r is None:
            break
        start, res = r
        e = boundary(m, res[1])
        if e == start[0]:
            raise Unsure('empty match')
        out.append((start[0], e, mk_match(m, ng, names, start, res)))
        i = e
    return out


@model('re.findall')
def findall(I, a, k):
    nodes, ng, names = parse(a[0])
    flags_of(a, k, 2)

    def item(x):
        if ng == 1:
            return x.whole
        if ng == 2:
            return x.gs[0] if x.gs[0] is not None else ''
        return tuple('' if g is None else g for g in x.gs)

    def f(m):
        known = []
        try:
            return I.new_list([item(x) for _, _, x in all_matches(m, nodes, ng, names, known)])
        except Unsure:
            if not known or all(isinstance(x, str) or x.width is not None or isinstance(x, S.Choice) or x.kind != 'word' for x in m.ps):
                raise
            # arbitrary text follows: the first matches are known, the others and their number are not
            known = [item(x) for _, _, x in known]

            def at(i):
                if i.is_const and 0 <= i.const < len(known):
                    return known[int(i.const)]
                raise Unsupported('a match in arbitrary text')
            tag = int(hashlib.md5(str(a[0]).encode()).hexdigest()[:8], 16)
            return I.new_symlist(len(known) + T.fn('nmatch', T.num(tag), *[x.p for x in m.ps if hasattr(x, 'p')], sort='i', nonneg=True), at)
    return attempt(I, a[1], f)


@model('re.finditer')
def finditer(I, a, k):
    nodes, ng, names = parse(a[0])
    flags_of(a, k, 2)
    return I.new_list(attempt(I, a[1], lambda m: [x for _, _, x in all_matches(m, nodes, ng, names)]))


@model('re.sub')
def sub(I, a, k):
    nodes, ng, names = parse(a[0])
    repl, s = a[1], a[2]
    count = int(S.const_of(I, k.get('count', a[3] if len(a) > 3 else 0)))
    flags_of(a, k, 4)
    if isinstance(a[0], str) and isinstance(repl, str) and isinstance(s, str):
        return _re.sub(a[0], repl, s, count=count)

    if repl == '' and nodes and all(op is K.AT for op, av in nodes) and (S.is_string(s) or hasattr(s, 'linewise')):
        return s        # only empty matches
    if hasattr(s, 'linewise') and not count:
        if not one_line(nodes):
            raise Unsupported('a pattern that may match across lines')
        return s.linewise(lambda I2, x: sub(I2, [a[0], repl, x], {}))

    def f(m):
        if count:
            ms = all_matches(m, nodes, ng, names)[:count]
        else:
            ms = sub_matches(I, m, nodes, ng, names, a[0], repl)
        parts, at = [], 0
        for b, e, x in ms:
            parts.append(text(m, (at, 0), (b, 0)))
            parts.append(x)
            at = e
        parts.append(text(m, (at, 0), (m.n, 0)))
        return parts
    parts = attempt(I, s, f)
    out = []
    for x in parts:
        out.append(replacement(I, repl, x) if isinstance(x, Match) else x)
    return S.mk(out)


def replacement(I, repl, x):
    if isinstance(repl, str):
        return expand_template(I, repl, x)
    y = I.call(repl, [x], {})
    if not S.is_string(y):
        raise PyRaise('TypeError', 'expected str instance')
    return y


def one_line(nodes):
    """no match holds a line end or depends on where lines and the text begin or end"""
    def bad(op, av):
        if op in (K.AT, K.ASSERT, K.ASSERT_NOT):
            return True
        c = charset(op, av)
        return c is not None and '\n' in c
    return not has(nodes, bad)


def sub_matches(I, m, nodes, ng, names, pat, repl):
    """the matches to be replaced: (first cell, cell behind, match or the text that takes its place)"""
    out, i = [], 0
    while i <= m.n:
        try:
            r = m.search(nodes, i)
        except Unsure:
            k, x = unsettled(m, nodes, i, ng, names)
            if x is None:
                raise
            if isinstance(x, str):
                y = replacement(I, repl, Match(x, [None] * (ng - 1), names))
                if not isinstance(y, str):
                    raise Unsupported('replacement by %r' % (y,))
                out.append((k, k + 1, S.char_replaced(m.ps[m.cs[k].src], x, y)))
            else:
                out.append((k, k + 1, rest_replaced(I, nodes, ng, names, pat, repl, x)))
            i = k + 1
            continue
        if r is None:
            break
        start, res = r
        e = boundary(m, res[1])
        if e == start[0]:
            raise Unsure('empty match')
        out.append((start[0], e, mk_match(m, ng, names, start, res)))
        i = e
    return out


def unsettled(m, nodes, i, ng, names):
    """the run in which the next match may begin: (cell, the one character that can match there, or the run itself if nothing follows it)"""
    while i < m.n:
        c = m.cs[i]
        if c.run and isinstance(m.ps[c.src], S.Run) and m.ps[c.src].kind == 'word':
            here = m.possible(nodes, i)
            if here is not None:
                alts = [list(x) for x in here[0][1][1]] if len(here) == 1 and here[0][0] is K.BRANCH else [here]
                one = [charset(*x[0]) if len(x) == 1 else None for x in alts]
                may = [q for x, q in zip(alts, one) if m.match_maybe(x, i)]
                if may:
                    if all(q is not None for q in may):
                        ch = frozenset().union(*may) & c.chars
                        if len(ch) == 1:
                            return i, next(iter(ch))
                    if i == m.n - 1 and not has(nodes, lambda op, av: op is K.AT):
                        return i, m.ps[c.src]
                    return i, None
        else:
            here = nodes
        try:
            if here is not None and m.match_at(here, (i, 0)) is not NO:
                return i, None
        except Unsure:
            return i, None
        i += 1
    return i, None


def rest_replaced(I, nodes, ng, names, pat, repl, x):
    """what becomes of arbitrary text up to the end of the line"""
    chars = x.chars
    if isinstance(repl, str):
        if '\\' in repl or '\n' in repl:
            raise Unsupported('replacement of parts of arbitrary text')
        chars, tag = chars | frozenset(repl), repl
    else:
        # the replacement of any match must not end the line
        alts = [list(q) for q in nodes[0][1][1]] if len(nodes) == 1 and nodes[0][0] is K.BRANCH else [nodes]
        for q in alts:
            word = lambda what, least: S.mk((S.Run('word', T.fresh(what, 'i'), ALLCH - {'\n'}, least),))
            got = {}

            def groups(sub):
                for op, av in sub:
                    if op is K.SUBPATTERN and av[0] is not None:
                        if has(list(av[3]), lambda o, v: o is K.SUBPATTERN):
                            raise Unsupported('nested groups')
                        got[av[0]] = word('group', av[3].getwidth()[0])
                    elif op is not K.LITERAL and charset(op, av) is None:
                        raise Unsupported('replacement of parts of arbitrary text')
            groups(q)
            y = replacement(I, repl, Match(word('match', 1), [got.get(g) for g in range(1, ng)], names))
            if '\n' in S.charset(S.pieces(y)):
                raise Unsupported('replacement of parts of arbitrary text')
        if '\n' in chars:
            raise Unsupported('replacement of parts of arbitrary text')
        chars, tag = ALLCH - {'\n'}, 'call %r' % (getattr(getattr(repl, 'node', None), 'lineno', repl),)
    return S.Run('word', T.fn('replaced', x.p, T.num(S.lit_no(pat, tag)), sort='i'), chars, 0)


def expand_template(I, t, x):
    out = []
    k = 0
    while k < len(t):
        if t[k] == '\\':
            g = _re.match(r'\\(?:(\d)|g<(\w+)>|([nt\\]))', t[k:])
            if not g:
                raise Unsupported('replacement template %r' % t)
            if g.group(3):
                out.append({'n': '\n', 't': '\t', '\\': '\\'}[g.group(3)])
            else:
                q = g.group(1) or g.group(2)
                v = x.group_(I, int(q) if q.isdigit() else q)
                out.append('' if v is None else v)
            k += g.end()
        else:
            out.append(t[k])
            k += 1
    return S.mk(out)


@model('re.split')
def split(I, a, k):
    nodes, ng, names = parse(a[0])
    if ng > 1 or len(a) > 2 or k:
        raise Unsupported('re.split options')

    def f(m):
        parts, at = [], 0
        for b, e, x in all_matches(m, nodes, ng, names):
            parts.append(text(m, (at, 0), (b, 0)))
            at = e
        parts.append(text(m, (at, 0), (m.n, 0)))
        return parts
    return I.new_list(attempt(I, a[1], f))


class Pattern:
    def __init__(self, pat):
        self.pat = pat

    def truth(self, I):
        return True

    def getattr(self, I, name):
        if name == 'pattern':
            return self.pat
        f = MODELS.get('re.' + name)
        if f is None or name == 'compile':
            raise Unsupported('Pattern.%s' % name)
        return Builtin('Pattern.' + name, lambda I2, a, k: f(I2, [self.pat] + list(a), k))


@model('re.compile')
def compile_(I, a, k):
    flags_of(a, k, 1)
    parse(a[0])
    return Pattern(a[0])


@model('re.escape')
def escape(I, a, k):
    if isinstance(a[0], str):
        return _re.escape(a[0])
    raise Unsupported('re.escape of symbolic text')


def extract(I, ref, a, k):
    """Series.str.extract: a table of the groups of the first match; rows must all match"""
    from . import pdmodel, loops, npmodel as N
    pat = a[0] if a else k['pat']
    nodes, ng, names = parse(pat)
    if set(k) - {'pat', 'expand'} or k.get('expand', True) is not True or len(a) > 1 or ng < 2:
        raise Unsupported('str.extract options')
    s = I.heap[ref]

    def one(x):
        r = search(I, [pat, x], {})
        if r is None:
            raise Unsupported('str.extract: a row that does not match')
        if any(g is None for g in r.gs):
            raise Unsupported('str.extract: optional group')
        return tuple(r.gs)
    L = loops.sym_map(I, SymIter(s.A.shape[0], lambda j: s.A.at(P(j))), one)
    at = I.heap[L].at
    inv = {j: q for q, j in names.items()}
    n = s.A.shape[0]
    cols = {inv.get(j + 1, j): Arr((n,), lambda ix, j=j: at(ix[0])[j], 'O') for j in range(ng - 1)}
    return pdmodel.mk_df(I, cols, n, s.index)


S.extract = extract


def register(mods, models):
    models.update(MODELS)
