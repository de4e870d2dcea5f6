"""Whole texts of any number of lines, and files being written: trusted models.

A Doc is the lines line(0), .., line(n-1), joined by line ends; `closed` says that the last one is ended too.  A line is
evaluated where it is looked at, so that operations on the whole text apply line by line.  An OutFile keeps, in the heap, the
lines finished so far and what was written since."""
from .terms import *
from .values import *
from . import terms as T
from . import prover
from . import strmodel as S


class Doc:
    is_str = True

    def __init__(self, n, line, closed=False):
        self.n, self.line, self.closed = P(n), line, closed

    def __repr__(self):
        return '<text of %r lines>' % (self.n,)

    def typeval(self):
        from . import builtins_model
        return builtins_model.BUILTINS['str']

    def linewise(self, f):
        return Doc(self.n, lambda I, j: f(I, self.line(I, j)), self.closed)

    def one(self, I, j):
        s = self.line(I, P(j))
        if not S.is_string(s):
            raise PyRaise('TypeError', 'str expected')
        if '\n' in S.charset(S.pieces(s)):
            raise Unsupported('a line that may hold a line end')
        return s

    def getattr(self, I, name):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported('str.%s of a whole text' % name)
        return Builtin('str.' + name, lambda I2, a, k: f(I2, *a, **k))

    def binop(self, I, op, o, refl):
        if op == 'Add' and not refl and o == '\n' and not self.closed:
            return Doc(self.n, self.line, True)
        if op == 'Add' and o == '':
            return self
        raise Unsupported('%s of a whole text' % op)

    def lines(self, I, keep=False):
        n = self.n
        if not self.closed:
            # an empty last line is none
            pc0, st0 = I.pc, I.snapshot()
            none = FALSE
            for kd, v, pc, st, w in I.explore(lambda: self.one(I, self.n - 1)):
                if kd != 'normal':
                    raise Unsupported('a line that may not be made')
                none = or_(none, and_(*[c for c in pc.conds if c not in pc0.set], S.eq_lit(S.pieces(v), '')))
            I.restore(st0)
            I.pc = pc0
            n = n - ite(prover.simp_cond(none, pc0), ONE, ZERO)
        if not keep:
            return n, lambda j: self.one(I, j)
        end = lambda j: '\n' if self.closed or I.decide(lt(P(j), self.n - 1)) else ''
        return n, lambda j: S.mk((self.one(I, j), end(j)))

    def m_split(self, I, sep=None, maxsplit=-1):
        if sep != '\n' or maxsplit != -1:
            raise Unsupported('split of a whole text')
        if not self.closed:
            return I.new_symlist(self.n, lambda j: self.one(I, j))
        return I.new_symlist(self.n + 1, lambda j: self.one(I, j) if I.decide(lt(P(j), self.n)) else '')

    def m_splitlines(self, I, keepends=False):
        return I.new_symlist(*self.lines(I, I.decide(I.truth(keepends))))

    def m_replace(self, I, old, new, count=-1):
        if not isinstance(old, str) or not isinstance(new, str) or '\n' in old + new or not old or count != -1:
            raise Unsupported('replace in a whole text')
        return self.linewise(lambda I2, x: S.replace_(I2, x, old, new) if not isinstance(x, str) else x.replace(old, new))


class Lines:
    """what open() gives for a text of lines joined by line ends (filemodel.Text without the line ends)"""
    eol = None

    def __init__(self, n, line, empty):
        self.N, self.line_, self.empty = P(n), line, empty      # empty(j): the condition under which line j is empty
        self.n = self.N - ite(empty(self.N - 1), ONE, ZERO)

    def whole(self, I):
        return Doc(self.N, lambda I2, j: self.line_(P(j)))

    def full(self, I, j):
        j = P(j)
        return S.mk((self.line_(j), S.Choice(lt(j, self.N - 1), ('\n',), ())))


class OutState:
    """lines finished so far; the text since; whether the last finished line has no line end yet"""

    def __init__(self, n=ZERO, at=None, part='', unended=False):
        self.n, self.at, self.part, self.unended = P(n), at, part, unended

    def o_repr(self):
        return '%r lines' % (self.n,)


class OutFile:
    is_file = True

    def __init__(self, ref, path=None):
        self.ref, self.path = ref, path

    def truth(self, I):
        return True

    def __repr__(self):
        return 'OutFile'

    def fresh(self, I):
        r = ObjRef()
        I.heap[r] = OutState()
        return OutFile(r)

    def state(self, I):
        s = I.heap[self.ref]
        if s == 'closed' or isinstance(s, Closed):
            raise PyRaise('ValueError', 'I/O operation on closed file.')
        return s

    def add(self, I, n, at, part, unended=False):
        """n more lines, then the text part"""
        s = self.state(I)
        n0, at0 = s.n, s.at
        n = P(n)
        if n.is_zero:
            f = at0
        elif n0.is_zero:
            f = at
        else:
            f = lambda j: at0(P(j)) if I_().decide(lt(P(j), n0)) else at(P(j) - n0)
        I.heap[self.ref] = OutState(n0 + n, f, part, unended)

    def write(self, I, x):
        s = self.state(I)
        if isinstance(x, Doc):
            if s.unended or s.part != '':
                raise Unsupported('text written behind an unfinished line')
            self.add(I, x.n, lambda j: x.one(I_(), j), '', not x.closed)
            return
        if not S.is_string(x):
            raise PyRaise('TypeError', 'write() argument must be str')
        if s.unended:
            if x == '':
                return
            if not (isinstance(x, str) and x[0] == '\n'):
                raise Unsupported('text written behind an unfinished line')
            I.heap[self.ref] = OutState(s.n, s.at, '')
            return self.write(I, x[1:])
        cur, done = [s.part], []
        for p in S.touch(I, S.pieces(x), lambda q: '\n' in S.chars_of(q)):
            if not isinstance(p, str):
                if '\n' in p.chars:
                    raise Unsupported('text that may hold a line end')
                cur.append(p)
                continue
            q = p.split('\n')
            for y in q[:-1]:
                done.append(S.mk(cur + [y]))
                cur = []
            cur.append(q[-1])

        def at(j):
            for k in range(len(done) - 1):
                if I_().decide(eq(P(j), k)):
                    return done[k]
            return done[-1]
        self.add(I, num(len(done)), at, S.mk(cur))

    def getattr(self, I, name):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported('file.%s' % name)
        return Builtin('file.' + name, lambda I2, a, k: f(I2, *a, **k))

    def m_write(self, I, x):
        self.write(I, x)
        return mk_int(T.fresh('written', 'i', True))

    def m_writelines(self, I, xs):
        items = I.concrete_items(xs)
        if items is not None:
            for x in items:
                self.write(I, x)
            return None
        self.write(I, joined(I, '', xs))
        return None

    def m_flush(self, I):
        self.state(I)
        return None

    def m_close(self, I):
        s = I.heap[self.ref]
        if not isinstance(s, Closed):
            I.heap[self.ref] = Closed(s)
        return None

    def exit_(self, I):
        self.m_close(I)


class Closed:
    def __init__(self, s):
        self.s = s

    def o_repr(self):
        return 'closed'


def I_():
    return CUR[0]


def joined(I, sep, seq):
    """sep.join of a list of symbolic length: lines with the line end between or behind them"""
    it = I.iterate(seq)
    if isinstance(it, list):
        raise Unsupported('join')
    n = P(it.n)
    whole = getattr(I.heap.get(seq), 'info', {}).get('whole') if isinstance(seq, ListRef) else None
    if sep == '' and whole is not None:
        return whole
    if sep == '\n':
        if I.decide(ge(n, 1)):
            return Doc(n, lambda I2, j: it.at(j))
        return ''
    if sep == '':
        if not I.decide(ge(n, 1)):
            return ''

        def parts(I2, j):
            ps = S.touch(I2, S.pieces(it.at(j)), lambda q: '\n' in S.chars_of(q))
            return ps, bool(ps) and isinstance(ps[-1], str) and ps[-1].endswith('\n')

        closed = parts(I, n - 1)[1]

        def line(I2, j):
            ps, ended = parts(I2, j)
            if ended:
                return S.mk(tuple(ps[:-1]) + (ps[-1][:-1],))
            if closed or I2.decide(lt(P(j), n - 1)):
                raise Unsupported('joined text without line ends')
            return S.mk(ps)
        return Doc(n, line, closed)
    raise Unsupported('join of a list of symbolic length')
