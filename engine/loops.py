"""Loops: unrolling of concrete trip counts, and invariant inference for symbolic ones.

For a loop of symbolic trip count the body is executed once from an arbitrary iteration
(havocked state), a closed form S(k) of every modified location is guessed from templates
(overwrite, counter/sum, product, region writes, append, shift register, filter) and then
checked as an inductive invariant: S(0) is the state before the loop and one execution of
the body from S(k) yields S(k+1).  The state after the loop is S(n)."""
import ast
from .terms import *
from . import terms as T
from . import prover
from .values import *
from . import npmodel as N

MAX_UNROLL = 600
UNB = UNBOUND


# ---------------------------------------------------------------- entry points

def run_for(I, s, fr):
    from .interp import BreakEx, ContinueEx
    it = I.iterate(I.eval(s.iter, fr))
    if isinstance(it, list) and len(it) > 64 and all(type(x) is int for x in it) and \
            len({b - a for a, b in zip(it, it[1:])}) == 1:
        a0, st = it[0], it[1] - it[0]
        from .values import mk_int
        L = Loop(I, num(len(it)), lambda k: I.assign(s.target, mk_int(k * st + a0), fr),
                 lambda: I.exec_block(s.body, fr), s.lineno)
        if not L.run():
            I.exec_block(s.orelse, fr)
        return
    if isinstance(it, list):
        if len(it) > MAX_UNROLL:
            raise Unsupported('loop too long to unroll')
        for x in it:
            I.assign(s.target, x, fr)
            try:
                I.exec_block(s.body, fr)
            except ContinueEx:
                continue
            except BreakEx:
                return
        I.exec_block(s.orelse, fr)
        return
    if hasattr(it, 'run_loop'):
        if it.run_loop(I, s, fr):
            return
    n = prover.simp(it.n, I.pc)
    if prover.decide(I.pc, le(n, 0)) is True:
        I.exec_block(s.orelse, fr)
        return
    out = _write_loop(s, fr)
    if out is not None:
        if not run_writes(I, s, fr, it, out):
            I.exec_block(s.orelse, fr)
        return
    app = _append_loop(s)
    s0 = I.snapshot()
    L = Loop(I, n, lambda k: I.assign(s.target, it.at(k), fr), lambda: I.exec_block(s.body, fr), s.lineno)
    try:
        broke = L.run()
    except Unsupported as e:
        if app is None or not str(e).startswith('cannot merge'):
            raise
        I.restore(s0)
        broke = run_append(I, s, fr, it, app)
    if not broke:
        I.exec_block(s.orelse, fr)


def _append_loop(s):
    """the list a loop fills, one append at most per round, doing nothing else but name values"""
    name = [None]

    def block(b):
        for x in b:
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and \
                    x.value.func.attr == 'append' and isinstance(x.value.func.value, ast.Name) and len(x.value.args) == 1:
                if name[0] not in (None, x.value.func.value.id):
                    return False
                name[0] = x.value.func.value.id
            elif isinstance(x, ast.Assign):
                if not all(isinstance(t, ast.Name) or (isinstance(t, ast.Tuple) and all(isinstance(q, ast.Name) for q in t.elts)) for t in x.targets):
                    return False
            elif isinstance(x, ast.If):
                if not block(x.body) or not block(x.orelse):
                    return False
            elif not isinstance(x, (ast.Continue, ast.Pass)):
                return False
        return True
    if not block(s.body) or name[0] is None:
        return None
    uses = sum(isinstance(x, ast.Name) and x.id == name[0] for b in s.body for x in ast.walk(b))
    adds = sum(isinstance(x, ast.Attribute) and x.attr == 'append' and isinstance(x.value, ast.Name) and x.value.id == name[0]
               for b in s.body for x in ast.walk(b))
    return name[0] if uses == adds else None


def _write_loop(s, fr):
    """the file a loop writes to, itself or through functions it calls"""
    from .docmodel import OutFile, Closed

    def seek(nodes, env, deep):
        for b in nodes:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    v = env(x.id)
                    if isinstance(v, OutFile):
                        return v
                    if isinstance(v, FuncVal) and deep < 3:
                        body = v.node.body if isinstance(v.node.body, list) else [v.node.body]
                        r = seek(body, v.env.env.get if hasattr(v.env, 'env') else (lambda q: None), deep + 1)
                        if r is not None:
                            return r
        return None
    return seek(s.body, fr.env.get, 0)


def own_nodes(n):
    """the nodes of a statement, without the bodies of the functions it defines"""
    yield n
    if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
        for c in ast.iter_child_nodes(n):
            yield from own_nodes(c)


def run_writes(I, s, fr, it, file):
    """a loop every round of which writes one line, or none, to a file, starting and ending at the beginning of a line"""
    from .docmodel import OutState
    from .interp import ContinueEx
    st = file.state(I)
    if st.part != '' or st.unended:
        raise Unsupported('a loop that begins inside a line')
    assigned = {q.id for b in s.body for q in ast.walk(b) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
    assigned |= {q.id for q in ast.walk(s.target) if isinstance(q, ast.Name)}
    if any(isinstance(q, (ast.Break, ast.Return)) for b in s.body for q in own_nodes(b)):
        raise Unsupported('a loop that writes to a file and may stop early')
    base = copy_frame(fr)
    for q in assigned:
        base.env.pop(q, None)

    def go(x):
        ch = copy_frame(base)
        had = I.heap.get(file.ref)
        I.heap[file.ref] = OutState()
        I.frames.append(ch)
        try:
            I.assign(s.target, x, ch)
            try:
                I.exec_block(s.body, ch)
            except ContinueEx:
                pass
            r = file.state(I)
        finally:
            if ch in I.frames:
                I.frames.remove(ch)
            if had is not None:
                I.heap[file.ref] = had
        if not r.n.is_const or r.n.const > 1 or r.part != '' or r.unended:
            raise Unsupported('a loop that writes other than one line in a round')
        return r

    k, pc0, s0 = fresh('k'), I.pc, I.snapshot()
    I.pc = pc0.extend(le(0, k), lt(k, it.n))
    counts = [v.n for kd, v, pc, st_, w in I.explore(lambda: go(it.at(k))) if kd == 'normal']
    I.restore(s0)
    I.pc = pc0
    some = sym_map(I, it, lambda x: go(x).at(ZERO), (lambda x: FALSE if go(x).n.is_zero else TRUE) if any(c.is_zero for c in counts) else None)
    L = I.heap[some]
    for q in assigned:
        fr.env.pop(q, None)
    file.add(I, L.n, lambda j: L.at(P(j)), '')
    return False


def run_append(I, s, fr, it, name):
    from .interp import ContinueEx
    target = fr.env.get(name)
    if not isinstance(target, ListRef):
        raise Unsupported('append to %r' % (target,))
    assigned = {q.id for b in s.body for q in ast.walk(b) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
    assigned |= {q.id for q in ast.walk(s.target) if isinstance(q, ast.Name)}
    base = copy_frame(fr)
    for q in assigned:
        base.env.pop(q, None)       # a name must be given its value in the round that uses it

    def go(x):
        ch = copy_frame(base)
        got = I.new_list([])
        ch.env[name] = got
        I.frames.append(ch)
        try:
            I.assign(s.target, x, ch)
            try:
                I.exec_block(s.body, ch)
            except ContinueEx:
                pass
        finally:
            if ch in I.frames:
                I.frames.remove(ch)
        xs = I.concrete_items(got)
        if xs is None or len(xs) > 1:
            raise Unsupported('a loop appending several items in a round')
        return xs

    def f(x):
        return go(x)[0]

    def cond(x):
        return TRUE if go(x) else FALSE
    r = sym_map(I, it, f, cond)
    for q in assigned:
        fr.env.pop(q, None)
    I.call(I.getattr(target, 'extend'), [r], {})
    return False


def _reads_line(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'readline' and not e.args and not e.keywords


def _is_empty_test(t, x):
    """does the test say that the line x is empty?"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return isinstance(t.operand, ast.Name) and t.operand.id == x
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.comparators[0], ast.Constant):
        a, c = t.left, t.comparators[0].value
        if isinstance(a, ast.Name) and a.id == x:
            return c in ('', b'')
        return isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1 and \
            isinstance(a.args[0], ast.Name) and a.args[0].id == x and c == 0 and type(c) is int
    return False


def _line_loop(I, s, fr):
    """a while loop that reads a file line by line until the empty read, as the for loop it amounts to"""
    x = call = body = None
    if isinstance(s.test, ast.Constant) and s.test.value in (True, 1) and len(s.body) > 2:
        a, b = s.body[0], s.body[1]
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and _reads_line(a.value) and \
                isinstance(b, ast.If) and len(b.body) == 1 and isinstance(b.body[0], ast.Break) and not b.orelse and _is_empty_test(b.test, a.targets[0].id):
            x, call, body = a.targets[0], a.value, s.body[2:]
    elif isinstance(s.test, ast.NamedExpr) and _reads_line(s.test.value):
        x, call, body = s.test.target, s.test.value, s.body
    elif isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.NotEq) and isinstance(s.test.left, ast.NamedExpr) and \
            _reads_line(s.test.left.value) and isinstance(s.test.comparators[0], ast.Constant) and s.test.comparators[0].value in ('', b''):
        x, call, body = s.test.left.target, s.test.left.value, s.body
    if x is None:
        return None
    f = I.eval(call.func, fr)
    if not hasattr(f, 'iter_until'):
        return None
    empty = ast.copy_location(ast.Constant(f.sentinel(I)), s)
    node = ast.For(target=ast.Name(x.id, ast.Store()), body=body, type_comment=None,
                   iter=ast.Call(ast.Name('iter', ast.Load()), [call.func, empty], []),
                   orelse=[ast.Assign([ast.Name(x.id, ast.Store())], empty, type_comment=None)] + list(s.orelse))
    return ast.fix_missing_locations(ast.copy_location(node, s))


def run_while(I, s, fr):
    from .interp import BreakEx, ContinueEx
    r = _line_loop(I, s, fr)
    if r is not None:
        return run_for(I, r, fr)
    for step in range(MAX_UNROLL):
        c = I.truth(I.eval(s.test, fr))
        if not isinstance(c, bool):
            c = prover.simp(I.cond(c), I.pc)
            d = prover.decide(I.pc, c)
            if d is None:
                return sym_while(I, s, fr)
            c = d
        if not c:
            I.exec_block(s.orelse, fr)
            return
        try:
            I.exec_block(s.body, fr)
        except ContinueEx:
            continue
        except BreakEx:
            return
    raise Unsupported('while loop too long to unroll')


def sym_while(I, s, fr):
    trip = fresh('trip', nonneg=True)

    def body():
        c = I.cond(I.truth(I.eval(s.test, fr)))
        I.assume(c)
        I.exec_block(s.body, fr)
    pc0 = I.pc
    I.pc = I.pc.extend(lt(0, trip))
    L = Loop(I, trip, lambda k: None, body, s.lineno)
    L.solve()
    # condition at the start of iteration k
    k = fresh('k')
    s0 = I.snapshot()
    L.install(L.state_at(k))
    I.pc = pc0.extend(le(0, k))
    c = prover.simp(I.cond(I.truth(I.eval(s.test, fr))), I.pc)
    I.restore(s0)
    I.pc = pc0
    ka = single_atom(k)
    n = None
    if c.op in ('le', 'lt'):
        p = c.args[0]
        a = coef_of(p, ka)
        if a is not None and a.is_const and a.const > 0:
            r = p - a * k
            if ka not in r.fv:
                # a*k + r <= 0   /  < 0
                q = neg(r) / a
                n = T.floor(q) + 1 if c.op == 'le' else neg(T.floor(neg(q)))
                if prover.decide(pc0, le(0, n)) is not True:
                    n = max_(n, ZERO)
    if n is None:
        raise Unsupported('while loop condition %r' % (c,))
    L.n = n
    L.k_extra = [c_at(c, ka)]
    L.trip = (single_atom(trip), n)
    broke = L.finish()
    if not broke:
        I.exec_block(s.orelse, fr)


def c_at(c, ka):
    return lambda k: T.subst(c, {ka: k})


def coef_of(p, a):
    """coefficient polynomial of atom a if p is linear in it with a-free coefficient"""
    out = []
    for mono, c in p.m.items():
        for x, e in mono:
            if x is a:
                if e != 1:
                    return None
                rest = tuple(t for t in mono if t[0] is not a)
                if any(a in t[0].fv for t in rest):
                    return None
                out.append(mk_poly({rest: c}))
            elif a in x.fv:
                return None
    return T.sum_polys(out)


# ---------------------------------------------------------------- frozen values

def freeze(I, v):
    if isinstance(v, ArrRef):
        return ('arr', I.arr(v))
    if isinstance(v, ListRef):
        return ('list', I.heap[v])
    return ('val', v)


def thaw(I, f):
    if f[0] == 'arr':
        return I.new_arr(f[1])
    if f[0] == 'list':
        r = ListRef()
        I.heap[r] = f[1]
        return r
    return f[1]


def fv_val(v):
    """free variable atoms of a value (frozen or not)"""
    if isinstance(v, (Poly, Cond, Lam)):
        return v.fv
    if isinstance(v, Num):
        return v.poly.fv
    if isinstance(v, SBool):
        return v.cond.fv
    if isinstance(v, tuple):
        out = frozenset()
        for x in v:
            out |= fv_val(x)
        return out
    if isinstance(v, Arr):
        out = frozenset()
        for s in v.shape:
            out |= s.fv
        zs = [fresh('z') for _ in v.shape]
        try:
            e = v.at(*zs)
        except Poison as ex:
            return out | frozenset([ex.tag])
        return out | (fv_val(e) - frozenset(single_atom(z) for z in zs))
    if isinstance(v, PyList):
        out = frozenset()
        for x in v.items:
            out |= fv_val(x)
        return out
    if isinstance(v, SymList):
        out = v.n.fv
        z = fresh('z')
        try:
            out |= fv_val(v.at(z)) - {single_atom(z)}
        except Poison as ex:
            return out | frozenset([ex.tag])
        return out
    if isinstance(v, ObjRef) and CUR[0] is not None:
        return fv_val(CUR[0].heap[v])
    if hasattr(v, 'fvs'):
        return v.fvs()
    return frozenset()


class Poison(Unsupported):
    """read of an element whose value at this iteration is not known yet"""

    def __init__(self, tag):
        super().__init__('loop-carried element %r' % (tag,))
        self.tag = tag


# ---------------------------------------------------------------- the loop engine

class Loop:
    def __init__(self, I, n, bind, body, line):
        self.I = I
        self.n = P(n)
        self.bind = bind
        self.body_ = body
        self.line = line
        self.frames = list(I.frames)
        self.start = I.snapshot()
        self.M = {}            # loc -> None (unsolved) or closed form function k -> frozen
        self.ph = {}           # loc -> (placeholder frozen, tag atoms)
        self.init = {}
        self.kind = {}
        self.region = {}
        self.k_extra = []
        self.trip = None
        self.semi = {}
        self.unfold = {}
        self.points = {}
        self.ref_same = {}

    # -- state

    def loc_value(self, loc, st):
        """frozen value of a location in a snapshot"""
        I = self.I
        heap, envs = st[0], st[1]
        if loc[0] == 'var':
            fi = loc[1]
            v = envs[fi].get(loc[2], None) if loc[2] in envs[fi] else MISSING
            if v is MISSING:
                return ('val', MISSING)
            return self.freeze_in(v, heap)
        return self.content(heap[loc[1]], heap)

    def content(self, c, heap):
        if isinstance(c, View):
            h0 = self.I.heap
            self.I.heap = heap
            try:
                r = Ref_arr(self.I, c)
            finally:
                self.I.heap = h0
            return ('arr', r)
        if isinstance(c, Arr):
            return ('arr', c)
        if isinstance(c, (PyList, SymList)):
            return ('list', c)
        if isinstance(c, (PyDict, Inst)):
            return ('comp', c)
        return ('obj', c)

    def freeze_in(self, v, heap):
        if isinstance(v, (ArrRef, ListRef)):
            return self.content(heap[v], heap)
        return ('val', v)

    def install(self, state):
        I = self.I
        for loc, f in state.items():
            if loc[0] == 'var':
                env = self.frames[loc[1]].env
                if f is None or f == ('val', MISSING):
                    env.pop(loc[2], None)
                else:
                    env[loc[2]] = thaw(I, f)
            else:
                if f is not None:
                    I.heap[loc[1]] = f[1]

    def state_at(self, k):
        out = {}
        for loc in self.M:
            c = self.M[loc]
            if c is not None:
                out[loc] = c(P(k))
            else:
                out[loc] = self.semi[loc](P(k)) if loc in self.semi else self.ph[loc][0]
        return out

    def run_body(self, state, k, assume=()):
        I = self.I
        s0 = I.snapshot()
        I.restore(self.start)
        pc0 = self.start[2]
        I.pc = pc0.extend(le(0, k), lt(k, self.n), *assume)
        I.pc = I.pc.extend(*[f(k) for f in self.k_extra])
        base = I.pc
        self.base_pc = base

        def thunk():
            self.install(state)
            self.bind(k)
            self.body_()
        I.loop_depth += 1
        try:
            outs = I.explore(thunk)
        finally:
            I.loop_depth -= 1
            I.restore(s0)
        res = []
        for kind, v, pc, st, w in outs:
            delta = and_(*[c for c in pc.conds if c not in base.set and not I.is_derived(c, pc)])
            res.append(Path(kind, v, pc, st, w, delta))
        return res

    # -- discovery

    def changed(self, paths):
        out = []
        h0, e0 = self.start[0], self.start[1]
        for p in paths:
            if p.kind not in ('normal', 'continue'):
                continue
            h1, e1 = p.st[0], p.st[1]
            for i in range(len(self.frames)):
                a, b = e0[i], e1[i]
                for name, v in b.items():
                    l = ('var', i, name)
                    if l in self.M or l in out:
                        continue
                    if name not in a or not (a[name] is v or self.I.same(a[name], v)):
                        out.append(l)
            for r, c in h0.items():
                l = ('ref', r)
                if l in self.M or l in out:
                    continue
                if h1.get(r) is not c:
                    if isinstance(c, View) and isinstance(h1.get(r), View):
                        continue
                    out.append(l)
        return out

    def add_loc(self, loc, paths):
        I = self.I
        f = self.loc_value(loc, self.start)
        self.init[loc] = f
        self.M[loc] = None
        news = [self.loc_value(loc, p.st) for p in paths if p.kind in ('normal', 'continue')]
        self.ph[loc] = self.placeholder(loc, f, news)

    def placeholder(self, loc, f, news):
        name = loc[2] if loc[0] == 'var' else 'ref%d' % loc[1].id
        tag = fresh('ph_' + str(name), sort='r')
        ta = single_atom(tag)
        if f[0] == 'val':
            v = f[1]
            if v is MISSING:
                return (('val', UNB), frozenset([ta]))
            I = self.I
            if isinstance(v, (bool, SBool)) and all(isinstance(x[1], (bool, SBool)) for x in news):
                return (('val', SBool(T.pred('phb', tag))), frozenset([ta]))
            if I.is_number(v) and all(x[0] == 'val' and I.is_number(x[1]) for x in news):
                tys = {I.numty(v)} | {I.numty(x[1]) for x in news}
                ty = 'complex' if 'complex' in tys else 'float' if 'float' in tys else 'int'
                tag = fresh('ph_' + str(name), sort={'int': 'i', 'float': 'r', 'complex': 'c'}[ty])
                return (('val', Num(tag, ty)), frozenset([single_atom(tag)]))
            return (('val', UNB), frozenset([ta]))
        if f[0] == 'arr':
            A = f[1]
            dts = {A.dtype} | {x[1].dtype for x in news if x[0] == 'arr'}
            dt = N.join_dt(list(dts)) if 'O' not in dts else 'O'
            if A.shape and A.shape[0].is_zero and len(A.shape) == 1:
                nd = [x[1].dtype for x in news if x[0] == 'arr']
                dt = N.join_dt(nd) if nd and 'O' not in nd else dt
            shape = list(A.shape)
            tags = {ta}
            for x in news:
                if x[0] != 'arr' or x[1].ndim != len(shape):
                    return (('val', UNB), frozenset([ta])) if loc[0] == 'var' else (f, frozenset([ta]))
                for d in range(len(shape)):
                    if shape[d] is not x[1].shape[d] and not prover.prove_eq(shape[d], x[1].shape[d], self.base_pc):
                        lv = fresh('phlen', nonneg=True)
                        shape[d] = lv
                        tags.add(single_atom(lv))
            return (('arr', ph_arr(shape, dt, tag)), frozenset(tags))
        if f[0] == 'list':
            lv = fresh('phlen', nonneg=True)

            def at(i):
                raise Poison(ta)
            return (('list', SymList(lv, at, {'ph': loc}, f[1].kind)), frozenset([ta, single_atom(lv)]))
        if f[0] == 'comp':
            raise Unsupported('dictionary or object modified in a symbolic loop (line %d)' % self.line)
        raise Unsupported('model object modified in a symbolic loop (line %d)' % self.line)

    # -- solving

    def tags(self):
        out = frozenset()
        for l, c in self.M.items():
            if c is None:
                out |= self.ph[l][1]
        return out

    def solve(self):
        I = self.I
        k = fresh('k')
        paths = self.run_body({}, k)
        for rnd in range(8):
            new = self.changed(paths)
            if not new:
                break
            for l in new:
                self.add_loc(l, paths)
            k = fresh('k')
            paths = self.run_body(self.state_at(k), k)
        else:
            raise Unsupported('loop state does not stabilise (line %d)' % self.line)
        self.retype(paths)
        self.k_last = k
        for rnd in range(12):
            progress = False
            self.round_tags = self.tags()       # placeholders the paths of this round may mention
            for l in list(self.M):
                if self.M[l] is None and self.try_close(l, paths, k):
                    progress = True
            if all(c is not None for c in self.M.values()):
                break
            if not progress:
                if not self.drop_unsolved(paths):
                    break
                break
            k = self.k_last = fresh('k')
            paths = self.run_body(self.state_at(k), k)
        uns = [l for l, c in self.M.items() if c is None]
        for l in uns:
            if l[0] == 'ref':
                raise Unsupported('no loop invariant found for %s (line %d)' % (self.name(l), self.line))
            # unknown but possibly dead afterwards
            self.M[l] = lambda kk: ('val', UNB)
            self.kind[l] = 'unknown'

    def drop_unsolved(self, paths):
        """arrays whose written positions do not depend on the loop state: after the loop every position outside
        the written ones has its old value, the written ones hold values nothing is claimed about"""
        for l in [l for l, c in self.M.items() if c is None and l[0] == 'ref']:
            self.close_scatter(l, paths)
        return False

    def close_scatter(self, loc, paths):
        if self.init[loc][0] != 'arr':
            return
        A0 = self.init[loc][1]
        tags = self.tags()
        if A0.dtype not in 'if' or A0.ndim != 1:
            return
        k = self.k_last
        ka = single_atom(k)
        spots = []
        for p in self.normal(paths):
            if p.delta.fv & tags:
                return
            for w in p.writes:
                if w[0] is loc[1]:
                    if w[1] is None or len(w[1]) != 1 or w[1][0][0] != 'pt' or w[1][0][1].fv & tags:
                        return
                    c = and_(p.delta, eq(w[1][0][1], var('$pos', 'i')))
                    spots.append(c)
        hit = or_(*spots)
        pos = single_atom(var('$pos', 'i'))
        new = fresh('scatter', sort=A0.dtype == 'i' and 'i' or 'r')

        def c(kk):
            def f(ix):
                z = fresh('z')
                lam = T.mk_lam([z], T.subst(hit, {ka: z, pos: ix[0]}))
                return gite(T.exists_(kk, lam), T.fn('written', new, ix[0], kk, sort=A0.dtype == 'i' and 'i' or 'r'), A0.at(ix[0]))
            return ('arr', Arr(A0.shape, f, A0.dtype))
        self.M[loc] = c
        self.kind[loc] = 'scatter'

    def retype(self, paths):
        pass

    def name(self, l):
        return l[2] if l[0] == 'var' else 'object #%d' % l[1].id

    def normal(self, paths):
        return [p for p in paths if p.kind in ('normal', 'continue')]

    def merge_terms(self, paths, f):
        """ite over path conditions of term-valued f(path)"""
        ps = self.normal(paths)
        if not ps:
            raise Unsupported('loop body never completes (line %d)' % self.line)
        vals = [f(p) for p in ps]
        r = vals[-1]
        for p, v in zip(reversed(ps[:-1]), reversed(vals[:-1])):
            if v is r:
                continue
            if isinstance(v, Cond) and isinstance(r, Cond):
                r = cite(p.delta, v, r)
            else:
                r = ite(p.delta, N.as_poly(v), N.as_poly(r))
        return r

    def simp(self, t):
        return prover.simp(t, self.base_pc) if isinstance(t, Poly) else prover.simp_cond(t, self.base_pc)

    def try_close(self, loc, paths, k):
        I = self.I
        ps = self.normal(paths)
        if not ps:
            raise Unsupported('loop body never completes (line %d)' % self.line)
        ka = single_atom(k)
        vals = [self.loc_value(loc, p.st) for p in ps]
        init = self.init[loc]
        own = self.ph[loc][1]
        tags = self.round_tags
        kinds = {v[0] for v in vals}
        if kinds == {'val'} and all(I.is_number(v[1]) for v in vals):
            return self.close_scalar(loc, ps, vals, k, own, tags)
        if kinds == {'arr'}:
            if loc[0] == 'ref' and self.close_region(loc, ps, k, tags):
                return True
            return self.close_array(loc, ps, vals, k, own, tags)
        if kinds == {'list'}:
            return self.close_list(loc, ps, vals, k, own, tags)
        # anything else: overwritten each iteration
        return self.close_overwrite(loc, ps, vals, k, own, tags)

    def close_overwrite(self, loc, ps, vals, k, own, tags):
        I = self.I
        if loc[0] == 'ref':
            return False
        if any(isinstance(v[1], (ObjRef, DictRef, InstRef)) and v[1] not in self.start[0] for v in vals):
            # an object made inside the loop: its name is not usable after it
            self.M[loc] = lambda kk: init_or_unb(self.init[loc], kk)
            self.kind[loc] = 'unknown'
            return True
        for v in vals:
            if fv_val(v[1]) & tags:
                return False
        ka = single_atom(k)
        init = self.init[loc]
        if len(vals) == 1 or all(v[1] is vals[0][1] or I.same(v[1], vals[0][1]) for v in vals):
            v0 = vals[0]

            def c(kk):
                if kk.is_zero:
                    return init
                d = prover.decide(I.pc, le(1, kk))
                if d is True:
                    return self.subst_frozen(v0, {ka: kk - 1})
                return ('val', UNB)
            self.M[loc] = c
            self.kind[loc] = 'overwrite'
            return True
        # several paths: choose by path condition when read
        def c2(kk):
            if kk.is_zero:
                return init
            d = prover.decide(I.pc, le(1, kk))
            if d is not True:
                return ('val', UNB)
            for p, v in zip(ps, vals):
                c = T.subst(p.delta, {ka: kk - 1})
                dd = prover.decide(I.pc, c)
                if dd is True:
                    return self.subst_frozen(v, {ka: kk - 1})
            return ('val', UNB)
        self.M[loc] = c2
        self.kind[loc] = 'overwrite'
        return True

    def subst_frozen(self, f, mp):
        if f[0] == 'val':
            return ('val', subst_val(f[1], mp))
        if f[0] == 'arr':
            return ('arr', subst_arr(f[1], mp))
        if f[0] == 'list':
            return ('list', subst_list(f[1], mp))
        return f

    def close_scalar(self, loc, ps, vals, k, own, tags):
        I = self.I
        ka = single_atom(k)
        init = self.init[loc]
        boolean = all(isinstance(v[1], (bool, SBool)) for v in vals)
        if boolean:
            new = self.merge_terms(ps, lambda p: I.cond(self.loc_value(loc, p.st)[1]))
            new = self.simp(new)
            if not (new.fv & tags):
                def c(kk):
                    b = T.subst(new, {ka: kk - 1})
                    if init[1] is MISSING or not isinstance(init[1], (bool, SBool)):
                        return ('val', mk_bool(b)) if prover.decide(I.pc, le(1, kk)) is True else init if kk.is_zero else ('val', UNB)
                    return ('val', mk_bool(cite(le(1, kk), b, I.cond(init[1]))))
                self.M[loc] = c
                self.kind[loc] = 'overwrite'
                return True
            ph = self.ph[loc][0][1]
            if isinstance(ph, SBool) and new.fv & tags <= own:
                # flag = flag or c  /  flag = flag and c
                on = subst_cond(new, ph.cond, TRUE)
                off = subst_cond(new, ph.cond, FALSE)
                i0 = I.cond(init[1])
                if on is TRUE and not (off.fv & own):
                    self.M[loc] = lambda kk: ('val', mk_bool(or_(i0, T.exists_(kk, lambda j: T.subst(off, {ka: j})))))
                    self.kind[loc] = 'or-fold'
                    return True
                if off is FALSE and not (on.fv & own):
                    self.M[loc] = lambda kk: ('val', mk_bool(and_(i0, not_(T.exists_(kk, lambda j: not_(T.subst(on, {ka: j})))))))
                    self.kind[loc] = 'and-fold'
                    return True
            return False
        tys = [I.numty(v[1]) for v in vals]
        ty = 'complex' if 'complex' in tys else 'float' if 'float' in tys else 'int'
        new = self.simp(self.merge_terms(ps, lambda p: I.poly(self.loc_value(loc, p.st)[1])))
        if not (new.fv & own):
            if new.fv & tags:
                return False

            def c(kk):
                b = T.subst(new, {ka: kk - 1})
                if init[0] != 'val' or init[1] is MISSING or not I.is_number(init[1]):
                    if kk.is_zero:
                        return init
                    return ('val', mk_num(b, ty)) if prover.decide(I.pc, le(1, kk)) is True else ('val', UNB)
                if kk.is_zero:
                    return init
                if prover.decide(I.pc, le(1, kk)) is True:
                    return ('val', mk_num(b, ty))
                t2 = ty if I.numty(init[1]) == ty else 'float'
                return ('val', mk_num(ite(le(1, kk), b, I.poly(init[1])), t2))
            self.M[loc] = c
            self.kind[loc] = 'overwrite'
            return True
        ph = self.ph[loc][0][1]
        if not isinstance(ph, Num) or init[0] != 'val' or not I.is_number(init[1]):
            return False
        p0 = ph.poly
        i0 = I.poly(init[1])
        d = self.simp(self.merge_terms(ps, lambda p: I.poly(self.loc_value(loc, p.st)[1]) - p0))
        if not (d.fv & tags):
            if ka in d.fv:
                f = lambda kk: ('val', mk_num(i0 + sum_(0, kk, lambda j: T.subst(d, {ka: j})), ph.ty))
            else:
                f = lambda kk: ('val', mk_num(i0 + kk * d, ph.ty))
            self.M[loc] = f
            self.kind[loc] = 'sum'
            return True
        if d.fv & tags <= own:
            r = self.simp(self.merge_terms(ps, lambda p: I.poly(self.loc_value(loc, p.st)[1]) / p0))
            if not (r.fv & tags):
                self.M[loc] = lambda kk: ('val', mk_num(i0 * N.prod_(ZERO, kk, lambda j: T.subst(r, {ka: j})), ph.ty))
                self.kind[loc] = 'product'
                return True
            r = self.fold_extreme(loc, new, p0, own, ka)
            if r is not None:
                name, e = r
                self.M[loc] = lambda kk: ('val', mk_num(self.extreme_term(name, i0, kk, e, ka), ph.ty))
                self.kind[loc] = name + '-fold'
                return True
        return False

    def fold_extreme(self, loc, new, p0, own, ka):
        return None

    def extreme_term(self, name, i0, kk, e, ka):
        raise Unsupported('extreme fold')

    # -- arrays

    def merged_arr_at(self, ps, loc, ix):
        return self.merge_terms(ps, lambda p: self.loc_value(loc, p.st)[1].at(*ix))

    def close_region(self, loc, ps, k, tags):
        """in-place writes at a point moving with k"""
        I = self.I
        ref = loc[1]
        ka = single_atom(k)
        entries = []
        for p in ps:
            for w in p.writes:
                if w[0] is ref:
                    if w[1] is None:
                        return False
                    if w[1] not in entries:
                        entries.append(w[1])
        if not entries:
            return False
        A0 = self.init[loc][1]
        nd = A0.ndim
        # the moving dimension
        pick = None
        for d in range(nd):
            p = entries[0][d][1] if entries[0][d][0] == 'pt' else None
            if p is None or ka not in p.fv or p.fv & tags:
                continue
            a = coef_of(p, ka)
            if a is None or not a.is_const or a.const not in (1, -1):
                continue
            if all(e[d][0] == 'pt' and (e[d][1] is p or prover.prove_eq(e[d][1], p, self.base_pc)) for e in entries):
                pick = (d, p, int(a.const))
                break
        if pick is None:
            return False
        d, p, a = pick
        b = p - a * k
        for e in entries:
            for q in range(nd):
                if q != d:
                    for t in e[q][1:]:
                        if isinstance(t, Poly) and t.fv & tags:
                            return False

        def jof(i):
            return (i - b) * a

        def inreg(ix, j):
            alts = []
            for e in entries:
                cs = []
                for q in range(nd):
                    if q == d:
                        continue
                    s = e[q]
                    if s[0] == 'pt':
                        cs.append(eq(ix[q], T.subst(s[1], {ka: j})))
                    else:
                        lo, ln, st = T.subst(s[1], {ka: j}), T.subst(s[2], {ka: j}), s[3]
                        if lo.is_zero and st == 1 and ln is A0.shape[q]:
                            continue
                        if st == 1:
                            v = ix[q] - lo
                        elif st == -1:
                            v = lo - ix[q]
                        else:
                            raise Unsupported('strided write in a loop')
                        cs += [le(0, v), lt(v, ln)]
                alts.append(and_(*cs))
            return or_(*alts)
        obj = A0.dtype == 'O'
        # first pass: install a semi-closed content (unwritten part = initial)
        if loc not in self.semi:
            phA = self.ph[loc][0][1]
            tag = self.ph[loc][1]

            def semi(kk):
                def f(ix):
                    j = jof(ix[d])
                    c = and_(le(0, j), lt(j, kk), inreg(ix, j))
                    if c is FALSE:
                        return A0.at(*ix)
                    if obj:
                        dd = prover.decide(I.pc, c)
                        if dd is False:
                            return A0.at(*ix)
                        raise Poison(next(iter(tag)))
                    x, y = phA.at(*ix), A0.at(*ix)
                    return cite(c, x, y) if isinstance(y, Cond) else ite(c, x, y)
                return ('arr', Arr(A0.shape, f, A0.dtype))
            self.semi[loc] = semi
            self.region_src = getattr(self, 'region_src', {})
            return 'semi'
        # value written: content of the slab at iteration k
        zs = [fresh('z') for _ in range(nd)]
        at_k = list(zs)
        at_k[d] = p
        if not obj:
            e = self.merge_terms(ps, lambda q: self.loc_value(loc, q.st)[1].at(*at_k))
            dom = []
            for q in range(nd):
                if q != d:
                    dom += [le(0, zs[q]), lt(zs[q], A0.shape[q])]
            pc = self.base_pc.extend(inreg(at_k, k), *dom)
            e = prover.simp(e, pc) if isinstance(e, Poly) else prover.simp_cond(e, pc)
            if e.fv & tags:
                return False
            zsa = [single_atom(z) for z in zs]

            def val(ix):
                j = jof(ix[d])
                # simultaneous substitution through fresh names
                fr = [fresh('y') for _ in ix]
                t = T.subst(e, {za: f for za, f, q in zip(zsa, fr, range(nd)) if q != d})
                jv = fresh('y')
                t = T.subst(t, {ka: jv})
                mp = {single_atom(f): x for f, x in zip(fr, ix)}
                mp[single_atom(jv)] = j
                return T.subst(t, mp)
        else:
            # object elements: evaluate path by path when read
            probe_ok = True
            for q in ps:
                I2pc = I.pc
                s0 = I.snapshot()
                try:
                    I.restore(self.start)
                    I.pc = q.pc
                    x = self.loc_value(loc, q.st)[1].at(*at_k)
                    if fv_val(x) & tags:
                        return False
                finally:
                    I.restore(s0)
                    I.pc = I2pc

            def val(ix):
                j = jof(ix[d])
                live = []
                for q in ps:
                    c = T.subst(q.delta, {ka: j})
                    dd = prover.decide(I.pc, c)
                    if dd is True:
                        live = [(TRUE, q)]
                        break
                    if dd is None:
                        live.append((c, q))
                out = None
                for c, q in reversed(live):
                    pc0 = I.pc
                    try:
                        I.pc = q.pc
                        y = self.loc_value(loc, q.st)[1].at(*[p if t == d else ix[t] for t in range(nd)])
                    finally:
                        I.pc = pc0
                    y = subst_val(y, {ka: j})
                    out = y if out is None else I.merge_obj(c, y, out)
                return out

        def closed(kk):
            def f(ix):
                j = jof(ix[d])
                c = and_(le(0, j), lt(j, kk), inreg(ix, j))
                if c is FALSE:
                    return A0.at(*ix)
                if obj:
                    dd = prover.decide(I.pc, c)
                    if dd is True:
                        return val(ix)
                    if dd is False:
                        return A0.at(*ix)
                    return I.merge_obj(c, val(ix), A0.at(*ix))
                v = val(ix)
                o = A0.at(*ix)
                if c is TRUE:
                    return v
                if isinstance(o, Cond):
                    return cite(c, v, o)
                return ite(c, N.as_poly(v), o)
            return ('arr', Arr(A0.shape, f, A0.dtype))
        self.M[loc] = closed
        self.kind[loc] = 'region'
        self.points[loc] = lambda kk: (d, T.subst(p, {ka: P(kk)}))
        # summary for an enclosing loop
        summ = None
        if len(entries) == 1:
            ent = list(entries[0])
            if all(not (isinstance(t, Poly) and ka in t.fv) for q in range(nd) if q != d for t in ent[q][1:]):
                lo = T.subst(p, {ka: ZERO}) if a == 1 else T.subst(p, {ka: self.n - 1})
                ent[d] = ('rng', lo, self.n, 1)
                summ = tuple(ent)
        self.region[loc] = summ
        return True

    def close_array(self, loc, ps, vals, k, own, tags):
        I = self.I
        ka = single_atom(k)
        init = self.init[loc]
        phf = self.ph[loc][0]
        if init[0] != 'arr' or phf[0] != 'arr':
            # overwritten array variable
            return self.close_array_overwrite(loc, ps, vals, k, tags)
        A0, PH = init[1], phf[1]
        nd = PH.ndim
        if any(v[1].ndim != nd for v in vals):
            return self.close_array_overwrite(loc, ps, vals, k, tags)
        dt = PH.dtype
        if dt == 'O':
            return self.close_array_overwrite(loc, ps, vals, k, tags)
        same = all(all(x is y or prover.prove_eq(x, y, self.base_pc) for x, y in zip(v[1].shape, PH.shape)) for v in vals)
        if same and not any(s.fv & tags for s in PH.shape):
            zs = [fresh('z') for _ in range(nd)]
            zsa = [single_atom(z) for z in zs]
            dom = []
            for z, s in zip(zs, PH.shape):
                dom += [le(0, z), lt(z, s)]
            pc = self.base_pc.extend(*dom)
            e = prover.simp(N.as_poly(self.merge_terms(ps, lambda p: self.loc_value(loc, p.st)[1].at(*zs))), pc) \
                if dt != 'b' else self.merge_terms(ps, lambda p: self.loc_value(loc, p.st)[1].at(*zs))
            if not (e.fv & own):
                if e.fv & tags:
                    return False
                tmpl = lambda ix, j: sub2(e, zsa, ix, ka, j)

                def c(kk):
                    if kk.is_zero:
                        return init
                    if prover.decide(I.pc, le(1, kk)) is True:
                        return ('arr', Arr(PH.shape, lambda ix: tmpl(ix, kk - 1), dt))
                    return ('arr', Arr(PH.shape, lambda ix: gite(le(1, kk), tmpl(ix, kk - 1), A0.at(*ix)), dt))
                self.M[loc] = c
                self.kind[loc] = 'overwrite'
                return True
            if dt == 'b':
                return False
            d = prover.simp(self.merge_terms(ps, lambda p: N.as_poly(self.loc_value(loc, p.st)[1].at(*zs)) - PH.at(*zs)), pc)
            if not (d.fv & tags):
                def c(kk):
                    def f(ix):
                        fr = [fresh('y') for _ in ix]
                        t = T.subst(d, {za: f2 for za, f2 in zip(zsa, fr)})
                        s = sum_(0, kk, lambda j: T.subst(t, {ka: j})) if ka in t.fv else kk * t
                        return A0.at(*ix) + T.subst(s, {single_atom(f2): x for f2, x in zip(fr, ix)})
                    return ('arr', Arr(PH.shape, f, dt))
                self.M[loc] = c
                self.kind[loc] = 'sum'
                return True
            if d.fv & tags <= own:
                r = prover.simp(self.merge_terms(ps, lambda p: N.as_poly(self.loc_value(loc, p.st)[1].at(*zs)) / PH.at(*zs)), pc)
                if not (r.fv & tags):
                    def c(kk):
                        def f(ix):
                            fr = [fresh('y') for _ in ix]
                            t = T.subst(r, {za: f2 for za, f2 in zip(zsa, fr)})
                            s = N.prod_(ZERO, kk, lambda j: T.subst(t, {ka: j}))
                            return A0.at(*ix) * T.subst(s, {single_atom(f2): x for f2, x in zip(fr, ix)})
                        return ('arr', Arr(PH.shape, f, dt))
                    self.M[loc] = c
                    self.kind[loc] = 'product'
                    return True
            if nd == 1 and self.close_shift(loc, ps, k, own, tags, A0, PH, dt):
                return True
            return False
        if nd == 1 and PH.shape[0].fv & own:
            return self.close_append(loc, ps, vals, k, own, tags, A0, PH, dt)
        return self.close_array_overwrite(loc, ps, vals, k, tags)

    def close_array_overwrite(self, loc, ps, vals, k, tags):
        I = self.I
        ka = single_atom(k)
        if loc[0] == 'ref':
            return False
        for p, v in zip(ps, vals):
            pc0 = I.pc
            I.pc = p.pc
            try:
                if fv_val(v[1]) & tags:
                    return False
            finally:
                I.pc = pc0
        init = self.init[loc]
        # merge the paths when shapes agree
        A = vals[0][1]
        if len(ps) > 1:
            if A.dtype == 'O' or any(v[1].dtype == 'O' for v in vals):
                M = None
            else:
                same = all(v[1].ndim == A.ndim and all(x is y or prover.prove_eq(x, y, self.base_pc)
                                                       for x, y in zip(v[1].shape, A.shape)) for v in vals[1:])
                if same:
                    dt = N.join_dt([v[1].dtype for v in vals])
                    M = Arr(A.shape, lambda ix: self.merge_terms(ps, lambda p: self.loc_value(loc, p.st)[1].at(*ix)), dt)
                else:
                    M = None
        else:
            M = A

        def c(kk):
            if kk.is_zero:
                return init
            if M is not None and prover.decide(I.pc, le(1, kk)) is True:
                return ('arr', subst_arr(M, {ka: kk - 1}))
            return ('val', UNB)
        self.M[loc] = c
        self.kind[loc] = 'overwrite'
        return True

    def close_shift(self, loc, ps, k, own, tags, A0, PH, dt):
        ka = single_atom(k)
        m = PH.shape[0]
        z = fresh('z')
        pc = self.base_pc.extend(le(0, z), lt(z, m - 1))
        e = prover.simp(self.merge_terms(ps, lambda p: self.loc_value(loc, p.st)[1].at(z)), pc)
        if not prover.prove_eq(e, PH.at(z + 1), pc):
            return False
        x = prover.simp(self.merge_terms(ps, lambda p: self.loc_value(loc, p.st)[1].at(m - 1)), self.base_pc)
        if x.fv & tags:
            return False

        def c(kk):
            def f(ix):
                j = kk + ix[0] - m
                return gite(le(0, j), T.subst(x, {ka: j}), A0.at(ix[0] + kk))
            return ('arr', Arr(PH.shape, f, dt))
        self.M[loc] = c
        self.kind[loc] = 'shift-register'
        return True

    def close_append(self, loc, ps, vals, k, own, tags, A0, PH, dt):
        I = self.I
        ka = single_atom(k)
        m = PH.shape[0]
        ln = self.simp(self.merge_terms(ps, lambda p: self.loc_value(loc, p.st)[1].shape[0] - m))
        if ln.fv & tags:
            return False
        if prover.decide(self.base_pc, le(0, ln)) is not True:
            return False
        z = fresh('z')
        # prefix kept
        for p in ps:
            A = self.loc_value(loc, p.st)[1]
            pc = p.pc.extend(le(0, z), lt(z, m))
            if not prover.prove_eq(prover.simp(A.at(z), pc), PH.at(z), pc):
                return False
        t = fresh('z')
        ta = single_atom(t)
        ma = single_atom(m)

        def tail(p):
            A = self.loc_value(loc, p.st)[1]
            pc = p.pc.extend(le(0, t), lt(t, A.shape[0] - m), le(0, m))
            return prover.simp(A.at(m + t), pc)
        live = [p for p in ps if not (self.loc_value(loc, p.st)[1].shape[0] - m).is_zero]
        if not live:
            self.M[loc] = lambda kk: self.init[loc]
            self.kind[loc] = 'unchanged'
            return True
        body = self.merge_terms(live, tail)
        if body.fv & tags:
            return False
        if ln.is_const:
            q = int(ln.const)

            def c(kk):
                def f(ix):
                    i = ix[0] - A0.shape[0]
                    if q == 1:
                        v = T.subst(body, {ka: i, ta: ZERO})
                    else:
                        j = T.floor(i / q)
                        v = sub2(body, [ta], (i - q * j,), ka, j)
                    if A0.shape[0].is_zero:
                        return v
                    return gite(lt(ix[0], A0.shape[0]), A0.at(ix[0]), v)
                return ('arr', Arr((A0.shape[0] + q * kk,), f, dt))
        else:
            def c(kk):
                def piece(j):
                    return Arr((T.subst(ln, {ka: j}),), lambda ix: sub2(body, [ta], ix, ka, j), dt)
                CM = N.concat_map_arr(I, kk, piece)
                if A0.shape[0].is_zero:
                    return ('arr', CM)
                return ('arr', N.concat1(I, [A0, CM]))

            def unfold(kk):
                # defining equation of the concatenation: one more piece appended
                a = c(kk)[1]
                m1 = prover.simp(T.subst(ln, {ka: kk}), I.pc)
                return ('arr', N.concat1(I, [a, Arr((m1,), lambda ix: sub2(body, [ta], ix, ka, kk), dt)]))
            self.unfold[loc] = unfold
        self.M[loc] = c
        self.kind[loc] = 'append'
        return True

    # -- lists

    def list_tail(self, c, loc):
        """appended values from the placeholder, or None"""
        out = []
        while True:
            if isinstance(c, SymList) and c.info.get('ph') == loc:
                return out[::-1]
            if isinstance(c, SymList) and 'last' in c.info:
                out.append(c.info['last'])
                c = c.info['base']
                continue
            return None

    def close_list(self, loc, ps, vals, k, own, tags):
        I = self.I
        ka = single_atom(k)
        init = self.init[loc]
        if init[0] != 'list':
            if loc[0] == 'ref':
                return False
            return self.close_overwrite_list(loc, ps, vals, k, tags)
        tails = [self.list_tail(v[1], loc) for v in vals]
        if any(t is None for t in tails):
            if loc[0] == 'var':
                return self.close_overwrite_list(loc, ps, vals, k, tags)
            return False
        for p, t in zip(ps, tails):
            for x in t:
                pc0 = I.pc
                I.pc = p.pc
                try:
                    if isinstance(x, ObjRef):
                        if fv_val(p.st[0][x]) & tags:
                            return False
                    elif fv_val(x if not isinstance(x, (ArrRef, ListRef)) else self.freeze_in(x, p.st[0])[1]) & tags:
                        return False
                finally:
                    I.pc = pc0
        L0 = init[1]
        n0 = num(len(L0.items)) if isinstance(L0, PyList) else L0.n
        lens = {len(t) for t in tails}

        def i0(i):
            return I.select_concrete(list(L0.items), i) if isinstance(L0, PyList) else L0.at(i)

        def elem(p, x, j):
            """appended value with k := j"""
            if isinstance(x, (ArrRef, ListRef)):
                return thaw(I, self.subst_frozen(self.freeze_in(x, p.st[0]), {ka: j}))
            if isinstance(x, ObjRef):
                r = ObjRef()
                I.heap[r] = p.st[0][x].subst({ka: j})
                return r
            return subst_val(x, {ka: j})

        def pick(q, j):
            """value of the q-th appended item at iteration j"""
            live = []
            for p, t in zip(ps, tails):
                if q >= len(t):
                    continue
                c = T.subst(p.delta, {ka: j})
                d = prover.decide(I.pc, c)
                if d is True:
                    return elem(p, t[q], j)
                if d is None:
                    live.append((c, p, t[q]))
            if not live:
                raise Unsupported('list element of an impossible iteration')
            r = None
            for c, p, x in reversed(live):
                y = elem(p, x, j)
                try:
                    r = y if r is None else I.merge_values(c, y, r)
                except Unsupported as e:
                    if not str(e).startswith('cannot merge'):
                        raise
                    break
            else:
                return r
            for c, p, x in live[:-1]:       # values of different kinds: decide which one it is
                if I.decide(c):
                    return elem(p, x, j)
            I.assume(live[-1][0])
            return elem(live[-1][1], live[-1][2], j)
        if lens == {0}:
            self.M[loc] = lambda kk: init
            self.kind[loc] = 'unchanged'
            return True
        if len(lens) == 1:
            q = lens.pop()

            def c(kk):
                def at(i):
                    i = i - n0
                    if not n0.is_zero:
                        d = prover.decide(I.pc, lt(i, 0))
                        if d is True:
                            return i0(i + n0)
                        if d is None:
                            j = i if q == 1 else T.floor(i / q)
                            if q == 1:
                                return I.merge_values(lt(i, 0), i0(i + n0), pick(0, i))
                            raise Unsupported('list element between initial and appended')
                    if q == 1:
                        return pick(0, i)
                    j = prover.simp(T.floor(i / q), I.pc)
                    r = prover.simp(i - q * j, I.pc)
                    if not r.is_const:
                        raise Unsupported('position within an iteration')
                    return pick(int(r.const), j)
                return ('list', SymList(n0 + q * kk, at, None, L0.kind))
            self.M[loc] = c
            self.kind[loc] = 'append'
            return True
        if lens == {0, 1}:
            hit = or_(*[p.delta for p, t in zip(ps, tails) if t])
            hit = self.simp(hit)
            if hit.fv & tags:
                return False
            z = fresh('z')
            lam = T.mk_lam([z], T.subst(hit, {ka: z}))

            def c(kk):
                cnt = sum_(0, kk, lambda j: ite(T.subst(hit, {ka: j}), ONE, ZERO))

                def at(i):
                    if not n0.is_zero:
                        raise Unsupported('filtered append to a non-empty list')
                    jj = N.nth(kk, lam, i)
                    pc0 = I.pc
                    I.pc = pc0.extend(T.subst(hit, {ka: jj}), le(0, jj), lt(jj, kk))
                    try:
                        return pick(0, jj)
                    finally:
                        I.pc = pc0
                return ('list', SymList(n0 + cnt, at, {'filter': (kk, lam)}, L0.kind))
            self.M[loc] = c
            self.kind[loc] = 'filtered-append'
            return True
        return False

    def close_overwrite_list(self, loc, ps, vals, k, tags):
        I = self.I
        ka = single_atom(k)
        for p, v in zip(ps, vals):
            pc0 = I.pc
            I.pc = p.pc
            try:
                if fv_val(v[1]) & tags:
                    return False
            except Unsupported:
                pass
            finally:
                I.pc = pc0
        init = self.init[loc]
        v0 = vals[0]

        def c(kk):
            if kk.is_zero:
                return init
            if len(vals) == 1 and prover.decide(I.pc, le(1, kk)) is True:
                try:
                    return self.subst_frozen(v0, {ka: kk - 1})
                except Unsupported:
                    pass
            return ('val', UNB)
        self.M[loc] = c
        self.kind[loc] = 'overwrite'
        return True

    # -- verification and exit

    def run(self):
        self.solve()
        return self.finish()

    def equal(self, a, b, pc, point=None):
        """frozen values equal? True/False; None when not comparable.  point: (dimension, index) to look at on its own"""
        I = self.I
        if a[0] == 'val' and b[0] == 'val':
            x, y = a[1], b[1]
            if x is y or x is UNB or y is UNB or I.same(x, y):
                return True
            if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
                return prover.prove_iff(I.cond(x), I.cond(y), pc)
            if I.is_number(x) and I.is_number(y):
                return prover.prove_eq(I.poly(x), I.poly(y), pc)
            return None
        if a[0] == 'arr' and b[0] == 'arr':
            A, B = a[1], b[1]
            if A.ndim != B.ndim:
                return False
            if not all(x is y or prover.prove_eq(x, y, pc) for x, y in zip(A.shape, B.shape)):
                return False
            if A.dtype == 'O' or B.dtype == 'O':
                return None
            zs = [fresh('z') for _ in A.shape]
            dom = []
            for z, s in zip(zs, A.shape):
                dom += [le(0, z), lt(z, s)]
            pc2 = pc.extend(*dom)
            x, y = A.at(*zs), B.at(*zs)
            if isinstance(x, Cond) and isinstance(y, Cond):
                return prover.prove_iff(x, y, pc2)
            x, y = N.as_poly(x), N.as_poly(y)
            if point is not None and A.dtype != 'b':
                d, q = point
                zs2 = list(zs)
                zs2[d] = q
                dom = [c for z, s in zip(zs2, A.shape) for c in (le(0, z), lt(z, s))]
                pc3 = pc.extend(*dom)
                if not prover.prove_eq(N.as_poly(A.at(*zs2)), N.as_poly(B.at(*zs2)), pc3):
                    return False
                pc2 = pc2.extend(not_(eq(zs[d], q)))
                return prover.prove_eq(x, y, pc2)
            return prover.prove_eq(x, y, pc2)
        return None

    def finish(self):
        from .interp import BreakEx, ContinueEx, Infeasible
        I = self.I
        k = fresh('k')
        paths = self.run_body(self.state_at(k), k)
        # nothing else may change
        extra = self.changed(paths)
        if extra:
            raise Unsupported('loop changes %s unexpectedly' % self.name(extra[0]))
        tag = 'loop@%d' % self.line
        s0 = I.snapshot()
        for loc in self.M:
            if self.kind.get(loc) in ('unknown', 'unchanged', 'scatter'):
                continue
            ok = True
            base = self.equal(self.at_pc(loc, ZERO), self.init[loc], self.start[2])
            if base is False:
                I.oblige('%s/%s/base' % (tag, self.name(loc)), False, 'S(0) is not the initial value')
                raise Unsupported('loop invariant base fails for %s (line %d)' % (self.name(loc), self.line))
            for p in self.normal(paths):
                if self.kind[loc] in ('append', 'filtered-append', 'overwrite') and loc[0] == 'var' and False:
                    continue
                pc0 = I.pc
                I.pc = p.pc
                try:
                    r = self.equal(self.loc_value(loc, p.st),
                                   self.unfold[loc](k) if loc in self.unfold else self.M[loc](k + 1), p.pc,
                                   self.points[loc](k) if loc in self.points else None)
                except Unsupported:
                    r = None
                finally:
                    I.pc = pc0
                if r is False:
                    ok = False
            I.restore(s0)
            I.oblige('%s/%s/step' % (tag, self.name(loc)), ok, self.kind[loc])
            if not ok:
                raise Unsupported('loop invariant not inductive for %s (%s, line %d)' %
                                  (self.name(loc), self.kind[loc], self.line))
        I.restore(s0)
        exits = []
        for p in paths:
            if p.kind in ('raise', 'break', 'return'):
                if prover.contradictory(p.pc):
                    continue
                if p.kind == 'raise' and prover.prove(p.pc, FALSE):
                    continue
                exits.append(p)
        if self.trip is not None:
            pass
        # summarised writes for an enclosing loop
        for loc in self.M:
            if loc[0] == 'ref' and self.kind.get(loc) != 'unchanged':
                I.writes.append((loc[1], self.region.get(loc), None))
        if exits:
            ka = single_atom(k)
            ce = or_(*[p.delta for p in exits])
            if ce.fv & frozenset().union(*[self.ph[l][1] for l in self.M]) if self.M else False:
                raise Unsupported('loop exit condition depends on the loop state (line %d)' % self.line)
            z = fresh('z')
            lam = T.mk_lam([z], T.subst(ce, {ka: z}))
            E = T.exists_(self.n, lam)
            if I.decide(E):
                kk = N.nth(self.n, lam, ZERO)
                first = and_(le(0, kk), lt(kk, self.n), T.subst(ce, {ka: kk}), not_(T.exists_(kk, lam)))
                for c in (first.args if first.op == 'and' else (first,)):
                    I.derive(c)
                self.first_exit = (kk, lam)
                self.install(self.state_at(kk))
                self.bind(kk)
                try:
                    self.body_()
                except BreakEx:
                    return True
                except ContinueEx:
                    pass
                raise Infeasible()
        self.install(self.state_at(self.n))
        return False

    def at_pc(self, loc, k):
        return self.M[loc](P(k))


def init_or_unb(init, kk):
    return init if kk.is_zero else ('val', UNB)


class Path:
    __slots__ = ('kind', 'v', 'pc', 'st', 'writes', 'delta')

    def __init__(self, kind, v, pc, st, writes, delta):
        self.kind, self.v, self.pc, self.st, self.writes, self.delta = kind, v, pc, st, writes, delta


class _Missing:
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()




def Ref_arr(I, view):
    base = I.arr(view.base)
    return Arr(view.shape, lambda idx: base.at(*view.fwd(idx)), base.dtype)


def ph_arr(shape, dt, tag):
    if dt == 'O':
        ta = single_atom(tag)

        def f(ix):
            raise Poison(ta)
        return Arr(shape, f, 'O')
    if dt == 'b':
        return Arr(shape, lambda ix: T.pred('phb', tag, *ix), 'b')
    sort = {'i': 'i', 'f': 'r', 'c': 'c'}[dt]
    return Arr(shape, lambda ix: fn('ph', tag, *ix, sort=sort), dt)


def gite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Cond) and isinstance(b, Cond):
        return cite(c, a, b)
    return ite(c, N.as_poly(a), N.as_poly(b))


def sub2(e, zsa, ix, ka, j):
    """simultaneous substitution z := ix, k := j"""
    fr = [fresh('y') for _ in ix]
    jv = fresh('y')
    mp = {za: f for za, f in zip(zsa, fr)}
    mp[ka] = jv
    t = T.subst(e, mp)
    mp = {single_atom(f): P(x) for f, x in zip(fr, ix)}
    mp[single_atom(jv)] = P(j)
    return T.subst(t, mp)


def subst_arr(A, mp):
    if A.dtype == 'O':
        return Arr(tuple(T.subst(s, mp) for s in A.shape), lambda ix: subst_val(A.at(*ix), mp), 'O', subst_info(A.info, mp))
    return subst_val(A, mp)


def subst_list(L, mp):
    if isinstance(L, PyList):
        out = []
        for x in L.items:
            if isinstance(x, Ref):
                if fv_val(x):
                    pass
                raise Unsupported('reference inside a loop-carried list')
            out.append(subst_val(x, mp))
        return PyList(out, L.kind)
    return SymList(T.subst(L.n, mp), lambda i: subst_val(L.at(i), mp), None, L.kind)


def subst_cond(c, atom, val):
    """replace an atomic condition"""
    if c is atom:
        return val
    if c.op == 'not':
        return not_(subst_cond(c.args[0], atom, val))
    if c.op == 'and':
        return and_(*[subst_cond(x, atom, val) for x in c.args])
    if c.op == 'or':
        return or_(*[subst_cond(x, atom, val) for x in c.args])
    return c


# ---------------------------------------------------------------- comprehensions

def comprehension(I, e, fr, kind):
    from .interp import Frame
    gens = e.generators
    child = Frame({}, fr.module, fr)
    for a in ('globals_', 'nonlocals'):
        if hasattr(fr, a):
            setattr(child, a, getattr(fr, a))
    g0 = gens[0]
    it = I.iterate(I.eval(g0.iter, fr))
    if isinstance(it, list) or len(gens) > 1:
        out = []
        d = {}

        def go(gi, its):
            g = gens[gi]
            items = its if its is not None else I.iterate(I.eval(g.iter, child))
            if not isinstance(items, list):
                raise Unsupported('nested symbolic comprehension')
            for x in items:
                I.assign(g.target, x, child)
                ok = True
                for c in g.ifs:
                    if not I.decide(I.truth(I.eval(c, child))):
                        ok = False
                        break
                if not ok:
                    continue
                if gi + 1 < len(gens):
                    go(gi + 1, None)
                elif kind == 'dict':
                    d[I.key(I.eval(e.key, child))] = I.eval(e.value, child)
                else:
                    out.append(I.eval(e.elt, child))
        I.frames.append(child)
        try:
            go(0, it if isinstance(it, list) else None)
        finally:
            I.frames.remove(child)
        if kind == 'dict':
            return I.new_dict(d)
        if kind == 'set':
            return I.bm.t_set(I, [I.new_list(out)], {})
        return I.new_list(out)
    if kind in ('dict', 'set'):
        raise Unsupported('symbolic %s comprehension' % kind)

    def f(x):
        ch = Frame(dict(child.env), fr.module, fr2)
        I.frames.append(ch)
        try:
            I.assign(g0.target, x, ch)
            return I.eval(e.elt, ch)
        finally:
            if ch in I.frames:
                I.frames.remove(ch)

    def cond(x):
        ch = Frame(dict(child.env), fr.module, fr2)
        I.frames.append(ch)
        try:
            I.assign(g0.target, x, ch)
            acc = TRUE
            for c in g0.ifs:
                acc = and_(acc, I.cond(I.truth(I.eval(c, ch))))
            return acc
        finally:
            if ch in I.frames:
                I.frames.remove(ch)
    fr2 = copy_frame(fr)

    def as_loop():
        """the comprehension as the loop it abbreviates, or None"""
        ch = Frame(dict(child.env), fr.module, fr2)
        acc = ch.env['.acc'] = I.new_list([])
        call = ast.Call(ast.Attribute(ast.Name('.acc', ast.Load()), 'append', ast.Load()), [e.elt], [])
        body = ast.Expr(call)
        for c in reversed(g0.ifs):
            body = ast.If(c, [body], [])
        ast.copy_location(body, e)
        ast.fix_missing_locations(body)
        s0 = I.snapshot()
        I.frames.append(ch)
        try:
            Loop(I, prover.simp(it.n, I.pc), lambda k: I.assign(g0.target, it.at(k), ch), lambda: I.exec_block([body], ch), e.lineno).run()
            return acc
        except Unsupported:
            I.restore(s0)
            return None
        finally:
            if ch in I.frames:
                I.frames.remove(ch)
    return sym_map(I, it, f, cond if g0.ifs else None, as_loop)


def copy_frame(fr):
    from .interp import Frame
    if fr.parent is None and fr.env is fr.module.attrs:
        return fr
    n = Frame(dict(fr.env), fr.module, copy_frame(fr.parent) if fr.parent is not None else None)
    for a in ('globals_', 'nonlocals', 'is_class'):
        if hasattr(fr, a):
            setattr(n, a, getattr(fr, a))
    return n


def sym_map(I, it, f, cond=None, as_loop=None):
    """list [f(x) for x in it if cond(x)] over a symbolic iterable"""
    n = it.n
    k = fresh('k')
    ka = single_atom(k)
    h0 = dict(I.heap)
    pcb = I.pc
    s0 = I.snapshot()
    filt = None
    I.pc = pcb.extend(le(0, k), lt(k, n))
    base = I.pc
    if cond is not None:
        outs = I.explore(lambda: cond(it.at(k)))
        if any(o[0] != 'normal' for o in outs):
            I.restore(s0)
            raise Unsupported('comprehension filter may raise')
        filt = FALSE
        for kd, v, pc, st, w in outs:
            delta = and_(*[c for c in pc.conds if c not in base.set])
            filt = or_(filt, and_(delta, v))
        filt = prover.simp_cond(filt, base)
        I.pc = base.extend(filt)
    base2 = I.pc
    outs = I.explore(lambda: f(it.at(k)))
    I.restore(s0)
    I.pc = pcb
    bad = []
    good = []
    for kd, v, pc, st, w in outs:
        delta = and_(*[c for c in pc.conds if c not in base2.set])
        for r, c in h0.items():
            if st[0].get(r) is not c and not isinstance(c, View):
                raise Unsupported('comprehension with side effects')
        if kd == 'raise':
            if not prover.contradictory(pc):
                bad.append((delta, v))
        else:
            good.append((delta, v, st, pc))
    if bad:
        ce = or_(*[d for d, _ in bad])
        if filt is not None:
            ce = and_(filt, ce)
        E = T.exists_(n, lambda j: T.subst(ce, {ka: j}))
        if I.decide(E):
            raise bad[0][1]
    if not good:
        raise Unsupported('comprehension body never completes')
    if all(I.is_number(v) or isinstance(v, (bool, SBool)) for _, v, _, _ in good):
        v = good[-1][1]
        for d, v2, _, _ in reversed(good[:-1]):
            v = I.merge_values(d, v2, v)
        elem = lambda j: subst_val(v, {ka: j})
    elif len(good) == 1 and not isinstance(good[0][1], Ref) and substable(good[0][1]):
        v = good[0][1]
        elem = lambda j: subst_val(v, {ka: j})
    elif len(good) == 1 and isinstance(good[0][1], ArrRef):
        h1 = good[0][2][0]
        hs = I.heap
        I.heap = h1
        A = I.arr(good[0][1])
        I.heap = hs
        elem = lambda j: I.new_arr(subst_arr(A, {ka: j}))
    else:
        v = merged(I, good, base2)
        if v is not None:
            elem = lambda j: subst_val(v, {ka: j})
        else:
            r = as_loop() if as_loop is not None and len(good) > 1 else None
            if r is not None:
                return r

            def elem(j):
                # evaluated in the state the list was made in
                hs = I.heap
                I.heap = dict(h0)
                try:
                    r = f(it.at(j))
                    new = {x: c for x, c in I.heap.items() if x not in h0}
                finally:
                    I.heap = hs
                I.heap.update(new)
                return r
    if filt is None:
        return I.new_symlist(n, elem)
    z = fresh('z')
    lam = T.mk_lam([z], T.subst(filt, {ka: z}))
    cnt = sum_(0, n, lambda j: ite(T.subst(filt, {ka: j}), ONE, ZERO))

    def at(i):
        jj = N.nth(n, lam, P(i))
        I.pc = I.pc.extend(T.subst(filt, {ka: jj}), le(0, jj), lt(jj, n))
        return elem(jj)
    return I.new_symlist(cnt, at, {'filter': (n, lam)})


def merged(I, good, pc):
    """one value for several outcomes of a pure body, when they can be merged without further case distinctions"""
    if not all(substable(v) and not isinstance(v, Ref) for _, v, _, _ in good):
        return None
    pc0 = I.pc
    I.pc = pc
    try:
        v = good[-1][1]
        for d, v2, _, _ in reversed(good[:-1]):
            v = I.merge_values(d, v2, v)
        return v
    except Unsupported:
        return None
    finally:
        I.pc = pc0


def substable(v):
    if isinstance(v, (int, str, type(None), Num, SBool)):
        return True
    if isinstance(v, tuple):
        return all(substable(x) for x in v)
    return hasattr(v, 'subst')
