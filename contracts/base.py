"""Contract runner: symbolic call of a real function, then its postconditions.

A contract is   requires (build)  /  ensures (post)  /  frame  /  raises.
Every clause becomes one named obligation per execution path."""
import time
import traceback
from contextlib import contextmanager
from engine.interp import Interp
from engine.terms import *
from engine import terms as T
from engine import prover
from engine import npmodel as N
from engine.values import *


class Broken(Exception):
    """obligation failed; the rest of the contract is not evaluated"""


class Post:
    """obligations of one path"""

    def __init__(self, C, I, label, k, pc):
        self.C, self.I, self.label, self.k = C, I, label, k
        self.neg_done = 0

    # -- clauses
    def ob(self, name, ok, detail=''):
        self.C.add('%s/path%d/%s' % (self.label, self.k, name), ok, detail)
        return ok

    @contextmanager
    def under(self, pc):
        """evaluate where pc holds (element reads of object arrays)"""
        old, self.I.pc = self.I.pc, pc
        try:
            yield
        finally:
            self.I.pc = old

    def eq(self, name, a, b, pc=None):
        I = self.I
        pc = pc or I.pc
        prover.LAST_FAIL.clear()
        a, b = T.P(a), T.P(b)
        ok = prover.prove_eq(a, b, pc)
        self.ob(name, ok, '' if ok else self.explain(a, b, pc))
        if ok and self.neg_done < 2:
            self.neg_done += 1
            self.C.negative('%s/path%d/%s' % (self.label, self.k, name),
                            prover.prove_eq(a, b + 1, pc))
        return ok

    def iff(self, name, a, b, pc=None):
        pc = pc or self.I.pc
        ok = prover.prove_iff(a, b, pc)
        self.ob(name, ok, '' if ok else 'not equivalent under path condition:\n  %r\n  %r\n  path: %r' % (a, b, pc))
        if ok and self.neg_done < 2:
            self.neg_done += 1
            self.C.negative('%s/path%d/%s' % (self.label, self.k, name),
                            prover.prove_iff(a, not_(b), pc))
        return ok

    def holds(self, name, c, pc=None):
        pc = pc or self.I.pc
        ok = prover.prove(pc, c)
        self.ob(name, ok, '' if ok else 'not provable: %r\n  path: %r' % (c, pc))
        return ok

    def explain(self, a, b, pc):
        s = 'cannot prove\n  code: %r\n  spec: %r\n  path: %r' % (a, b, pc)
        if prover.LAST_FAIL:
            d, q = prover.LAST_FAIL[0]
            s += '\n  residual: %r\n  case: %r' % (d, q)
        return s[:6000]

    # -- structured
    def arr(self, name, v, shape, f, dom=None, nan=False, dtype=None):
        """v is an ndarray of this shape whose elements are f(*ix)"""
        I = self.I
        if not isinstance(v, ArrRef):
            return self.ob(name + '/type', False, 'not an ndarray: %r' % (v,))
        A = I.arr(v)
        if A.ndim != len(shape):
            return self.ob(name + '/ndim', False, 'result has %d dimensions, expected %d' % (A.ndim, len(shape)))
        ok = True
        for d, s in enumerate(shape):
            if A.shape[d] is not P_(s):
                ok = self.eq('%s/shape%d' % (name, d), A.shape[d], P_(s)) and ok
            else:
                self.ob('%s/shape%d' % (name, d), True)
        if dtype is not None:
            self.ob(name + '/dtype', A.dtype in dtype, 'dtype %s' % A.dtype)
        if not ok:
            return False
        if A.dtype == 'O':
            return self.ob(name + '/elem', False, 'object array')
        ix = [var('ix%d' % d, 'i') for d in range(A.ndim)]
        pc = I.pc
        for i, s in zip(ix, shape):
            pc = pc.extend(le(0, i), lt(i, s))
        if dom is not None:
            pc = pc.extend(dom(*ix))
        return self.eq(name + '/elem', N.as_poly(A.at(*ix)), T.P(f(*ix)), pc)

    def scalar(self, name, v, p):
        I = self.I
        if isinstance(v, ArrRef) and I.arr(v).ndim == 0:
            return self.eq(name, I.arr(v).at(), p)
        if not I.is_number(v):
            return self.ob(name + '/type', False, 'not a number: %r' % (v,))
        return self.eq(name, I.poly(v), p)

    def tuple_(self, name, v, n):
        ok = isinstance(v, tuple) and len(v) == n
        self.ob(name + '/tuple', ok, '' if ok else 'expected a tuple of %d values, got %r' % (n, v))
        if not ok:
            raise Broken()
        return v


def P_(s):
    return T.P(s)


class C:
    """one property's verification run"""

    def __init__(self, pid):
        self.pid = pid
        self.obls = []          # (name, ok, detail)
        self.negs = []          # (name, bad)
        self.funcs = set()
        self.models = set()
        self.calls = []
        self.unsupported = []
        self.vacuous = []
        self.assumed = set()
        self.bounded = []
        self.t0 = time.time()
        self.only = None
        self.known = []         # known findings met on this tree
        self.shard = (0, 1)
        self.unit = -1
        self.in_either = False
        self.frames = False     # frame obligations are decided by F01 (and by contracts that ask)
        self.frames_only = False
        self.retired = []       # contracts of private helpers that no longer apply
        self.timing = []

    def mine(self):
        """is the next unit of work this worker's?"""
        self.unit += 1
        return self.unit % self.shard[1] == self.shard[0]

    def add(self, name, ok, detail=''):
        self.obls.append((name, bool(ok), detail))

    def negative(self, name, proved):
        self.negs.append((name, proved))
        if proved:
            self.vacuous.append('%s: a deliberately wrong postcondition is provable' % name)

    def lemma(self, name, a, b, conds=()):
        """equality of two spec terms, for all values of their variables"""
        if self.frames_only or not self.mine():
            return True
        pc = prover.PC().extend(*conds)
        ok = prover.prove_eq(a, b, pc)
        self.add('lemma/' + name, ok, '' if ok else 'cannot prove %r == %r' % (a, b))
        return ok

    def lemma_holds(self, name, c, conds=()):
        if self.frames_only or not self.mine():
            return True
        pc = prover.PC().extend(*conds)
        ok = prover.prove(pc, c)
        self.add('lemma/' + name, ok, '' if ok else 'cannot prove %r' % (c,))
        return ok

    def fact(self, name, ok, detail=''):
        """a fact about a data file of the package"""
        if self.frames_only or not self.mine():
            return
        self.add('fact/' + name, ok, repr(detail))

    def either(self, finding, strict, deviant):
        """the property as stated, or exactly the recorded known deviation"""
        if not self.mine():
            return
        self.in_either = True
        try:
            self._either(finding, strict, deviant)
        finally:
            self.in_either = False

    def _either(self, finding, strict, deviant):
        n = [len(x) for x in (self.obls, self.negs, self.vacuous, self.unsupported, self.calls)]
        f0 = T._fresh[0]
        strict()
        if all(o[1] for o in self.obls[n[0]:]):
            return
        bad = [o for o in self.obls[n[0]:] if not o[1]]
        for x, k in zip((self.obls, self.negs, self.vacuous, self.unsupported, self.calls), n):
            del x[k:]
        T._fresh[0] = f0                # the same run again: let it share its queries
        deviant()
        if all(o[1] for o in self.obls[n[0]:]):
            self.known.append(finding)
        else:
            # neither: report the failure of the property as stated too
            self.obls.extend(bad)

    # ---------------------------------------------------------------- calls
    def call(self, label, target, build, post=None, raises=None, refuse=None, frame=True,
             allow_modify=(), setup=None, events=None):
        """target: 'grav.wgs_grav' or a python function (I, env) -> value.
        raises: list of exception names that must end every path (refusal contract)

        A private helper (leading underscore) is not part of the property: its contract is an extra that is
        retired, not reported, when the helper is gone or no longer meets it - the public functions that use it
        are verified through its body.
        """
        if not self.in_either and not self.mine():
            return
        t0 = time.time()
        if isinstance(target, str) and target.rsplit('.', 1)[1].startswith('_') and not self.frames_only:
            n = [len(x) for x in (self.obls, self.negs, self.vacuous, self.unsupported, self.calls)]
            self._try_call(label, target, build, post, raises, frame, allow_modify, setup)
            if any(not o[1] for o in self.obls[n[0]:]) or len(self.vacuous) > n[2]:
                for x, k in zip((self.obls, self.negs, self.vacuous, self.unsupported, self.calls), n):
                    del x[k:]
                self.retired.append(label)
        else:
            self._try_call(label, target, build, post, raises, frame, allow_modify, setup)
        self.timing.append((label, round(time.time() - t0, 2)))

    def _try_call(self, label, target, build, post, raises, frame, allow_modify, setup):
        try:
            self._call(label, target, build, post, raises, frame, allow_modify, setup)
        except Broken:
            pass
        except prover.Timeout as e:
            self.unsupported.append((label, 'time budget: %s' % e))
            self.add(label + '/decided', False, 'verifier gave no answer: %s' % e)
        except Unsupported as e:
            self.unsupported.append((label, str(e)))
            self.add(label + '/decided', False, 'outside the verifier\'s reach: %s' % e)
        except RecursionError as e:
            self.unsupported.append((label, 'recursion'))
            self.add(label + '/decided', False, 'outside the verifier\'s reach: recursion')
        except (PyRaise, ZeroDivisionError, KeyError, AttributeError, TypeError, IndexError, AssertionError,
                ValueError, NotImplementedError, OverflowError, SyntaxError, StopIteration) as e:
            self.unsupported.append((label, 'internal: %r' % e))
            self.add(label + '/decided', False, 'verifier gave no answer: %s' % traceback.format_exc()[-1500:])

    def _call(self, label, target, build, post, raises, frame, allow_modify, setup):
        I = Interp()
        if setup:
            setup(I)
        if isinstance(target, str):
            mod, fname = target.rsplit('.', 1)
            m = I.load('shipgrav.' + mod)
            if fname not in m.attrs:
                if self.frames_only and fname.startswith('_'):
                    self.retired.append(label)
                    return
                self.add(label + '/exists', False, 'function %s not found' % target)
                return
            f = m.attrs[fname]
        elif self.frames:
            for mod in ('grav', 'utils'):
                I.load('shipgrav.' + mod)
        r = build(I)
        args, kw, env = r if len(r) == 3 else (r[0], r[1], None)
        if prover.contradictory(I.pc):
            self.vacuous.append('%s: precondition unsatisfiable' % label)
        if isinstance(env, dict):
            allow_modify = env.get('_modifies', ())
        h0 = dict(I.heap)
        g0 = global_state(I)
        I.obls.clear()
        if isinstance(target, str):
            outs = I.explore(lambda: I.call(f, list(args), dict(kw)))
        else:
            outs = I.explore(lambda: target(I, env))
        self.calls.append(label)
        self.funcs |= I.funcs_run
        self.models |= I.used_models
        seen = set()
        for name, ok, detail in I.obls:
            self.add('%s/%s' % (label, name), ok, detail)
        normal = 0
        for k, (kind, v, pc, st, w) in enumerate(outs):
            if prover.contradictory(pc):
                continue
            if kind == 'raise':
                if raises is not None and v.name in raises:
                    self.add('%s/path%d/raises' % (label, k), True)
                    normal += 1
                    continue
                ok = prover.prove(pc, FALSE)
                self.add('%s/path%d/no-raise' % (label, k), ok,
                         '' if ok else 'raises %s(%s) under %r' % (v.name, v.msg, pc))
                continue
            if kind not in ('normal', 'return'):
                self.add('%s/path%d/ends' % (label, k), False, kind)
                continue
            if raises is not None and post is None:
                ok = prover.prove(pc, FALSE)
                self.add('%s/path%d/refused' % (label, k), ok, 'not refused: returns %r under %r' % (v, pc))
                continue
            I.restore(st)
            normal += 1
            P = Post(self, I, label, k, pc)
            if frame and self.frames:
                self.check_frame(P, I, h0, st, g0, allow_modify)
            if post is not None and not self.frames_only:
                try:
                    post(P, I, env, v)
                except Broken:
                    pass
                self.models |= I.used_models
        if not normal:
            self.vacuous.append('%s: no path reaches the postcondition' % label)

    def check_frame(self, P, I, h0, st, g0, allow):
        bad = []
        for r, c in h0.items():
            if r in allow:
                continue
            c1 = st[0].get(r)
            if c1 is c:
                continue
            if isinstance(c, Arr) and isinstance(c1, (Arr, View)) and not same_arr(I, c, I.arr(r)):
                bad.append('%r modified' % r)
            elif isinstance(c, Arr):
                continue
            elif isinstance(c, View):
                continue
            elif isinstance(c, PyList) and isinstance(c1, PyList) and len(c.items) == len(c1.items) and \
                    all(I.same(x, y) for x, y in zip(c.items, c1.items)):
                continue
            elif isinstance(c, PyDict) and isinstance(c1, PyDict) and list(c.d) == list(c1.d) and \
                    all(I.same(c.d[x], c1.d[x]) for x in c.d):
                continue
            else:
                bad.append('%r modified' % r)
        P.ob('frame/arguments', not bad, ', '.join(bad))
        g1 = global_state(I)
        diff = [k for k in set(g0) | set(g1) if g0.get(k) is not g1.get(k) and
                not I.same(g0.get(k, MISS), g1.get(k, MISS))]
        P.ob('frame/globals', not diff, 'module state changed: %s' % diff)


MISS = Opaque('missing')


def same_arr(I, A, B):
    if A.ndim != B.ndim or A.dtype == 'O':
        return False
    ix = [fresh('i') for _ in A.shape]
    pc = I.pc
    for i, s, s2 in zip(ix, A.shape, B.shape):
        if not prover.prove_eq(s, s2, pc):
            return False
        pc = pc.extend(le(0, i), lt(i, s))
    x, y = A.at(*ix), B.at(*ix)
    if isinstance(x, Cond) and isinstance(y, Cond):
        return prover.prove_iff(x, y, pc)
    return prover.prove_eq(N.as_poly(x), N.as_poly(y), pc)


def global_state(I):
    out = {}
    for mn, m in I.modules.items():
        for k, v in m.attrs.items():
            out[(mn, k)] = v
            if isinstance(v, FuncVal):
                for j, d in enumerate(v.defaults):
                    out[(mn, k, j)] = d
    return out


# ---------------------------------------------------------------- symbolic inputs

def ivar(name):
    return var(name, 'i', True)


def symarr(I, name, *shape, dtype='f', nonneg=False):
    """arbitrary array: element ix is the uninterpreted name(ix)"""
    sort = {'f': 'r', 'i': 'i', 'c': 'c'}[dtype]
    shape = tuple(T.P(s) for s in shape)
    if not shape:
        return I.new_arr(Arr((), lambda ix: var(name, sort), dtype))
    return I.new_arr(Arr(shape, lambda ix: fn(name, *ix, sort=sort, nonneg=nonneg), dtype))


def el(name, *ix, sort='r', nonneg=False):
    return fn(name, *[T.P(i) for i in ix], sort=sort, nonneg=nonneg)


def fl(name, nonneg=False):
    return mk_float(var(name, 'r', nonneg))


def deg2rad(x):
    return T.P(x) * PI / 180


def D(text):
    return num(dec(text))
