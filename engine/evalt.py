"""Numeric evaluation of terms at random points.

Used only to REFUTE equalities quickly (a refuted equality is simply not proved) and to describe a
failing case; never to accept an obligation."""
import cmath
import math
import statistics
import random
import hashlib
from fractions import Fraction
from .terms import Poly, Atom, Cond, Lam
from . import terms as T


class NoEval(Exception):
    pass


def _coef(tag, j, lo=0.3, hi=2.1):
    h = hashlib.md5(('%s/%d' % (tag, j)).encode()).digest()
    return lo + (hi - lo) * int.from_bytes(h[:6], 'big') / float(1 << 48)


EVAL = {}      # named operators: name -> f(evaluator, args)


def _seq(ev, args):
    n = ev.int(args[0])
    if not 0 <= n <= 40:
        raise NoEval('too long')
    return [ev.lam(args[1], (k,)) for k in range(n)]


def _uidx(ev, args):
    v = _seq(ev, args)
    d = sorted(set(v))
    k = ev.int(args[2])
    if not 0 <= k < len(d):
        raise NoEval('no such distinct element')
    return v.index(d[k])


def _samepos(ev, args):
    n, i = ev.int(args[0]), ev.int(args[2])
    if not 0 <= i < n <= 40:
        raise NoEval('position out of range')
    v = [ev.lam(args[1], (k,)) for k in range(n)]
    return v.index(v[i])


def _cat(ev, args):
    n, i = ev.int(args[0]), ev.int(args[3])
    if not 0 <= n <= 40:
        raise NoEval('too long')
    for k in range(n):
        m = int(ev.lam(args[1], (k,)))
        if i < m:
            return ev.lam(args[2], (k, i))
        i -= m
    raise NoEval('beyond the concatenation')


def _interp(ev, args):
    n, x = ev.int(args[0]), ev.real(args[3])
    if not 0 < n <= 40:
        raise NoEval('too long')
    xs = [ev.lam(args[1], (k,)) for k in range(n)]
    ys = [ev.lam(args[2], (k,)) for k in range(n)]
    if any(xs[k + 1] <= xs[k] for k in range(n - 1)):
        raise NoEval('nodes out of order')
    if x <= xs[0]:
        return ys[0]
    for k in range(n - 1):
        if x <= xs[k + 1]:
            return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
    return ys[-1]


EVAL['uidx'] = _uidx
EVAL['ucnt'] = lambda ev, args: len(set(_seq(ev, args)))
EVAL['CAT'] = _cat
EVAL['samepos'] = _samepos
EVAL['interp'] = _interp


_free = {}


def free_bvs(x):
    """bound variables occurring free in a term"""
    if isinstance(x, (tuple, list)):
        r = _NOB
        for y in x:
            r = r | free_bvs(y)
        return r
    if not isinstance(x, (Atom, Poly, Lam, Cond)):
        return _NOB
    r = _free.get(x)
    if r is None:
        if isinstance(x, Atom):
            r = frozenset([x]) if x.name == 'bv' else free_bvs(x.args)
        elif isinstance(x, Poly):
            r = _NOB
            for mono in x.m:
                for a, _ in mono:
                    r = r | free_bvs(a)
        elif isinstance(x, Lam):
            r = free_bvs(x.body) - {T.mk_bv(x.h, k) for k in range(x.n)}
        else:
            r = free_bvs(x.args)
        _free[x] = r
    return r


_NOB = frozenset()


class Ev:
    def __init__(self, env, shared=None):
        self.env = env          # atom -> number
        self.memo = {}
        self.shared = {} if shared is None else shared
        self.steps = 0
        self.depth = 0

    def poly(self, p):
        key = None
        if self.depth == 0:
            r = self.memo.get(p)
            if r is not None:
                return r
        self.steps += 1
        if self.steps > 20000:
            raise NoEval('too long')
        acc = 0
        try:
            for mono, c in p.m.items():
                t = int(c) if c.denominator == 1 else float(c)
                for a, e in mono:
                    x = self.atom(a)
                    if e == 1:
                        t = t * x
                    elif e.denominator == 1:
                        t = t * x ** int(e)
                    else:
                        if not isinstance(x, complex) and x < 0:
                            raise NoEval('root of a negative number')
                        t = t * x ** float(e)
                acc = acc + t
        except (ZeroDivisionError, OverflowError, ValueError):
            raise NoEval('undefined')
        if isinstance(acc, (float, complex)) and acc != acc:
            raise NoEval('nan')
        if self.depth == 0:
            self.memo[p] = acc
        return acc

    def real(self, p):
        x = self.poly(p)
        if isinstance(x, complex):
            if abs(x.imag) > 1e-9 * (1 + abs(x.real)):
                raise NoEval('complex')
            x = x.real
        return x

    def int(self, p):
        x = self.real(p)
        r = round(x)
        if abs(x - r) > 1e-9:
            raise NoEval('not an integer')
        return int(r)

    def smooth(self, name, args, sort, nonneg):
        s = 0.0
        for j, x in enumerate(args):
            if isinstance(x, complex):
                s += _coef(name, 2 * j) * x.real + _coef(name, 2 * j + 71) * x.imag
            else:
                s += _coef(name, 2 * j) * x
        v = math.sin(s + _coef(name, 1001)) + 0.4 * math.cos(1.7 * s + _coef(name, 1003))
        if nonneg:
            v = abs(v) + 0.05
        if sort == 'i':
            h = hashlib.md5(('%s/%s' % (name, [int(round(x * 1e6)) for x in args if not isinstance(x, complex)])).encode()).digest()
            return h[0] % 5 if nonneg else h[0] % 9 - 4
        if sort == 'c':
            return complex(v, math.sin(1.3 * s + _coef(name, 1005)))
        return v

    def bound(self, vals, lam, f):
        """evaluate lam's body at vals"""
        return f(self.opened(lam, vals))

    def lam(self, lam, vals):
        key = (lam, tuple(vals), tuple((b.id, self.env.get(b)) for b in sorted(free_bvs(lam))))
        r = self.shared.get(key)
        if r is not None:
            return r
        env = dict(self.env)
        for k, v in enumerate(vals):
            env[T.mk_bv(lam.h, k)] = v
        sub = Ev(env, self.shared)
        sub.steps = self.steps
        r = sub.cond(lam.body) if isinstance(lam.body, Cond) else sub.poly(lam.body)
        self.steps = sub.steps
        self.shared[key] = r
        return r

    def atom(self, a):
        r = self.env.get(a)
        if r is not None:
            return r
        memo = self.memo if free_bvs(a) else self.shared
        r = memo.get(a)
        if r is not None:
            return r
        r = self._atom(a)
        memo[a] = r
        return r

    def _atom(self, a):
        nm, args = a.name, a.args
        if nm == 'psum':
            return self.poly(args[0])
        if nm in ('var', 'bv'):
            raise NoEval('free %r' % (a,))
        if nm == 'pi':
            return math.pi
        if nm == 'I':
            return 1j
        if nm == 'nan':
            raise NoEval('nan')
        if nm == 'num':
            return float(args[0])
        if nm == 'ite':
            return self.poly(args[1]) if self.cond(args[0]) else self.poly(args[2])
        if nm in ('sin', 'cos', 'tan', 'exp', 'sinh', 'tanh', 'arctan', 'arcsin', 'arccos', 'log', 'erf'):
            x = self.poly(args[0])
            m = {'arctan': 'atan', 'arcsin': 'asin', 'arccos': 'acos'}.get(nm, nm)
            try:
                if isinstance(x, complex):
                    if nm == 'erf':
                        raise NoEval('complex')
                    return getattr(cmath, m)(x)
                return getattr(math, m)(x)
            except (ValueError, OverflowError):
                raise NoEval('undefined')
        if nm == 'erfinv':
            x = self.real(args[0])
            if not -0.9999 < x < 0.9999:
                raise NoEval('undefined')
            return statistics.NormalDist().inv_cdf((x + 1) / 2) / math.sqrt(2)
        if nm == 'arctan2':
            return math.atan2(self.real(args[0]), self.real(args[1]))
        if nm == 'abs':
            return abs(self.poly(args[0]))
        if nm == 'floor':
            x = self.real(args[0])
            if isinstance(x, float) and abs(x - round(x)) < 1e-9:
                return int(round(x))
            return math.floor(x)
        if nm == 'Re':
            x = self.poly(args[0])
            return x.real if isinstance(x, complex) else x
        if nm == 'conj':
            x = self.poly(args[0])
            return x.conjugate() if isinstance(x, complex) else x
        if nm == 'powi':
            return self.poly(args[0]) ** self.int(args[1])
        if nm in ('Sum', 'Max', 'Min', 'Prod', 'argmax', 'argmin'):
            n = self.int(args[0])
            if n > 40:
                raise NoEval('too long')
            vs = [self.lam(args[1], (k,)) for k in range(n)]
            if nm == 'Sum':
                return sum(vs)
            if nm == 'Prod':
                return math.prod(vs)
            if not vs:
                raise NoEval('empty')
            if nm == 'Max':
                return max(vs)
            if nm == 'Min':
                return min(vs)
            return vs.index(max(vs) if nm == 'argmax' else min(vs))
        if nm == 'nth':
            n, j = self.int(args[0]), self.int(args[2])
            hits = [k for k in range(min(n, 60)) if self.lam(args[1], (k,))]
            if not 0 <= j < len(hits):
                raise NoEval('nth out of range')
            return hits[j]
        if nm in ('FFT', 'IFFT', 'FFT2', 'IFFT2', 'LFILT'):
            k = next(i for i, x in enumerate(args) if isinstance(x, Lam))
            nd = args[k].n
            dims = [self.int(x) for x in args[k - nd:k]]
            post = [self.poly(x) for x in args[k + 1:]]
            tag = nm
            if nm == 'LFILT':
                tag += self.desc(args[:k - nd])
            if math.prod(dims) > 120 or math.prod(dims) <= 0:
                raise NoEval('too long')
            acc = 0
            for m in range(math.prod(dims)):
                ix, q = [], m
                for d in dims:
                    ix.append(q % d)
                    q //= d
                w = self.smooth(tag, dims + ix + post, 'r' if nm == 'LFILT' else 'c', False)
                acc = acc + w * self.lam(args[k], ix)
            return acc
        if nm in EVAL:
            return EVAL[nm](self, args)
        vals = []
        tag = nm + '/%d' % len(args)
        for x in args:
            if isinstance(x, Poly):
                vals.append(self.poly(x))
            elif isinstance(x, Cond):
                vals.append(1.0 if self.cond(x) else 0.0)
            elif isinstance(x, (str, int, type(None))):
                tag += '/%s' % (x,)
            else:
                raise NoEval(nm)
        return self.smooth(tag, vals, a.sort, a.nonneg)

    def desc(self, xs):
        out = []
        for x in xs:
            if isinstance(x, tuple):
                out.append(self.desc(x))
            elif isinstance(x, Poly):
                v = self.poly(x)
                out.append('%.6g' % v if not isinstance(v, complex) else repr(v))
            elif isinstance(x, str):
                out.append(x)
            else:
                raise NoEval('coefficients')
        return '[%s]' % ','.join(out)

    def cond(self, c):
        op = c.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op in ('le', 'lt', 'eq'):
            x = self.real(c.args[0])
            if isinstance(x, float) and abs(x) < 1e-9:
                x = 0
            return x <= 0 if op == 'le' else x < 0 if op == 'lt' else x == 0
        if op == 'not':
            return not self.cond(c.args[0])
        if op == 'and':
            return all(self.cond(x) for x in c.args)
        if op == 'or':
            return any(self.cond(x) for x in c.args)
        if op == 'exists':
            n = self.int(c.args[0])
            if n > 40:
                raise NoEval('too long')
            return any(self.lam(c.args[1], (k,)) for k in range(n))
        if op == 'pred':
            tag, vals = 'pred', []
            for x in c.args:
                if isinstance(x, Poly):
                    vals.append(self.poly(x))
                elif isinstance(x, (str, int)):
                    tag += '/%s' % (x,)
                else:
                    raise NoEval('pred')
            return self.smooth(tag, vals, 'r', False) > 0
        raise NoEval(op)


def sample_env(fvs, rng, big):
    env = {}
    for a in sorted(fvs, key=lambda x: x.id):
        if a.sort == 'i':
            env[a] = rng.randrange(0, big) if rng.random() < 0.9 or a.nonneg else rng.randrange(-big, big)
        elif a.sort == 'c':
            env[a] = complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
        else:
            env[a] = rng.uniform(0.2, 2.2) if a.nonneg or rng.random() < 0.6 else rng.uniform(-2.2, 2.2)
    return env


_cache = {}


def linear_var(p, rng, env):
    """(atom, value) making p zero, for a variable occurring linearly"""
    c = [mono[0][0] for mono in p.m if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].name == 'var']
    c = [a for a in c if sum(a in x.fv for mo in p.m for x, _ in mo) == 1]
    rng.shuffle(c)
    for a in c:
        k = p.m[((a, Fraction(1)),)]
        e2 = dict(env)
        e2[a] = 0
        v = -Ev(e2).poly(p) / float(k)
        if isinstance(v, complex):
            continue
        if a.sort == 'i':
            if abs(v - round(v)) > 1e-9:
                continue
            v = int(round(v))
        if a.nonneg and v < 0:
            continue
        return a, v
    return None


BUDGET = 4000     # evaluation steps spent on finding sample points


def samples(conds, fvs, k=3):
    """random assignments satisfying the conditions (local search)"""
    key = (frozenset(conds), frozenset(fvs))
    r = _cache.get(key)
    if r is not None:
        return r
    rng = random.Random(len(conds) * 1000 + len(fvs))
    out = []
    noeval = total = 0
    conds = [c for c in conds if c.op != 'true']
    try:
        for t in range(12):
            env = sample_env(fvs, rng, 3 + t // 3)
            for step in range(60):
                bad = []
                for c in conds:
                    ev = Ev(env)
                    try:
                        if not ev.cond(c):
                            bad.append(c)
                    except NoEval:
                        noeval += 1
                        bad.append(c)
                    total += ev.steps
                    if len(bad) > 3:
                        break
                if not bad:
                    out.append(env)
                    break
                if noeval > 60 or total > BUDGET:
                    break
                c = rng.choice(bad)
                vs = sorted(c.fv & fvs, key=lambda x: x.id)
                if not vs:
                    break
                env = dict(env)
                if c.op == 'eq':
                    try:
                        h = linear_var(c.args[0], rng, env)
                    except NoEval:
                        h = None
                    if h is not None:
                        env[h[0]] = h[1]
                        continue
                a = rng.choice(vs)
                env.update(sample_env([a], rng, 3 + step // 8))
            if len(out) >= k or noeval > 60 or total > BUDGET:
                break
    except (RecursionError, OverflowError, ValueError, ZeroDivisionError, TypeError):
        pass
    _cache[key] = out
    return out


_seen = {}


def seen(conds, c):
    """(some sample satisfying conds has c, some has not c)"""
    key = (frozenset(conds), c)
    r = _seen.get(key)
    if r is None:
        t = f = False
        fv = set(c.fv)
        for x in conds:
            fv |= x.fv
        for env in samples(conds, frozenset(fv), 5):
            try:
                if Ev(env).cond(c):
                    t = True
                else:
                    f = True
            except (NoEval, RecursionError, OverflowError, ValueError, ZeroDivisionError, TypeError):
                pass
        r = _seen[key] = (t, f)
    return r


def refuted(a, b, conds, fvs):
    """a point satisfying conds at which a and b differ, or None"""
    for env in samples(conds, fvs):
        try:
            x, y = Ev(env).poly(a), Ev(env).poly(b)
        except (NoEval, RecursionError, OverflowError, ValueError, ZeroDivisionError, TypeError):
            continue
        try:
            if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                return env
        except OverflowError:
            continue
    return None
