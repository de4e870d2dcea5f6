"""Replay of contracts on the real code (run under the project's own interpreter).

Each R_<ID>.py states the property's postcondition as a numeric oracle written from the property text and
evaluates it, on the real functions of /repo, over structured random inputs.  It serves two ends: conformance of
the contract (and of the trusted models behind the proof) on every run, and a concrete failing input when an
obligation does not discharge."""
import ast
import copy
import glob
import hashlib
import json
import math
import os
import sys
import time
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('SHIPGRAV_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
warnings.showwarning = lambda *a, **k: None
warnings.simplefilter = lambda *a, **k: None
import numpy as np  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))


class Found(Exception):
    def __init__(self, rec):
        self.rec = rec


class OutOfTime(Exception):
    pass


def literals(path=None):
    """numeric and string literals of the package's source"""
    nums, strs = set(), set()
    for f in sorted(glob.glob(os.path.join(path or REPO, 'shipgrav', '*.py'))):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        doc = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    nums.add(float(n.value))
                elif isinstance(n.value, str) and len(n.value) < 200:
                    strs.add(n.value)
    return nums, strs


def show(x, limit=40):
    if isinstance(x, np.ndarray):
        if x.size <= limit:
            return {'ndarray': x.tolist() if x.dtype.kind != 'c' else [str(v) for v in x.ravel()], 'dtype': str(x.dtype)}
        return {'ndarray_shape': list(x.shape), 'dtype': str(x.dtype), 'first': [str(v) for v in x.ravel()[:12]]}
    if isinstance(x, (list, tuple)):
        return [show(v) for v in x[:limit]]
    if isinstance(x, dict):
        return {str(k): show(v) for k, v in list(x.items())[:limit]}
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x if not (isinstance(x, float) and not math.isfinite(x)) else str(x)
    return repr(x)[:400]


class R:
    def __init__(self, pid, seed, tier, budget):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.rng = np.random.default_rng([seed, sum(map(ord, pid))])
        self.t0 = time.time()
        self.budget = budget
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.assumptions = []
        self.lits, self.strs = literals()
        base = json.load(open(os.path.join(HERE, 'literals.json')))
        self.newlits = sorted(self.lits - set(base['nums']))
        self.newstrs = sorted(self.strs - set(base['strs']))
        self.lits = sorted(self.lits)
        self.focus = 0.5 if self.newlits else 0.15

    # ------------------------------------------------------------ generation
    def left(self):
        return self.budget - (time.time() - self.t0)

    def rounds(self, frac=1.0, least=3):
        """loop until this share of the budget is used (at least `least` times)"""
        end = time.time() + max(0.0, self.left()) * frac
        k = 0
        while k < least or time.time() < end:
            if time.time() - self.t0 > self.budget * 4 + 60:
                return
            yield k
            k += 1

    def lit(self, lo, hi):
        src = self.newlits if self.newlits and self.rng.random() < 0.7 else self.lits
        c = []
        for v in src:
            for w in (v, -v):
                if lo <= w <= hi:
                    c.append(w)
        if not c:
            return None
        v = c[self.rng.integers(len(c))]
        d = self.rng.choice([0, 0, 1, -1, 1e-6, -1e-6, 0.1, -0.1])
        if self.rng.random() < 0.4:
            # a point beyond the constant, where a threshold would take effect
            b = hi if self.rng.random() < 0.5 else lo
            v = v + (b - v) * self.rng.random() ** 3
        return float(min(hi, max(lo, v + d)))

    def num(self, lo, hi, special=(), log=False):
        r = self.rng.random()
        if r < 0.12 and len(special):
            return float(special[self.rng.integers(len(special))])
        if r < 0.12 + self.focus:
            v = self.lit(lo, hi)
            if v is not None:
                return v
        if log:
            return float(np.exp(self.rng.uniform(np.log(lo), np.log(hi))))
        if r > 0.9:
            return float(np.round(self.rng.uniform(lo, hi)).clip(lo, hi))
        return float(self.rng.uniform(lo, hi))

    def size(self, lo, hi, special=()):
        r = self.rng.random()
        if r < 0.2 and len(special):
            return int(special[self.rng.integers(len(special))])
        if r < 0.45:
            big = [int(v) for v in self.newlits if v == int(v) and lo <= v <= max(hi, 20000)]
            if big:
                return int(max(lo, big[self.rng.integers(len(big))] + self.rng.integers(-1, 3)))
        if hi >= 80 and r < 0.47:     # a known number can take part in a new condition as well
            big = [int(v) for v in self.lits if v == int(v) and lo <= v <= 20000]
            if big:
                return int(max(lo, big[self.rng.integers(len(big))] + self.rng.integers(-1, 3)))
        if r < 0.7:
            return int(self.rng.integers(lo, min(hi, lo + 12) + 1))
        return int(self.rng.integers(lo, hi + 1))

    def arr(self, n, lo, hi, special=(), kinds=None):
        n = n if isinstance(n, tuple) else (n,)
        kind = self.rng.integers(5)
        if kind == 0:
            a = np.array([self.num(lo, hi, special) for _ in range(min(400, int(np.prod(n))))])
            a = np.resize(a, n)
        elif kind == 1:
            a = np.full(n, self.num(lo, hi, special))
        elif kind == 2:
            a = np.resize(np.linspace(self.num(lo, hi, special), self.num(lo, hi, special), int(np.prod(n))), n)
        else:
            u, v = sorted((self.num(lo, hi, special) + 0.0, self.num(lo, hi, special) + 0.0))
            v = max(v, u) if v != u else u
            a = self.rng.uniform(u, v, size=n)
            for _ in range(self.rng.integers(0, 4)):
                if a.size:
                    a.flat[self.rng.integers(a.size)] = self.num(lo, hi, special)
        return np.ascontiguousarray(a, dtype=float)

    def pick(self, xs):
        return xs[self.rng.integers(len(xs))]

    # ------------------------------------------------------------ checking
    def note(self, key, sample=None, trivial=False):
        self.evals += 1
        if not trivial:
            self.nontrivial.add(hashlib.md5(repr(key).encode()).hexdigest())
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def fail(self, what, **info):
        raise Found({'what': what, **{k: show(v) for k, v in info.items()}})

    def require(self, cond, what, **info):
        if not cond:
            self.fail(what, **info)

    def call(self, f, args, kw=None, label=None):
        """call the real function on private copies; report exceptions as failures"""
        kw = kw or {}
        a, k = copy.deepcopy(tuple(args)), copy.deepcopy(kw)
        try:
            with np.errstate(all='ignore'):
                return f(*a, **k)
        except Exception as e:  # noqa: BLE001
            self.fail('%s raised %s: %s' % (label or f.__name__, type(e).__name__, e), args=args, kwargs=kw)

    def spread(self, oracle, args, kw, want, n=3, extra=()):
        """how far the expected value moves when inputs move by one rounding: conditioning of the case"""
        s = [np.zeros(np.shape(w)) for w in want]
        for _ in range(n):
            a = [self.wiggle(x) for x in args]
            k = {q: self.wiggle(x) for q, x in kw.items()}
            with np.errstate(all='ignore'):
                w2 = oracle(*a, **k)
            w2 = w2 if isinstance(w2, tuple) else (w2,)
            for i, (u, v) in enumerate(zip(want, w2)):
                if np.shape(u) == np.shape(v):
                    d = np.abs(np.asarray(u) - np.asarray(v))
                    s[i] = np.maximum(s[i], np.where(np.isfinite(d), d, 0))
        return s

    def wiggle(self, x):
        if isinstance(x, bool) or isinstance(x, int) or x is None or isinstance(x, str):
            return x
        if isinstance(x, list) and x and all(isinstance(v, float) for v in x):
            return [float(v) for v in self.wiggle(np.array(x))]
        if isinstance(x, float):
            return x * (1 + self.rng.choice([-1, 1, 0]) * 2.3e-16)
        if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
            return x * (1 + self.rng.choice([-1, 0, 1], size=x.shape) * 2.3e-16)
        return x

    def compare(self, f, oracle, args, kw=None, rtol=1e-9, rmax=0.0, atol=0.0, cond=200, label=None, mask=None,
                key=None):
        """real f(*args) against oracle(*args) (tuple or single value), elementwise"""
        kw = kw or {}
        label = label or f.__name__
        got = self.call(f, args, kw, label)
        with np.errstate(all='ignore'):
            want = oracle(*copy.deepcopy(tuple(args)), **copy.deepcopy(kw))
        self.compare_values(label, got, want, args, kw, rtol, rmax, atol, cond, oracle, mask)
        self.note((label, key if key is not None else [np.asarray(x).tobytes() if isinstance(x, (np.ndarray, float, int)) else repr(x)
                                                       for x in list(args) + sorted(kw.items(), key=lambda t: t[0])]),
                  {'function': label, 'args': show(args), 'kwargs': show(kw)})
        return got

    def compare_values(self, label, got, want, args, kw=None, rtol=1e-9, rmax=0.0, atol=0.0, cond=200, oracle=None,
                       mask=None):
        kw = kw or {}
        tup = isinstance(want, tuple)
        if tup:
            self.require(isinstance(got, tuple) and len(got) == len(want),
                         '%s: expected %d values, got %s' % (label, len(want), type(got).__name__), args=args, kwargs=kw)
        g = got if tup else (got,)
        w = want if tup else (want,)
        sp = None
        for i, (x, y) in enumerate(zip(g, w)):
            try:
                xa, ya = np.asarray(x), np.asarray(y)
                if xa.dtype == object:
                    xa = xa.astype(float)
            except Exception as e:  # noqa: BLE001
                self.fail('%s: value %d is not numeric: %r' % (label, i, e), args=args, kwargs=kw)
            self.require(xa.shape == ya.shape, '%s: value %d has shape %s, expected %s' % (label, i, xa.shape, ya.shape),
                         args=args, kwargs=kw)
            self.require(xa.dtype.kind in 'fiubc', '%s: value %d has dtype %s' % (label, i, xa.dtype), args=args)
            nanx, nany = np.isnan(xa), np.isnan(ya)
            if mask is not None and np.shape(mask[i]) == xa.shape:
                nanx, nany = nanx & mask[i], nany & mask[i]
            self.require(np.array_equal(nanx, nany), '%s: value %d: NaN pattern differs' % (label, i), args=args, kwargs=kw,
                         got=x, expected=y)
            with np.errstate(all='ignore'):
                d = np.abs(xa - ya)
                d = np.where((xa == ya) | nany, 0, d)
                m = np.abs(ya[np.isfinite(ya)]).max() if np.isfinite(ya).any() else 0.0
                tol = atol + rtol * np.where(np.isfinite(ya), np.abs(ya), 0) + rmax * m
                if mask is not None:
                    d = np.where(mask[i], d, 0)
                bad = ~(d <= tol)
            if np.any(bad) and oracle is not None and cond:
                if sp is None:
                    sp = self.spread(oracle, args, kw, w)
                bad = ~(d <= tol + cond * sp[i])
            if np.any(bad):
                ix = tuple(int(v) for v in np.argwhere(np.atleast_1d(bad))[0])
                xx, yy = np.atleast_1d(xa)[ix], np.atleast_1d(ya)[ix]
                self.fail('%s: value %d, element %s is %r, expected %r' % (label, i, ix, xx, yy),
                          args=args, kwargs=kw, got=x, expected=y)

    def refused(self, f, args, kw=None, exc=AssertionError, label=None):
        kw = kw or {}
        try:
            with np.errstate(all='ignore'):
                v = f(*copy.deepcopy(tuple(args)), **copy.deepcopy(kw))
        except exc:
            self.note((label or f.__name__, 'refused', repr(show(args))))
            return
        except Exception as e:  # noqa: BLE001
            self.fail('%s: expected %s, got %s: %s' % (label or f.__name__, exc, type(e).__name__, e), args=args, kwargs=kw)
        self.fail('%s: not refused' % (label or f.__name__), args=args, kwargs=kw, got=v)
