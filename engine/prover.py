"""Path conditions (z3-backed) and the equality prover."""
from fractions import Fraction
import time
import z3
from .terms import *
from . import terms as T
from . import evalt

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'z3_unknown': 0, 'eq_calls': 0, 'splits': 0, 'norm': 0,
         'unify': 0, 'refuted': 0}
TIMEOUT_MS = 400
DEADLINE = [None]


class Timeout(Exception):
    pass


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Timeout('time budget exhausted')


# ------------------------------------------------------------------ z3 translation

class Z:
    """translation context; side constraints collected per query"""

    def __init__(self):
        self.side = []
        self.seen = set()
        self.memo = {}

    def poly(self, p):
        """-> z3 real or int expr"""
        r = self.memo.get(p)
        if r is not None:
            return r
        isint = T.is_int(p)
        acc = None
        for mono, c in p.m.items():
            t = None
            for a, e in mono:
                x = self.power(a, e)
                if not isint and x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                t = x if t is None else t * x
            if isint:
                k = z3.IntVal(int(c))
            else:
                k = z3.RealVal(str(c))
            if t is None:
                t = k
            elif c != 1:
                t = k * t
            acc = t if acc is None else acc + t
        if acc is None:
            acc = z3.IntVal(0)
        self.memo[p] = acc
        return acc

    def power(self, a, e):
        if e.denominator == 1 and e > 0:
            x = self.atom(a)
            r = x
            for _ in range(int(e) - 1):
                r = r * x
            return r
        x = z3.Real('pw_%d_%s' % (a.id, e))
        key = (a, e)
        if key not in self.seen:
            self.seen.add(key)
            if T.atom_nonneg(a):
                self.side.append(x >= 0)
            if e == Fraction(1, 2):
                self.side.append(x >= 0)
            if e == -1 and a.name != 'psum':
                pass
        return x

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        nm = a.name
        if nm == 'psum':
            r = self.poly(a.args[0])
            self.memo[a] = r
            return r
        if nm == 'ite':
            c, x, y = a.args
            x, y = self.poly(x), self.poly(y)
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            r = z3.If(self.cond(c), x, y)
            if a.sort == 'i' and r.sort() != z3.IntSort():
                r = z3.ToInt(r)
            self.memo[a] = r
            return r
        args = a.args
        if args and nm not in ('var', 'bv', 'num', 'Sum') and all(isinstance(x, Poly) for x in args):
            zs = [self.poly(x) for x in args]
            zs = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in zs]
            f = z3.Function('f_%s_%d%s' % (nm, len(zs), a.sort), *([z3.RealSort()] * len(zs)),
                            z3.IntSort() if a.sort == 'i' else z3.RealSort())
            r = f(*zs)
        else:
            r = z3.Int('a%d' % a.id) if a.sort == 'i' else z3.Real('a%d' % a.id)
        self.memo[a] = r
        if a not in self.seen:
            self.seen.add(a)
            if T.atom_nonneg(a):
                self.side.append(r >= 0)
            if nm == 'exp':
                self.side.append(r > 0)
            elif nm == 'pi':
                self.side.append(r > z3.RealVal('3.1415926535'))
                self.side.append(r < z3.RealVal('3.1415926536'))
            elif nm == 'num':
                self.side.append(r == a.args[0])
            elif nm == 'floor':
                x = self.poly(a.args[0])
                if x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                # scale out denominators when linear over ints
                den = 1
                import math
                ok = True
                for mo, c in a.args[0].m.items():
                    den = den * c.denominator // math.gcd(den, c.denominator)
                    ok = ok and all(at.sort == 'i' and e.denominator == 1 and e > 0 for at, e in mo)
                if ok:
                    xs = self.poly(T.scale(a.args[0], den))
                    self.side.append(den * r <= xs)
                    self.side.append(xs < den * r + den)
                else:
                    self.side.append(z3.ToReal(r) <= x)
                    self.side.append(x < z3.ToReal(r) + 1)
            elif nm in ('sin', 'cos', 'tanh', 'erf'):
                self.side.append(r >= -1)
                self.side.append(r <= 1)
            elif nm == 'abs':
                x = self.poly(a.args[0])
                self.side.append(z3.Or(r == x, r == -x))
                self.side.append(r >= x)
                self.side.append(r >= -x)
            elif nm in SIDE:
                self.side.extend(SIDE[nm](self, r, a.args))
        return r

    def cond(self, c):
        r = self.memo.get(c)
        if r is not None:
            return r
        if c.op == 'true':
            r = z3.BoolVal(True)
        elif c.op == 'false':
            r = z3.BoolVal(False)
        elif c.op in ('le', 'lt', 'eq'):
            p = c.args[0]
            x = self.poly(p)
            r = {'le': x <= 0, 'lt': x < 0, 'eq': x == 0}[c.op]
        elif c.op == 'not':
            r = z3.Not(self.cond(c.args[0]))
        elif c.op == 'and':
            r = z3.And([self.cond(x) for x in c.args])
        elif c.op == 'or':
            r = z3.Or([self.cond(x) for x in c.args])
        elif c.op == 'pred' and all(isinstance(x, (Poly, str, int)) for x in c.args):
            ps = [x for x in c.args if isinstance(x, Poly)]
            nm = 'p_' + '_'.join(str(x) for x in c.args if not isinstance(x, Poly))
            if ps:
                zs = [self.poly(x) for x in ps]
                zs = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in zs]
                r = z3.Function(nm, *([z3.RealSort()] * len(zs)), z3.BoolSort())(*zs)
            else:
                r = z3.Bool(nm)
        else:
            r = z3.Bool('c%d' % c.id)
        self.memo[c] = r
        return r


SIDE = {}      # extra axioms for named atoms: name -> f(Z, z3expr, args) -> [z3 constraints]
DOMAINS = {}   # binder domains: name -> f(args, position, vars) -> [Cond]


def _dom_sum(args, pos, vs):
    return [le(0, vs[0]), lt(vs[0], args[0])]


DOMAINS['Sum'] = _dom_sum


# ------------------------------------------------------------------ path conditions

class PC:
    __slots__ = ('conds', 'key', 'set')
    _cache = {}

    def __init__(self, conds=()):
        self.conds = tuple(conds)
        self.set = frozenset(self.conds)
        self.key = self.set

    def extend(self, *cs):
        out = list(self.conds)
        seen = set(self.set)
        for c in cs:
            for x in (c.args if c.op == 'and' else (c,)):
                if x is TRUE or x in seen:
                    continue
                seen.add(x)
                out.append(x)
        if len(out) == len(self.conds):
            return self
        return PC(out)

    def __repr__(self):
        return ' & '.join(map(repr, self.conds)) or 'true'


_qcache = {}


def _relevant(conds, fv):
    """cone of influence over variables"""
    todo = list(conds)
    vs = set(fv)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for c in todo:
            if not c.fv or (c.fv & vs):
                out.append(c)
                n = len(vs)
                vs |= c.fv
                changed = True
            else:
                rest.append(c)
        todo = rest
    return out


def _fv_of(pc, fv):
    out = set()
    for c in _relevant(pc.conds, fv):
        out |= c.fv
    return out


def canon(k, *ts):
    """k binder variables, named by position (so that equal queries are equal) and not occurring in ts"""
    used = set()
    for t in ts:
        if isinstance(t, PC):
            for c in t.conds:
                used |= c.fv
        else:
            used |= t.fv
    out, j = [], 0
    while len(out) < k:
        v = var('u.%d' % j, 'i')
        if T.single_atom(v) not in used:
            out.append(v)
        j += 1
    return out


def z3_unsat(conds, timeout=None):
    """are the conditions jointly unsatisfiable? True / False / None(unknown)"""
    conds = alpha(conds)
    key = frozenset(conds)
    if FALSE in key:
        return True
    if key in _qcache:
        return _qcache[key]
    check_deadline()
    z = Z()
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT_MS)
    t0 = time.time()
    fs = [z.cond(c) for c in conds]
    s.add(*fs)
    # side constraints may introduce further atoms while being built
    done = 0
    while done < len(z.side):
        x = z.side[done:]
        done = len(z.side)
        s.add(*x)
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat:
        out = True
    elif r == z3.sat:
        out = False
    else:
        out = None
        STATS['z3_unknown'] += 1
    _qcache[key] = out
    return out


def z3_model(conds):
    z = Z()
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*[z.cond(c) for c in conds])
    s.add(*z.side)
    if s.check() == z3.sat:
        return s.model()
    return None


_alpha_memo = {}


def _fresh_no(a):
    return int(a.args[0].rsplit('~', 1)[1])


def alpha(conds):
    """rename the generated variables of a query in the order of their generation: queries met again under
    other generated names share their answers"""
    fr = set()
    for c in conds:
        for a in c.fv:
            if a.name == 'var' and '~' in a.args[0]:
                fr.add(a)
    if not fr:
        return conds
    mp = {a: var('_a%d' % k, a.sort, a.nonneg) for k, a in enumerate(sorted(fr, key=_fresh_no))}
    out = []
    for c in conds:
        m = {a: mp[a] for a in c.fv if a in mp}
        if m:
            key = (c, frozenset(m.items()))
            r = _alpha_memo.get(key)
            if r is None:
                r = _alpha_memo[key] = T.subst(c, m)
            out.append(r)
        else:
            out.append(c)
    return out


def decide(pc, c):
    """True / False / None"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in pc.set:
        return True
    nc = not_(c)
    if nc in pc.set:
        return False
    *rel, c = alpha(_relevant(pc.conds, c.fv) + [c])
    nc = not_(c)
    t, f = evalt.seen(rel, c)
    if not f and z3_unsat(rel + [nc]) is True:
        return True
    if not t and z3_unsat(rel + [c]) is True:
        return False
    if c.op in ('lt', 'le', 'eq'):
        c2 = _over_positive(c, rel)
        if c2 is not c:
            nc = not_(c2)
            if not f and z3_unsat(rel + [nc]) is True:
                return True
            if not t and z3_unsat(rel + [c2]) is True:
                return False
    return None


def _over_positive(c, conds):
    """multiply a comparison with zero through by the denominators known to be positive"""
    p = c.args[0]
    low = {}
    for mo in p.m:
        for a, e in mo:
            if e < 0 and e.denominator == 1:
                low[a] = min(low.get(a, 0), e)
    for a, e in low.items():
        q = atom_poly(a)
        if z3_unsat(list(conds) + [T.le(q, ZERO)]) is True:
            p = mul(p, power(q, -e))
    if p is c.args[0]:
        return c
    return {'lt': T.lt0, 'le': T.le0, 'eq': T.eq0}[c.op](p)


def prove(pc, c):
    """prove a condition valid under pc"""
    if c is TRUE:
        return True
    if c in pc.set:
        return True
    if c.op == 'and':
        return all(prove(pc, x) for x in c.args)
    if c.op == 'eq':
        if prove_eq(c.args[0], ZERO, pc):
            return True
    rel = _relevant(pc.conds, c.fv)
    if z3_unsat(rel + [not_(c)]) is True:
        return True
    c2 = simp(c, pc)
    if c2 is TRUE:
        return True
    if c2.op in ('le', 'lt'):
        # sign reasoning on the (possibly factored) polynomial
        p = c2.args[0]
        if T.poly_nonneg(neg(p)) and c2.op == 'le':
            return True
    if c2 is not c:
        rel = _relevant(pc.conds, c2.fv)
        if z3_unsat(rel + [not_(c2)]) is True:
            return True
    sc = find_split(c2, pc)
    if sc is not None and sc is not c2 and sc is not not_(c2):
        return prove_split(pc, sc, lambda q: prove(q, c2), depth=0)
    return False


def contradictory(pc):
    return z3_unsat(list(pc.conds)) is True


_depth = [0]


def prove_split(pc, sc, k, depth):
    if _depth[0] > 40:
        return False
    _depth[0] += 1
    try:
        STATS['splits'] += 1
        for c in (sc, not_(sc)):
            q = pc.extend(c)
            if z3_unsat(_relevant(q.conds, c.fv)) is True:
                continue
            if not k(q):
                return False
        return True
    finally:
        _depth[0] -= 1


# ------------------------------------------------------------------ simplification under pc

_simpcache = {}


def floor(p, pc):
    """floor(p), with the fractional rest dropped when it is known to lie in [0, 1)"""
    f = T.floor(p)
    for mono in list(f.m):
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].name == 'floor':
            q = mono[0][0].args[0]
            if decide(pc, le(0, q)) is True and decide(pc, T.lt(q, ONE)) is True:
                f = f - num(f.m[mono]) * atom_poly(mono[0][0])
    return f


def simp(t, pc):
    """resolve if-then-else (and abs) decided by pc, also under binders"""
    if isinstance(t, Poly):
        if not _has_ite(t):
            return t
    key = (t, pc.key)
    r = _simpcache.get(key)
    if r is not None:
        return r
    check_deadline()
    if isinstance(t, Poly):
        simple, out = {}, []
        for mono, c in t.m.items():
            if not any(_has_ite(a) for a, _ in mono):
                simple[mono] = c
                continue
            r = num(c)
            for a, e in mono:
                s = simp_atom(a, pc) if _has_ite(a) else atom_poly(a)
                r = mul(r, s if e == 1 else power(s, e))
            out.append(r)
        r = sum_polys([mk_poly(simple)] + out) if out else t
    elif isinstance(t, Cond):
        r = simp_cond(t, pc)
    elif isinstance(t, tuple):
        r = tuple(simp(x, pc) for x in t)
    else:
        r = t
    _simpcache[key] = r
    return r


_itecache = {}


def _has_ite(t):
    if isinstance(t, tuple):
        return any(_has_ite(x) for x in t)
    if not isinstance(t, (Poly, Atom, Cond, Lam)):
        return False
    r = _itecache.get(t)
    if r is None:
        if isinstance(t, Poly):
            r = any(_has_ite(a) for mo in t.m for a, _ in mo)
        elif isinstance(t, Lam):
            r = _has_ite(t.body)
        elif isinstance(t, Atom):
            r = t.name in ('ite', 'abs') or _inv_pair(t) is not None or any(_has_ite(x) for x in t.args)
        else:
            r = t.op in ('le', 'lt', 'eq', 'pred', 'exists') and any(_has_ite(x) for x in t.args) \
                or t.op in ('not', 'and', 'or') and any(_has_ite(x) for x in t.args)
        _itecache[t] = r
    return r


def _inv_pair(a):
    """erf(erfinv(q)): q, wherever -1 < q < 1"""
    if a.name == 'erf':
        b = T.single_atom(a.args[0])
        if b is not None and b.name == 'erfinv':
            return b.args[0]
    return None


def simp_atom(a, pc):
    q = _inv_pair(a)
    if q is not None:
        if decide(pc, T.lt(q, ONE)) is True and decide(pc, T.lt(-ONE, q)) is True:
            return simp(q, pc)
    if a.name == 'ite':
        c, x, y = a.args
        c = simp_cond(c, pc)
        d = decide(pc, c)
        if d is True:
            return simp(x, pc)
        if d is False:
            return simp(y, pc)
        return ite(c, simp(x, pc.extend(c)), simp(y, pc.extend(not_(c))))
    if a.name == 'abs':
        x = simp(a.args[0], pc)
        d = decide(pc, le(0, x))
        if d is True:
            return x
        if d is False:
            return neg(x)
        return abs_(x)
    args = []
    for i, x in enumerate(a.args):
        if isinstance(x, Lam):
            args.append(simp_lam(a, i, x, pc))
        elif isinstance(x, (Poly, Cond, tuple)):
            args.append(simp(x, pc))
        else:
            args.append(x)
    args = tuple(args)
    if args == a.args:
        return atom_poly(a)
    return T.rebuild(a.name, args, a.sort, a.nonneg)


def simp_lam(a, i, lam, pc):
    if not _has_ite(lam):
        return lam
    vs = canon(lam.n, pc, lam, *[x for x in a.args if isinstance(x, (Poly, Cond))])
    body = lam.open(*vs)
    dom = DOMAINS[a.name](a.args, i, vs) if a.name in DOMAINS else []
    b2 = simp(body, pc.extend(*dom))
    return lam if b2 is body else mk_lam(vs, b2)


def simp_cond(c, pc):
    if not _has_ite(c) and c.op not in ('and', 'or'):
        return c
    if c.op in ('le', 'lt', 'eq'):
        p = simp(c.args[0], pc)
        return {'le': T.le0, 'lt': T.lt0, 'eq': T.eq0}[c.op](p)
    if c.op == 'not':
        return not_(simp_cond(c.args[0], pc))
    if c.op in ('and', 'or'):
        out = []
        for x in c.args:
            x = simp_cond(x, pc)
            d = decide(pc, x)
            if d is True:
                x = TRUE
            elif d is False:
                x = FALSE
            out.append(x)
        return (and_ if c.op == 'and' else or_)(*out)
    if c.op == 'exists':
        n, lam = c.args
        n = simp(n, pc)
        vs = canon(1, pc, n, lam)
        body = lam.open(*vs)
        b2 = simp(body, pc.extend(le(0, vs[0]), lt(vs[0], n)))
        return T.exists_(n, mk_lam(vs, b2))
    if c.op == 'pred':
        return T._mk_cond('pred', tuple(simp(x, pc) if isinstance(x, (Poly, Cond)) else x for x in c.args))
    return c


def find_split(t, pc, seen=None):
    """an undecided if-then-else condition outside binders, innermost first"""
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            r = find_split(x, pc, seen)
            if r is not None:
                return r
        return None
    if not isinstance(t, (Poly, Atom, Cond)) or t in seen or not _has_ite(t):
        return None
    seen.add(t)
    if isinstance(t, Poly):
        for mo in t.m:
            for a, _ in mo:
                r = find_split(a, pc, seen)
                if r is not None:
                    return r
        return None
    if isinstance(t, Cond):
        return find_split(tuple(t.args), pc, seen)
    if t.name == 'ite':
        c = t.args[0]
        r = find_split(c, pc, seen)
        if r is not None:
            return r
        while c.op in ('and', 'or'):
            # pick an undecided literal
            for x in c.args:
                if decide(pc, x) is None:
                    c = x
                    break
            else:
                c = c.args[0]
        if not T._fvs(c):
            return c
        return c
    if t.name == 'abs':
        r = find_split(t.args[0], pc, seen)
        if r is not None:
            return r
        return None
    return find_split(t.args, pc, seen)


# ------------------------------------------------------------------ normalization for zero test

def expand_psum(p, depth=0):
    """expand positive integer powers of psums"""
    for _ in range(30):
        if not any(a.name == 'psum' and e.denominator == 1 and e > 0 or
                   a.name == 'psum' and e > 1 for mo in p.m for a, e in mo):
            return p
        out = []
        simple = {}
        for mo, c in p.m.items():
            hit = [(a, e) for a, e in mo if a.name == 'psum' and e >= 1]
            if not hit:
                simple[mo] = c
                continue
            a, e = hit[0]
            rest = {x: y for x, y in mo if x is not a}
            k = e.numerator // e.denominator
            fr = e - k
            if fr:
                rest[a] = fr
            rp = mk_poly({tuple(sorted(rest.items(), key=lambda t: t[0].id)): c})
            base = a.args[0]
            for _ in range(k):
                rp = T.mul_full(rp, base)
                if len(rp.m) > 20000:
                    raise Timeout('polynomial too large')
            out.append(rp)
        p = sum_polys([mk_poly(simple)] + out)
        check_deadline()
    return p


def clear_den(p):
    """multiply by nonzero denominators until no negative exponents of psums remain"""
    for _ in range(40):
        p = expand_psum(p)
        neg_min = {}
        for mo in p.m:
            for a, e in mo:
                if e < 0:
                    neg_min[a] = min(neg_min.get(a, 0), e)
        ps = [a for a in neg_min if a.name == 'psum']
        if not ps:
            # plain atoms: multiply out too (only matters for zero test: no)
            return p
        # choose the deepest/latest atom first
        a = max(ps, key=lambda x: (x.h, x.id))
        k = -(neg_min[a].numerator // neg_min[a].denominator)  # ceil(-min)
        out = []
        for mo, c in p.m.items():
            d = dict(mo)
            v = d.get(a, Fraction(0)) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
            out.append(mk_poly({tuple(sorted(d.items(), key=lambda t: t[0].id)): c}))
        p = sum_polys(out)
        check_deadline()
    return p


def trig_reduce(p):
    """cos(u)^k, k>=2 -> (1 - sin^2)"""
    for _ in range(60):
        out, simple, hitany = [], {}, False
        for mo, c in p.m.items():
            hit = None
            for a, e in mo:
                if a.name == 'cos' and e.denominator == 1 and e >= 2:
                    hit = (a, e)
                    break
            if hit is None:
                simple[mo] = c
                continue
            hitany = True
            a, e = hit
            k = int(e) // 2
            rest = {x: y for x, y in mo if x is not a}
            if int(e) % 2:
                rest[a] = Fraction(1)
            s = sin(a.args[0])
            out.append(mul(mk_poly({tuple(sorted(rest.items(), key=lambda t: t[0].id)): c}),
                           power(1 - s * s, k)))
        if not hitany:
            return p
        p = sum_polys([mk_poly(simple)] + out)
        p = expand_psum(p)
    return p


def normalize(p):
    STATS['norm'] += 1
    p = clear_den(p)
    if any(a.name == 'cos' and e >= 2 for mo in p.m for a, e in mo):
        p = trig_reduce(p)
    return p


# ---- angle expansion

def _angle_units(p, units):
    """collect the unit angles over all trig atoms in p (recursively in psum)"""
    import math
    seen = set()
    st = [p]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Poly):
            for mo in x.m:
                st.extend(a for a, _ in mo)
        elif isinstance(x, Atom):
            if x.name in ('sin', 'cos', 'tan'):
                for mo, c in x.args[0].m.items():
                    g = units.get(mo)
                    if g is None:
                        units[mo] = abs(c)
                    else:
                        den = g.denominator * c.denominator
                        units[mo] = Fraction(math.gcd(int(g * den), int(abs(c) * den)), den)
            elif x.name == 'psum':
                st.append(x.args[0])


def _multi(c1, s1, n):
    """cos(n t), sin(n t)"""
    if n < 0:
        c, s = _multi(c1, s1, -n)
        return c, neg(s)
    c, s = ONE, ZERO
    for _ in range(n):
        c, s = c * c1 - s * s1, s * c1 + c * s1
    return c, s


def expand_angles(p):
    units = {}
    _angle_units(p, units)
    memo = {}

    def cs(arg):
        r = memo.get(arg)
        if r is not None:
            return r
        c, s = ONE, ZERO
        for mo, k in arg.m.items():
            u = units.get(mo, abs(k))
            n = k / u
            if n.denominator != 1 or abs(n) > 40:
                u, n = k, Fraction(1)
            base = mk_poly({mo: u})
            ci, si = _multi(cos(base), sin(base), int(n))
            c, s = c * ci - s * si, s * ci + c * si
        memo[arg] = (c, s)
        return c, s

    pm = {}

    def walk(q):
        if q in pm:
            return pm[q]
        out, simple = [], {}
        for mo, c in q.m.items():
            if not any(a.name in ('sin', 'cos', 'tan', 'psum') for a, _ in mo):
                simple[mo] = c
                continue
            r = num(c)
            for a, e in mo:
                if a.name == 'sin':
                    x = cs(a.args[0])[1]
                elif a.name == 'cos':
                    x = cs(a.args[0])[0]
                elif a.name == 'tan':
                    cc, ss = cs(a.args[0])
                    x = ss / cc
                elif a.name == 'psum':
                    x = walk(a.args[0])
                else:
                    x = atom_poly(a)
                r = mul(r, x if e == 1 else power(x, e))
            out.append(r)
        r = sum_polys([mk_poly(simple)] + out)
        pm[q] = r
        return r
    return walk(p)


# ------------------------------------------------------------------ equality

_eqcache = {}
LAST_FAIL = []


def prove_eq(a, b, pc, depth=0):
    a, b = P(a), P(b)
    if a is b:
        return True
    if a is NAN or b is NAN:
        # only equal if both are nan under pc
        a, b = simp(a, pc), simp(b, pc)
        if a is b:
            return True
        other = b if a is NAN else a
        c = simp_cond(T.isnan(other), pc)
        return decide(pc, c) is True
    key = (a, b, pc.key)
    r = _eqcache.get(key)
    if r is not None:
        return r
    STATS['eq_calls'] += 1
    r = _prove_eq(a, b, pc, depth)
    _eqcache[key] = r
    return r


def unroll(p, pc):
    """Sum / Prod with bounds n and n + c in one equation: split off the last c terms"""
    for _ in range(8):
        ats = [a for a in p.atoms() if a.name in ('Sum', 'Prod')]
        mp = {}
        for b in ats:
            if b.name == 'Prod':
                # Prod_{j<n} (c + j) = (n + c - 1)! / (c - 1)!
                k = canon(1, b.args[1])[0]
                c = b.args[1].open(k) - k
                if c.is_const and c.const.denominator == 1 and 2 <= c.const <= 12 and decide(pc, le(0, b.args[0])) is True:
                    f = 1
                    for j in range(2, int(c.const)):
                        f *= j
                    mp[b] = scale(T.rebuild('Prod', (b.args[0] + c - 1, T.mk_lam([k], k + 1)), b.sort, b.nonneg),
                                  Fraction(1, f))
        if mp:
            p = subst(p, mp)
            continue
        for b in ats:
            for a in ats:
                if a is b or a.name != b.name:
                    continue
                d = b.args[0] - a.args[0]
                if d.is_const and d.const.denominator == 1 and 0 < d.const <= 4 and decide(pc, le(0, a.args[0])) is True:
                    c = int(d.const)
                    body = [b.args[1].open(a.args[0] + j) for j in range(c)]
                    base = T.rebuild(b.name, (a.args[0], b.args[1]), b.sort, b.nonneg)
                    if b.name == 'Sum':
                        mp[b] = sum_polys([base] + body)
                    else:
                        for x in body:
                            base = mul(base, x)
                        mp[b] = base
                    break
            if mp:
                break
        if not mp:
            return p
        p = subst(p, mp)
    return p


def _zeros(pc, fv):
    return [c.args[0] for c in pc.conds if c.op == 'eq' and c.fv and c.fv <= fv]


def _psum_zero(t, zs):
    """psum atoms of t whose base is (a multiple of) a polynomial known to be zero"""
    mp, seen, st = {}, set(), [t]
    prims = {T.primitive(z)[2] for z in zs}
    prims |= {neg(z) for z in prims}
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Poly):
            st.extend(a for mo in x.m for a, _ in mo)
        elif isinstance(x, Atom):
            if x.name == 'psum':
                if x.args[0] in prims or T.primitive(x.args[0])[2] in prims:
                    mp[x] = ZERO
            st.extend(y for y in x.args if isinstance(y, (Poly, Cond)))
        elif isinstance(x, Cond):
            st.extend(y for y in x.args if isinstance(y, (Poly, Cond)))
    return mp


def reduce_mod(n, q):
    """remainder of n modulo the polynomial q (one step of polynomial division, repeated)"""
    if len(q.m) < 2:
        return n
    lm = max(q.m, key=lambda mo: (sum(e for _, e in mo), [(-a.id, e) for a, e in mo]))
    lc = q.m[lm]
    ld = dict(lm)
    for _ in range(60):
        hit = None
        for mo in n.m:
            d = dict(mo)
            if all(d.get(a, 0) >= e for a, e in ld.items()):
                hit = (mo, d)
                break
        if hit is None:
            return n
        mo, d = hit
        for a, e in ld.items():
            r = d[a] - e
            if r:
                d[a] = r
            else:
                del d[a]
        f = mk_poly({tuple(sorted(d.items(), key=lambda t: t[0].id)): n.m[mo] / lc})
        n = n - T.mul_full(f, q)
        if len(n.m) > 3000:
            return n
    return n


def _eq_subst(pc, fv):
    """a variable determined by an equation of the path condition"""
    for c in pc.conds:
        if c.op != 'eq' or not (c.fv & fv):
            continue
        p = c.args[0]
        for mono, k in p.m.items():
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].name == 'var' and mono[0][0] in fv:
                v = mono[0][0]
                if v.sort == 'i' and abs(k) != 1:
                    continue
                rest = scale(mk_poly({x: y for x, y in p.m.items() if x != mono}), -1 / k)
                if all(w.id < v.id for w in rest.fv) and (v.sort != 'i' or T.is_int(rest)):
                    return {v: rest}
    return None


def _prove_eq(a, b, pc, depth):
    check_deadline()
    d = a - b
    if not d.m:
        return True
    if depth > 14:
        return False
    fv = a.fv | b.fv
    m = _eq_subst(pc, fv)
    if m:
        return prove_eq(subst(a, m), subst(b, m), pc, depth)
    env = evalt.refuted(a, b, _relevant(pc.conds, fv), fv | _fv_of(pc, fv))
    if env is not None:
        STATS['refuted'] += 1
        if len(LAST_FAIL) < 50:
            LAST_FAIL.append((d, 'at %s' % {repr(k): v for k, v in list(env.items())[:12]}))
        return False
    a2, b2 = simp(a, pc), simp(b, pc)
    if a2 is b2:
        return True
    if a2 is NAN or b2 is NAN:
        return prove_eq(a2, b2, pc, depth + 1)
    d = a2 - b2
    if d.is_zero:
        return True
    # case split on if-then-else
    zs = _zeros(pc, d.fv)
    if zs:
        for t in (a2, b2):
            mp = _psum_zero(t, zs)
            if mp:
                try:
                    return prove_eq(subst(a2, mp), subst(b2, mp), pc, depth + 1)
                except ZeroDivisionError:
                    return contradictory(pc)
    sc = find_split(d, pc)
    if sc is not None:
        return prove_split(pc, sc, lambda q: prove_eq(a2, b2, q, depth + 1), depth)
    if d.is_const:
        ok = contradictory(pc)
        if not ok:
            LAST_FAIL.append((d, pc))
        return ok
    if T.is_int(d) or _linear_int(d):
        if z3_unsat(_relevant(pc.conds, d.fv) + [not_(T.eq0(d))]) is True:
            return True
    if not any(x.name not in ('var', 'bv') for x in d.atoms()) and \
            z3_unsat(_relevant(pc.conds, d.fv) + [not_(T.eq0(d))]) is True:
        return True
    try:
        n = normalize(d)
    except ZeroDivisionError:
        return False
    if n.is_zero:
        return True
    u = unroll(n, pc)
    if u is not n:
        n = normalize(u)
        if n.is_zero:
            return True
    u = unify(n, pc, depth)
    if u.is_zero:
        return True
    for z in zs:
        if reduce_mod(u, z).is_zero:
            return True
    u = combine_linear(u, pc, depth)
    if u.is_zero:
        return True
    x = expand_angles(u)
    if x is not u:
        x = normalize(x)
        if x.is_zero:
            return True
        x = unify(x, pc, depth)
        if x.is_zero:
            return True
    if _sign_atoms(x):
        sc = _abs_split(x, pc)
        if sc is not None:
            return prove_split(pc, sc, lambda q: prove_eq(a2, b2, q, depth + 1), depth)
    if z3_unsat(_relevant(pc.conds, x.fv) + [not_(T.eq0(x))]) is True:
        return True
    if contradictory(pc):
        return True
    if len(LAST_FAIL) < 50:
        LAST_FAIL.append((x, pc))
    return False


def _linear_int(d):
    return all(a.sort == 'i' for a in d.atoms())


def _sign_atoms(p):
    return any(a.name == 'abs' for a in p.atoms())


def _abs_split(p, pc):
    for a in p.atoms():
        if a.name == 'abs':
            c = le(0, a.args[0])
            if decide(pc, c) is None:
                return c
    return None


def _shape(a):
    """coarse compatibility key of an atom"""
    out = [a.name, len(a.args)]
    for x in a.args:
        if isinstance(x, (Poly, Cond)):
            out.append('p')
        elif isinstance(x, Lam):
            out.append('l%d' % x.n)
        elif isinstance(x, tuple):
            out.append('t%d' % len(x))
        else:
            out.append(x)
    return tuple(out)


def unify(p, pc, depth):
    """merge atoms provably equal under pc"""
    tried = set()
    for _ in range(200):
        groups = {}
        for a in sorted(p.atoms(), key=lambda x: x.id):
            if a.args and a.name not in ('var', 'bv', 'num'):
                groups.setdefault(_shape(a), []).append(a)
        merged = False
        for g in groups.values():
            if len(g) < 2 or len(g) > 60:
                continue
            for i in range(len(g)):
                for j in range(i):
                    if (g[j], g[i]) in tried:
                        continue
                    tried.add((g[j], g[i]))
                    nf = len(LAST_FAIL)
                    same = atoms_equal(g[j], g[i], pc, depth + 1)
                    del LAST_FAIL[nf:]
                    if same:
                        STATS['unify'] += 1
                        p = normalize(subst(p, {g[i]: atom_poly(g[j])}))
                        merged = True
                        break
                if merged:
                    break
            if merged:
                break
        if p.is_zero or not merged:
            return p
    return p


LINOPS = {'Sum', 'FFT', 'IFFT', 'FFT2', 'IFFT2', 'LFILT'}


def _linop_key(a):
    """(key, lam) of a linear-operator atom, or of the real part of one"""
    wrap = ()
    if a.name == 'Re':
        p = a.args[0]
        if len(p.m) != 1:
            return None
        (mono, c), = p.m.items()
        if c != 1 or len(mono) != 1 or mono[0][1] != 1:
            return None
        a, wrap = mono[0][0], ('Re',)
    if a.name not in LINOPS:
        return None
    k = next((i for i, x in enumerate(a.args) if isinstance(x, Lam)), None)
    if k is None or sum(isinstance(x, Lam) for x in a.args) != 1:
        return None
    return wrap + (a.name,) + a.args[:k] + (a.args[k].n,) + a.args[k + 1:], a, k


def combine_linear(p, pc, depth):
    """sum of c_i Op(f_i) with the same operator: zero if sum of c_i f_i is zero"""
    if depth > 8:
        return p
    groups = {}
    for mono, c in p.m.items():
        for a, e in mono:
            k = _linop_key(a) if e == 1 else None
            if k is not None:
                groups.setdefault(k[0], {}).setdefault(mono, []).append((a, k[1], k[2]))
    for key, ms in groups.items():
        ms = {mo: v for mo, v in ms.items() if mo in p.m}
        if len(ms) < 2 or any(len(v) != 1 for v in ms.values()):
            continue
        if key[0] == 'Re' and any(b.sort == 'c' for mono in ms for b, _ in mono):
            continue
        _, a0, k0 = next(iter(ms.values()))[0]
        n = a0.args[k0].n
        vs = canon(n, pc, p)
        dom = DOMAINS[a0.name](a0.args, k0, vs)
        acc = []
        for mono, v in ms.items():
            a, b, k = v[0]
            rest = mk_poly({tuple(x for x in mono if x[0] is not a): p.m[mono]})
            acc.append(mul(rest, b.args[k].open(*vs)))
        nf = len(LAST_FAIL)
        same = prove_eq(sum_polys(acc), ZERO, pc.extend(*dom), depth + 2)
        if len(groups) > 1:
            del LAST_FAIL[nf:]
        if same:
            STATS['unify'] += 1
            p = mk_poly({mo: c for mo, c in p.m.items() if mo not in ms})
    return p


def atoms_equal(a, b, pc, depth):
    if a is b:
        return True
    if depth > 12:
        return False
    for i, (x, y) in enumerate(zip(a.args, b.args)):
        if x is y or x == y:
            continue
        if isinstance(x, Lam):
            continue
        if not args_equal(x, y, pc, depth):
            return False
    for i, (x, y) in enumerate(zip(a.args, b.args)):
        if isinstance(x, Lam) and x is not y:
            if not isinstance(y, Lam) or not lam_equal(a, i, x, y, pc, depth):
                return False
    return True


def args_equal(x, y, pc, depth):
    if x is y or x == y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        if not _quick_plausible(x, y):
            return False
        return prove_eq(x, y, pc, depth + 1)
    if isinstance(x, Cond) and isinstance(y, Cond):
        return prove_iff(x, y, pc, depth + 1)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(args_equal(u, v, pc, depth) for u, v in zip(x, y))
    return False


def _quick_plausible(x, y):
    d = x - y
    if d.is_const and d.const != 0:
        return False
    return True


def lam_equal(a, i, x, y, pc, depth):
    if x.n != y.n:
        return False
    vs = canon(x.n, pc, x, y, *[z for z in a.args if isinstance(z, (Poly, Cond))])
    dom = DOMAINS[a.name](a.args, i, vs) if a.name in DOMAINS else [le(0, v) for v in vs]
    q = pc.extend(*dom)
    bx, by = x.open(*vs), y.open(*vs)
    if isinstance(bx, Poly) and isinstance(by, Poly):
        return prove_eq(bx, by, q, depth + 1)
    if isinstance(bx, Cond) and isinstance(by, Cond):
        return prove_iff(bx, by, q, depth + 1)
    return False


def prove_iff(x, y, pc, depth=0):
    if x is y:
        return True
    x, y = simp_cond(x, pc), simp_cond(y, pc)
    if x is y:
        return True
    if x.op == y.op and x.op in ('le', 'lt', 'eq'):
        # same up to a provable equality of the (scaled) polynomials
        if prove_eq(x.args[0], y.args[0], pc, depth + 1):
            return True
    if x.op == y.op == 'exists':
        vs = canon(1, pc, x, y)
        if prove_eq(x.args[0], y.args[0], pc, depth + 1) and \
                prove_iff(x.args[1].open(*vs), y.args[1].open(*vs),
                          pc.extend(le(0, vs[0]), lt(vs[0], x.args[0])), depth + 1):
            return True
    rel = _relevant(pc.conds, x.fv | y.fv)
    a = z3_unsat(rel + [x, not_(y)])
    b = z3_unsat(rel + [y, not_(x)])
    if a is True and b is True:
        return True
    sc = find_split(and_(x, y), pc)
    if sc is None:
        sc = find_split(x, pc) or find_split(y, pc)
    if sc is not None:
        return prove_split(pc, sc, lambda q: prove_iff(x, y, q, depth + 1), depth)
    # replace provably equal atoms on both sides, then retry with z3
    if depth < 6:
        ats = set()
        _collect_atoms(x, ats)
        _collect_atoms(y, ats)
        groups = {}
        for t in ats:
            groups.setdefault(_shape(t), []).append(t)
        mp = {}
        for g in groups.values():
            g = sorted(g, key=lambda t: t.id)
            for i in range(len(g)):
                for j in range(i):
                    if g[i] not in mp and g[j] not in mp and atoms_equal(g[j], g[i], pc, depth + 2):
                        mp[g[i]] = atom_poly(g[j])
        if mp:
            x2, y2 = subst(x, mp), subst(y, mp)
            if x2 is y2:
                return True
            return prove_iff(x2, y2, pc, depth + 6)
    return False


def _collect_atoms(c, out):
    for x in c.args:
        if isinstance(x, Cond):
            _collect_atoms(x, out)
        elif isinstance(x, Poly):
            for a in x.atoms():
                if a.args and a.name not in ('var', 'bv', 'num'):
                    out.add(a)
