"""Terms: hash-consed generalized polynomials over atoms (exact rationals).

A Poly is a finite sum of monomials  c * a1^e1 * ... * ak^ek  with rational c
and rational exponents over interned Atoms.  An Atom is a variable, a bound
variable, pi, NaN, or an application name(args) whose args are Polys, Conds,
Lams (binders), strings, numbers or tuples of those.
"""
from fractions import Fraction
import itertools

ZERO_F = Fraction(0)
ONE_F = Fraction(1)
EXPAND_CAP = 300

_ids = itertools.count(1)
_atoms = {}
_polys = {}
_lams = {}
_conds = {}


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ('id', 'name', 'args', 'sort', 'nonneg', 'h', 'fv')

    def __repr__(self):
        if self.name == 'var':
            return self.args[0]
        if self.name == 'bv':
            return 'b%d_%d' % self.args
        if self.name in ('pi', 'nan', 'I'):
            return self.name
        if self.name == 'psum':
            return '{%r}' % (self.args[0],)
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))

    def __lt__(self, o):
        return self.id < o.id

    def __deepcopy__(self, memo):
        return self


def _height(x):
    if isinstance(x, tuple):
        return max([_height(y) for y in x], default=0)
    return getattr(x, 'h', 0)


_EMPTY = frozenset()


def _fvs(x):
    """atoms of kind var occurring in x (frozenset)"""
    if isinstance(x, tuple):
        out = _EMPTY
        for y in x:
            out = out | _fvs(y)
        return out
    return getattr(x, 'fv', _EMPTY)


def mk_atom(name, args=(), sort='r', nonneg=False):
    key = (name, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = next(_ids)
        a.name = name
        a.args = args
        a.sort = sort
        a.nonneg = nonneg
        a.h = max([_height(x) for x in args], default=0)
        if name in ('var', 'bv'):
            a.fv = frozenset([a])
        else:
            a.fv = _fvs(args)
        _atoms[key] = a
    return a


class Poly:
    __slots__ = ('m', 'id', 'h', 'fv', '_int', '_lead')

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for mono, c in sorted(self.m.items(), key=lambda kv: _mono_key(kv[0])):
            fs = []
            for a, e in mono:
                fs.append(repr(a) if e == 1 else '%r^%s' % (a, e if e.denominator == 1 and e > 0 else '(%s)' % e))
            cs = fmt_frac(c)
            if fs and c == 1:
                s = '*'.join(fs)
            elif fs and c == -1:
                s = '-' + '*'.join(fs)
            else:
                s = '*'.join([cs] + fs)
            out.append(s)
        r = ' + '.join(out).replace('+ -', '- ')
        return r if len(r) < 4000 else r[:4000] + '...'

    def __deepcopy__(self, memo):
        return self

    def __add__(self, o):
        return add(self, P(o))

    def __radd__(self, o):
        return add(P(o), self)

    def __sub__(self, o):
        return add(self, neg(P(o)))

    def __rsub__(self, o):
        return add(P(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, P(o))

    def __rmul__(self, o):
        return mul(P(o), self)

    def __truediv__(self, o):
        return mul(self, power(P(o), -1))

    def __rtruediv__(self, o):
        return mul(P(o), power(self, -1))

    def __pow__(self, e):
        return power(self, e)

    @property
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    @property
    def const(self):
        return self.m.get((), ZERO_F)

    @property
    def is_zero(self):
        return not self.m

    def atoms(self):
        s = set()
        for mono in self.m:
            for a, _ in mono:
                s.add(a)
        return s


def fmt_frac(c):
    if c.denominator == 1:
        return str(c.numerator)
    return '%s' % c if c.denominator < 10**6 else repr(float(c))


def _mono_key(mono):
    return tuple((a.id, e) for a, e in mono)


def mk_poly(m):
    key = frozenset(m.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.m = m
        p.id = next(_ids)
        h = 0
        fv = _EMPTY
        for mono in m:
            for a, _ in mono:
                if a.h > h:
                    h = a.h
                if a.fv:
                    fv = fv | a.fv
        p.h = h
        p.fv = fv
        p._int = None
        p._lead = None
        _polys[key] = p
    return p


ZERO = mk_poly({})


def num(x):
    x = Fraction(x)
    return mk_poly({(): x}) if x else ZERO


ONE = num(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return num(int(x))
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        return num(dec(repr(x)))
    if isinstance(x, Atom):
        return atom_poly(x)
    if hasattr(x, 'poly'):
        return x.poly
    raise Unsupported('not a number term: %r' % (x,))


def dec(text):
    """exact value of a decimal literal"""
    return Fraction(text.replace('_', ''))


_apcache = {}


def atom_poly(a):
    p = _apcache.get(a)
    if p is None:
        p = mk_poly({((a, ONE_F),): ONE_F})
        _apcache[a] = p
    return p


def var(name, sort='r', nonneg=False):
    a = mk_atom('var', (name,), sort, nonneg)
    return atom_poly(a)


_fresh = [0]


def _next_fresh():
    _fresh[0] += 1
    return _fresh[0]



def fresh(prefix='k', sort='i', nonneg=False):
    return var('%s~%d' % (prefix, _next_fresh()), sort, nonneg)


def is_nan_poly(p):
    return p is NAN


def single_atom(p):
    """the atom if p is exactly one atom"""
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
    return None


def is_int(p):
    if p._int is None:
        r = True
        for mono, c in p.m.items():
            if c.denominator != 1:
                r = False
                break
            for a, e in mono:
                if a.sort != 'i' or e.denominator != 1 or e < 0:
                    r = False
                    break
            if not r:
                break
        p._int = r
    return p._int


# ---------------------------------------------------------------- arithmetic

def add(p, q):
    if not p.m:
        return q
    if not q.m:
        return p
    if p is NAN or q is NAN:
        return NAN
    if len(p.m) < len(q.m):
        p, q = q, p
    m = dict(p.m)
    for mono, c in q.m.items():
        v = m.get(mono)
        if v is None:
            m[mono] = c
        else:
            v = v + c
            if v:
                m[mono] = v
            else:
                del m[mono]
    return mk_poly(m)


def sum_polys(ps):
    m = {}
    for p in ps:
        if p is NAN:
            return NAN
        for mono, c in p.m.items():
            v = m.get(mono)
            if v is None:
                m[mono] = c
            else:
                v = v + c
                if v:
                    m[mono] = v
                else:
                    del m[mono]
    return mk_poly(m)


def neg(p):
    if p is NAN:
        return p
    return mk_poly({k: -c for k, c in p.m.items()})


def scale(p, c):
    if p is NAN:
        return p
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return mk_poly({k: v * c for k, v in p.m.items()})


def _mono_mul(a, b):
    """multiply two monomials; returns (mono, extra Poly factor or None)"""
    if not a:
        return b, None
    if not b:
        return a, None
    d = {}
    exps = None
    special = False
    for x, e in a:
        d[x] = e
        if x.name == 'exp':
            exps = x
    for x, e in b:
        if x in d:
            e2 = d[x] + e
            if e2:
                d[x] = e2
            else:
                del d[x]
            if x.name in ('psum', 'num', 'abs', 'exp', 'I'):
                special = True
        else:
            d[x] = e
            if x.name == 'exp' and exps is not None:
                special = True
    if special:
        return _fix_mono(d)
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), None


def _fix_mono(d):
    """normalize special atoms in a monomial dict -> (mono, extra factor or None)"""
    extra = None

    def mulx(p):
        nonlocal extra
        extra = p if extra is None else mul(extra, p)
    exparg = None
    nexp = 0
    for x in list(d):
        e = d[x]
        if x.name == 'exp':
            nexp += 1
            t = scale(x.args[0], e)
            exparg = t if exparg is None else add(exparg, t)
            if e != 1:
                nexp += 1
        elif x.name == 'psum':
            if e.denominator == 1 and e > 0:
                base = x.args[0]
                if len(base.m) ** int(e) <= EXPAND_CAP:
                    del d[x]
                    r = base
                    for _ in range(int(e) - 1):
                        r = mul(r, base)
                    mulx(r)
        elif x.name == 'num':
            n = x.args[0]
            q = e.numerator // e.denominator
            fr = e - q
            if q:
                del d[x]
                if fr:
                    d[x] = fr
                mulx(num(Fraction(n) ** q))
        elif x.name == 'abs':
            if e.denominator == 1 and e >= 2 or e.denominator == 1 and e <= -2:
                k = int(e) // 2 if e > 0 else -((-int(e)) // 2)
                rest = e - 2 * k
                del d[x]
                if rest:
                    d[x] = rest
                mulx(power(x.args[0], 2 * k))
        elif x.name == 'I':
            if e.denominator == 1:
                k = int(e) % 4
                del d[x]
                if k in (1, 3):
                    d[x] = ONE_F
                if k in (2, 3):
                    mulx(num(-1))
    if nexp > 1:
        for x in list(d):
            if x.name == 'exp':
                del d[x]
        mulx(exp_(exparg))
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), extra


def mul(p, q):
    if p is NAN or q is NAN:
        return NAN
    if not p.m or not q.m:
        return ZERO
    if p.is_const:
        return scale(q, p.const)
    if q.is_const:
        return scale(p, q.const)
    if len(p.m) * len(q.m) > EXPAND_CAP:
        return _lazy_mul(p, q)
    return mul_full(p, q)


def mul_full(p, q):
    m = {}
    extras = []
    for ma, ca in p.m.items():
        for mb, cb in q.m.items():
            mono, ex = _mono_mul(ma, mb)
            c = ca * cb
            if ex is not None:
                extras.append(mul(mk_poly({mono: c}), ex))
                continue
            v = m.get(mono)
            if v is None:
                m[mono] = c
            else:
                v = v + c
                if v:
                    m[mono] = v
                else:
                    del m[mono]
    r = mk_poly(m)
    if extras:
        r = sum_polys([r] + extras)
    return r


def _lazy_mul(p, q):
    """product kept as psum atoms instead of expanded"""
    def wrap(x):
        if len(x.m) == 1:
            return x
        c, mono, prim = primitive(x)
        return mk_poly({_mono_mul(mono, ((mk_atom('psum', (prim,), 'r'), ONE_F),))[0]: c}) \
            if True else x
    a, b = wrap(p), wrap(q)
    (ma, ca), = a.m.items()
    (mb, cb), = b.m.items()
    d = dict(ma)
    for x, e in mb:
        d[x] = d.get(x, ZERO_F) + e
        if not d[x]:
            del d[x]
    # do not re-expand psums here; still fix exp/num/abs
    keep = {x: d.pop(x) for x in list(d) if x.name == 'psum'}
    mono, ex = _fix_mono(d)
    dd = dict(mono)
    dd.update(keep)
    r = mk_poly({tuple(sorted(dd.items(), key=lambda t: t[0].id)): ca * cb})
    if ex is not None:
        r = mul(r, ex)
    return r


def lead(p):
    """deterministic leading monomial and its coefficient"""
    if p._lead is None:
        k = min(p.m, key=lambda mono: (-len(mono), _mono_key(mono)))
        p._lead = (k, p.m[k])
    return p._lead


def primitive(p):
    """p = c * mono * prim, prim with leading coefficient 1 and no monomial gcd.
    only integer-exponent atoms are extracted"""
    monos = list(p.m)
    common = dict(monos[0])
    for mo in monos[1:]:
        d = dict(mo)
        for a in list(common):
            if a in d:
                e = min(common[a], d[a])
                if e:
                    common[a] = e
                else:
                    del common[a]
            else:
                # treat missing as exponent 0: extract negative exponents too
                if common[a] < 0:
                    pass
                else:
                    del common[a]
    # negative exponents appearing in any monomial: extract the minimum
    for mo in monos:
        for a, e in mo:
            if e < 0:
                common[a] = min(common.get(a, ZERO_F), e)
    common = {a: e for a, e in common.items() if e and a.name not in ('exp', 'I')}
    # an atom with a negative min must be applied to all monomials
    if common:
        inv = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda t: t[0].id))
        m2 = {}
        for mo, c in p.m.items():
            d = dict(mo)
            for a, e in inv:
                v = d.get(a, ZERO_F) + e
                if v:
                    d[a] = v
                else:
                    d.pop(a, None)
            mm = tuple(sorted(d.items(), key=lambda t: t[0].id))
            m2[mm] = m2.get(mm, ZERO_F) + c
        m2 = {k: v for k, v in m2.items() if v}
        p = mk_poly(m2)
    if not p.m:
        return ZERO_F, (), ONE
    _, c = lead(p)
    prim = scale(p, 1 / c)
    return c, tuple(sorted(common.items(), key=lambda t: t[0].id)), prim


def atom_nonneg(a):
    if a.nonneg:
        return True
    if a.name in ('abs', 'exp', 'pi', 'num', 'sqrt'):
        return True
    if a.name == 'psum':
        return poly_nonneg(a.args[0])
    if a.name == 'ite':
        return poly_nonneg(a.args[1]) and poly_nonneg(a.args[2])
    return False


def mono_nonneg(mono):
    for a, e in mono:
        if e.denominator == 1 and e.numerator % 2 == 0 and a.sort != 'c':
            continue
        if e.denominator != 1:
            continue
        if not atom_nonneg(a):
            return False
    return True


def poly_nonneg(p):
    return all(c > 0 and mono_nonneg(mo) for mo, c in p.m.items())


def _factor_int(n):
    out = {}
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1 if d == 2 else 2
    if n > 1:
        r = None
        # perfect square / cube leftovers
        for k in (2, 3):
            x = round(n ** (1.0 / k)) if n < 10**300 else 0
            for y in (x - 1, x, x + 1):
                if y > 1 and y ** k == n:
                    r = (y, k)
        if r:
            out[r[0]] = out.get(r[0], 0) + r[1]
        else:
            out[n] = out.get(n, 0) + 1
    return out


def const_power(c, e):
    """c^e for rational c>0, rational e"""
    fac = {}
    for k, v in _factor_int(c.numerator).items():
        fac[k] = fac.get(k, 0) + v
    for k, v in _factor_int(c.denominator).items():
        fac[k] = fac.get(k, 0) - v
    r = ONE_F
    d = {}
    for pr, v in fac.items():
        ee = v * e
        q = ee.numerator // ee.denominator
        fr = ee - q
        r *= Fraction(pr) ** q
        if fr:
            d[mk_atom('num', (pr,), 'r', True)] = fr
    mono = tuple(sorted(d.items(), key=lambda t: t[0].id))
    return mk_poly({mono: r})


def power(p, e):
    p = P(p)
    if isinstance(e, Poly):
        if e.is_const:
            e = e.const
        else:
            return power_sym(p, e)
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if p is NAN:
        return NAN
    if not p.m:
        if e > 0:
            return ZERO
        raise ZeroDivisionError('0 ** %s' % e)
    if e.denominator == 1:
        n = int(e)
        if len(p.m) == 1:
            (mono, c), = p.m.items()
            d = {a: x * n for a, x in mono}
            mono2, ex = _fix_mono(d)
            r = mk_poly({mono2: c ** n})
            return r if ex is None else mul(r, ex)
        if n > 0:
            # binary power with cap
            if len(p.m) ** n <= EXPAND_CAP * 4:
                r = p
                for _ in range(n - 1):
                    r = mul_full(r, p)
                return r
            c, mono, prim = primitive(p)
            base = mk_atom('psum', (prim,))
            d = {a: x * n for a, x in mono}
            d[base] = d.get(base, ZERO_F) + n
            return mk_poly({tuple(sorted(d.items(), key=lambda t: t[0].id)): c ** n})
        c, mono, prim = primitive(p)
        if prim is ONE:
            return power(mk_poly({mono: c}), e)
        d = {a: x * n for a, x in mono}
        base = mk_atom('psum', (prim,))
        d[base] = d.get(base, ZERO_F) + n
        mono2, ex = _fix_mono(d)
        r = mk_poly({mono2: c ** n})
        return r if ex is None else mul(r, ex)
    # fractional exponent
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        out = ONE
        left = {}
        for a, x in mono:
            if a.name == 'exp':
                out = mul(out, exp_(scale(a.args[0], x * e)))
            elif atom_nonneg(a):
                mono2, ex = _fix_mono({a: x * e})
                t = mk_poly({mono2: ONE_F})
                out = mul(out, t if ex is None else mul(t, ex))
            elif a.name == 'psum' and x.denominator != 1:
                out = mul(out, mk_poly({((a, x * e),): ONE_F}))
            elif x.denominator == 1 and x.numerator % 2 == 0 and a.sort != 'c':
                # (a^2k)^e = |a|^(2ke)
                t = abs_(atom_poly(a))
                out = mul(out, power(t, x * e))
            else:
                left[a] = x
        if c > 0:
            out = mul(out, const_power(c, e))
            sgn = ONE_F
        else:
            out = mul(out, const_power(-c, e))
            sgn = -ONE_F
        if len(left) == 1 and sgn > 0 and next(iter(left)).name == 'psum':
            (a, x), = left.items()
            mono2, ex = _fix_mono({a: x * e})
            t = mk_poly({mono2: ONE_F})
            out = mul(out, t if ex is None else mul(t, ex))
        elif left:
            base = mk_poly({tuple(sorted(left.items(), key=lambda t: t[0].id)): sgn})
            at = mk_atom('psum', (base,))
            out = mul(out, mk_poly({((at, e),): ONE_F}))
        elif sgn < 0:
            at = mk_atom('psum', (num(-1),))
            out = mul(out, mk_poly({((at, e),): ONE_F}))
        return out
    c, mono, prim = primitive(p)
    if e.denominator == 2 and len(p.m) <= 15:
        r = poly_root(p)
        if r is not None:
            k, q = r
            return mul(const_power(k, e), power(abs_(q), 2 * e))
    # pull out the nonneg part only
    out = const_power(abs(c), e)
    rest = prim if c > 0 else neg(prim)
    pos = {}
    other = {}
    for a, x in mono:
        if atom_nonneg(a) or (x.denominator == 1 and x.numerator % 2 == 0 and a.sort != 'c'):
            pos[a] = x
        else:
            other[a] = x
    if pos:
        out = mul(out, power(mk_poly({tuple(sorted(pos.items(), key=lambda t: t[0].id)): ONE_F}), e))
    if other:
        rest = mul_full(rest, mk_poly({tuple(sorted(other.items(), key=lambda t: t[0].id)): ONE_F}))
    at = mk_atom('psum', (rest,))
    return mul(out, mk_poly({((at, e),): ONE_F}))


def poly_root(p):
    """(k, q) with p = k * q^2, k a positive rational; or None"""
    if any(a.sort == 'c' for mo in p.m for a, _ in mo):
        return None
    ats = sorted({a for mo in p.m for a, _ in mo}, key=lambda a: a.id)

    def order(mo):
        d = dict(mo)
        return [d.get(a, 0) for a in ats]
    lm = max(p.m, key=order)
    k = p.m[lm]
    if k <= 0 or any(e.denominator != 1 or e % 2 for _, e in lm):
        return None
    root = tuple((a, e / 2) for a, e in lm)
    q = mk_poly({root: ONE_F})
    for _ in range(8):
        rem = add(p, neg(scale(mul_full(q, q), k)))
        if not rem.m:
            return k, q
        t = max(rem.m, key=order)
        d = dict(t)
        for a, e in root:
            d[a] = d.get(a, 0) - e
        d = {a: e for a, e in d.items() if e}
        if any(e < 0 for e in d.values()) and not any(e < 0 for mo in p.m for _, e in mo):
            return None
        nt = tuple(sorted(d.items(), key=lambda z: z[0].id))
        if nt in q.m or order(nt) >= order(root):
            return None
        q = add(q, mk_poly({nt: rem.m[t] / k / 2}))
    return None


def power_sym(p, e):
    """p ** e with a symbolic exponent"""
    if p is ONE:
        return ONE
    return fn('powi', p, e, nonneg=poly_nonneg(p))


def sqrt(p):
    return power(p, Fraction(1, 2))


# ---------------------------------------------------------------- functions

def fn(name, *args, sort='r', nonneg=False):
    return atom_poly(mk_atom(name, tuple(args), sort, nonneg))


def neg_lead(p):
    return bool(p.m) and lead(p)[1] < 0


def _pi_mult(p):
    """p = q*pi with rational q, or None"""
    if not p.m:
        return ZERO_F
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if mono == ((PI_A, ONE_F),):
            return c
    return None


def _atan_arg(p, name):
    a = single_atom(p)
    if a is not None and a.name == name:
        return a.args[0]
    return None


def sin(p):
    p = P(p)
    if p is NAN:
        return NAN
    q = _pi_mult(p)
    if q is not None:
        q2 = q * 2
        if q2.denominator == 1:
            return [ZERO, ONE, ZERO, num(-1)][int(q2) % 4]
    if neg_lead(p):
        return neg(sin(neg(p)))
    for nm, f in (('arctan', lambda x: x / sqrt(1 + x * x)), ('arcsin', lambda x: x),
                  ('arccos', lambda x: sqrt(1 - x * x))):
        x = _atan_arg(p, nm)
        if x is not None:
            return f(x)
    return fn('sin', p)


def cos(p):
    p = P(p)
    if p is NAN:
        return NAN
    q = _pi_mult(p)
    if q is not None:
        q2 = q * 2
        if q2.denominator == 1:
            return [ONE, ZERO, num(-1), ZERO][int(q2) % 4]
    if neg_lead(p):
        p = neg(p)
    for nm, f in (('arctan', lambda x: 1 / sqrt(1 + x * x)), ('arccos', lambda x: x),
                  ('arcsin', lambda x: sqrt(1 - x * x))):
        x = _atan_arg(p, nm)
        if x is not None:
            return f(x)
    return fn('cos', p)


def tan(p):
    p = P(p)
    if p is NAN:
        return NAN
    if not p.m:
        return ZERO
    if neg_lead(p):
        return neg(tan(neg(p)))
    x = _atan_arg(p, 'arctan')
    if x is not None:
        return x
    return fn('tan', p)


def _odd(name):
    def f(p):
        p = P(p)
        if p is NAN:
            return NAN
        if not p.m:
            return ZERO
        if neg_lead(p):
            return neg(f(neg(p)))
        return fn(name, p)
    return f


arctan = _odd('arctan')
arcsin = _odd('arcsin')
erf = _odd('erf')
sinh = _odd('sinh')
tanh = _odd('tanh')


def arccos(p):
    p = P(p)
    return NAN if p is NAN else fn('arccos', p)


def arctan2(y, x):
    y, x = P(y), P(x)
    if y is NAN or x is NAN:
        return NAN
    if y.is_const and x.is_const and (y.is_zero or x.is_zero):
        a, b = y.const, x.const
        if b == 0:
            return ZERO if a == 0 else PI / 2 if a > 0 else -PI / 2
        return ZERO if b > 0 else PI
    return fn('arctan2', y, x)


def exp_(p):
    p = P(p)
    if p is NAN:
        return NAN
    if not p.m:
        return ONE
    a = single_atom(p)
    if a is not None and a.name == 'log':
        return a.args[0]
    return fn('exp', p, nonneg=True)


def log(p):
    p = P(p)
    if p is NAN:
        return NAN
    if p is ONE:
        return ZERO
    a = single_atom(p)
    if a is not None and a.name == 'exp':
        return a.args[0]
    return fn('log', p)


def abs_(p):
    p = P(p)
    if p is NAN:
        return NAN
    if not p.m:
        return ZERO
    if p.is_const:
        return num(abs(p.const))
    if poly_nonneg(p):
        return p
    if poly_nonneg(neg(p)):
        return neg(p)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        out = num(abs(c))
        left = {}
        for a, x in mono:
            if atom_nonneg(a) or (x.denominator == 1 and x.numerator % 2 == 0 and a.sort != 'c'):
                out = mul(out, mk_poly({((a, x),): ONE_F}))
            elif a.name == 'abs':
                out = mul(out, mk_poly({((a, x),): ONE_F}))
            else:
                left[a] = x
        for a, x in left.items():
            sort = 'i' if a.sort == 'i' else 'r'
            at = fn('abs', atom_poly(a), sort=sort, nonneg=True)
            out = mul(out, power(at, x))
        return out
    c, mono, prim = primitive(p)
    if neg_lead(prim):
        prim = neg(prim)
    at = fn('abs', prim, sort='i' if is_int(prim) else 'r', nonneg=True)
    out = mul(num(abs(c)), at)
    if mono:
        out = mul(out, abs_(mk_poly({mono: ONE_F})))
    return out


def floor(p):
    p = P(p)
    if p is NAN:
        return NAN
    if p.is_const:
        return num(p.const.numerator // p.const.denominator)
    if is_int(p):
        return p
    # pull out the integer part
    mi, mr = {}, {}
    for mono, c in p.m.items():
        ok = all(a.sort == 'i' and e.denominator == 1 and e > 0 for a, e in mono)
        if ok:
            q = c.numerator // c.denominator
            if q:
                mi[mono] = Fraction(q)
            if c - q:
                mr[mono] = c - q
        else:
            mr[mono] = c
    r = mk_poly(mr)
    i = mk_poly(mi)
    if r.is_const:
        return i + num(r.const.numerator // r.const.denominator)
    return add(i, fn('floor', r, sort='i', nonneg=poly_nonneg(r)))


def mod(p, q):
    """python modulo"""
    p, q = P(p), P(q)
    if p.is_const and q.is_const and q.const:
        a, b = p.const, q.const
        return num(a - b * ((a / b).numerator // (a / b).denominator))
    if p is NAN or q is NAN:
        return NAN
    return p - q * floor(p / q)


def re_(p):
    """real part, linear over real coefficients"""
    if p is NAN:
        return NAN
    out = []
    for mono, c in p.m.items():
        cpx = [(a, e) for a, e in mono if a.sort == 'c']
        real = tuple((a, e) for a, e in mono if a.sort != 'c')
        if not cpx:
            out.append(mk_poly({mono: c}))
        else:
            cm = mk_poly({tuple(cpx): ONE_F})
            if cm is IMAG:
                continue
            out.append(mul(mk_poly({real: c}), fn('Re', cm)))
    return sum_polys(out)


def conj_(p):
    if not any(a.sort == 'c' for a in p.atoms()):
        return p
    return fn('conj', p, sort='c')


def term_sort(p):
    r = 'i' if is_int(p) else 'r'
    for a in p.atoms():
        if a.sort == 'c':
            return 'c'
    return r


# ---------------------------------------------------------------- conditions

class Cond:
    __slots__ = ('op', 'args', 'id', 'h', 'fv')

    def __repr__(self):
        if self.op in ('le', 'lt', 'eq'):
            return '(%r %s 0)' % (self.args[0], {'le': '<=', 'lt': '<', 'eq': '=='}[self.op])
        if self.op in ('true', 'false'):
            return self.op
        if self.op == 'not':
            return '!%r' % (self.args[0],)
        if self.op in ('and', 'or'):
            return '(' + (' %s ' % self.op).join(sorted(map(repr, self.args))) + ')'
        return '%s%r' % (self.op, self.args)

    def __deepcopy__(self, memo):
        return self

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)


def _mk_cond(op, args):
    key = (op, args)
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.op = op
        c.args = args
        c.id = next(_ids)
        it = tuple(args)
        c.h = max([_height(x) for x in it], default=0)
        c.fv = _fvs(it)
        _conds[key] = c
    return c


TRUE = _mk_cond('true', ())
FALSE = _mk_cond('false', ())


def cbool(b):
    return TRUE if b else FALSE


def pred(name, *args):
    """uninterpreted predicate"""
    return _mk_cond('pred', (name,) + args)


def _norm_rel(p):
    """scale so that coefficients are small; positive scaling only"""
    if is_int(p) or all(a.sort == 'i' and e.denominator == 1 and e > 0 for mo in p.m for a, e in mo):
        import math
        den = 1
        for c in p.m.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for mo, c in p.m.items():
            if mo:
                g = math.gcd(g, int(c * den))
        return scale(p, Fraction(den, g or 1)), True
    _, c = lead(p)
    return scale(p, 1 / abs(c)), False


def le0(p):
    if p is NAN:
        return FALSE
    if p.is_const:
        return cbool(p.const <= 0)
    if poly_nonneg(neg(p)):
        return TRUE
    q, isint = _norm_rel(p)
    if isint:
        # sum + c <= 0  ->  sum + ceil(c) <= 0
        c = q.const
        if c.denominator != 1:
            q = q - c + num(-((-c).numerator // (-c).denominator))
    return _mk_cond('le', (q,))


def lt0(p):
    if p is NAN:
        return FALSE
    if p.is_const:
        return cbool(p.const < 0)
    if poly_nonneg(p):
        return FALSE
    q, isint = _norm_rel(p)
    if isint:
        return le0(scale(p, 1) + num(1)) if is_int(p) else le0(_int_lt(q))
    return _mk_cond('lt', (q,))


def _int_lt(q):
    # q has integer non-constant coefficients (coprime); q < 0 <=> q' + floor(c)+1 <= 0
    c = q.const
    base = q - c
    # base + c < 0 <=> base <= -c - eps <=> base <= ceil(-c)-1
    m = -c
    up = -((-m).numerator // (-m).denominator)
    return base - num(up - 1)


def eq0(p):
    if p is NAN:
        return FALSE
    if p.is_const:
        return cbool(p.const == 0)
    if len(p.m) == 1:
        # a product is zero iff one of its factors is; a reciprocal never is
        (mono, _), = p.m.items()
        if len(mono) > 1 or mono[0][1] != 1 or mono[0][0].name in ('abs', 'exp', 'pi', 'num', 'I', 'psum'):
            out = []
            for a, e in mono:
                if e < 0 or a.name in ('exp', 'pi', 'num', 'I'):
                    continue
                out.append(eq0(a.args[0] if a.name in ('abs', 'psum') else atom_poly(a)))
            return or_(*out) if out else FALSE
    if all(mono and all(e % 2 == 0 and a.sort != 'c' for a, e in mono) for mono in p.m) and \
            len({c > 0 for c in p.m.values()}) == 1:
        # a sum of squares is zero iff every one of them is
        return and_(*[eq0(mk_poly({mono: c})) for mono, c in p.m.items()])
    # factors common to every term that cannot be zero: what is divided by anywhere, pi, exp
    low = {}
    for mono in p.m:
        for a, e in mono:
            if a.sort != 'c' and (e < 0 or a.name in ('pi', 'exp')):
                low.setdefault(a, e)
    if low:
        low = {a: min(dict(mono).get(a, 0) for mono in p.m) for a in low}
        low = {a: e for a, e in low.items() if e < 0 or e > 0 and a.name in ('pi', 'exp')}
    if low:
        k = ONE
        for a, e in low.items():
            k = mul(k, power(atom_poly(a), -e))
        return eq0(mul_full(p, k))
    q, isint = _norm_rel(p)
    if isint and q.const.denominator != 1:
        return FALSE
    if neg_lead(q):
        q = neg(q)
    return _mk_cond('eq', (q,))


def le(a, b):
    return le0(P(a) - P(b))


def lt(a, b):
    return lt0(P(a) - P(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    a, b = P(a), P(b)
    if a is b:
        return cbool(a is not NAN)
    if a is NAN or b is NAN:
        return FALSE
    return eq0(a - b)


def ne(a, b):
    return not_(eq(a, b))


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'le':
        return lt0(neg(c.args[0]))
    if c.op == 'lt':
        return le0(neg(c.args[0]))
    if c.op == 'and':
        return or_(*[not_(x) for x in c.args])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.args])
    return _mk_cond('not', (c,))


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    return out


def and_(*cs):
    s = []
    seen = set()
    for c in _flat('and', cs):
        if c is FALSE:
            return FALSE
        if c is TRUE or c in seen:
            continue
        if not_(c) in seen:
            return FALSE
        seen.add(c)
        s.append(c)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _mk_cond('and', tuple(sorted(s, key=lambda c: c.id)))


def or_(*cs):
    s = []
    seen = set()
    for c in _flat('or', cs):
        if c is TRUE:
            return TRUE
        if c is FALSE or c in seen:
            continue
        seen.add(c)
        s.append(c)
    for c in s:
        if not_simple(c) in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    if len(s) <= 64 and any(c.op == 'and' for c in s):
        ds = _reduce([frozenset(c.args) if c.op == 'and' else frozenset((c,)) for c in s])
        if ds is not None:
            return or_(*[and_(*d) for d in ds])
    return _mk_cond('or', tuple(sorted(s, key=lambda c: c.id)))


def _reduce(ds):
    """A&x | E with E contained in A + {not x}  =  A | E;  a disjunct containing another is dropped.  None: nothing to do"""
    ds = list(dict.fromkeys(ds))
    changed = False
    again = True
    while again:
        again = False
        for i, d in enumerate(ds):
            if any(j != i and e <= d for j, e in enumerate(ds)):
                del ds[i]
                again = changed = True
                break
            for l in d:
                if l.op in ('and', 'or'):
                    continue
                m = not_(l)
                if any(j != i and m in e and e - {m} <= d for j, e in enumerate(ds)):
                    ds[i] = d - {l}
                    if not ds[i]:
                        return [frozenset()]
                    again = changed = True
                    break
            if again:
                break
    return ds if changed else None


def not_simple(c):
    if c.op in ('and', 'or'):
        return None
    return not_(c)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'lt':          # canonical: use le
        return ite(not_(c), b, a)
    # nested with the same condition
    x = single_atom(a)
    if x is not None and x.name == 'ite':
        if x.args[0] is c:
            a = x.args[1]
        elif x.args[2] is b:
            return ite(and_(c, x.args[0]), x.args[1], b)
    x = single_atom(b)
    if x is not None and x.name == 'ite':
        if x.args[0] is c:
            b = x.args[2]
        elif x.args[1] is a:
            return ite(or_(c, x.args[0]), a, x.args[2])
    if a is b:
        return a
    # a common coefficient is kept outside
    z, w = (b, a) if b.is_zero else (a, b)
    if z.is_zero and len(w.m) == 1 and not w.is_const:
        q = next(iter(w.m.values()))
        if q != 1:
            w = w / num(q)
            return num(q) * (ite(c, w, z) if z is b else ite(c, z, w))
    sort = 'i' if is_int(a) and is_int(b) else ('c' if 'c' in (term_sort(a), term_sort(b)) else 'r')
    return atom_poly(mk_atom('ite', (c, a, b), sort))


def cite(c, a, b):
    """conditional condition"""
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(a, b), b, a)


def unclamp(p):
    """x for max(x, 0): the two agree wherever the maximum is positive"""
    a = single_atom(P(p))
    if a is not None and a.name == 'ite':
        c, u, v = a.args
        if P(u).is_zero and c is le(v, ZERO):
            return v
        if P(v).is_zero and c is le(ZERO, u):
            return u
    return p


def isnan(p):
    p = P(p)
    if p is NAN:
        return TRUE
    out = []
    for a in p.atoms():
        out.append(_isnan_atom(a))
    return or_(*out) if out else FALSE


_nancache = {}


def _isnan_atom(a):
    r = _nancache.get(a)
    if r is None:
        if a is NAN_A:
            r = TRUE
        elif a.name == 'ite':
            c, x, y = a.args
            r = cite(c, isnan(x), isnan(y))
        elif a.name in ('var', 'bv', 'pi', 'num', 'I') or a.name.startswith('sel:'):
            r = FALSE
        else:
            cs = []
            for x in a.args:
                if isinstance(x, Poly):
                    cs.append(isnan(x))
            r = or_(*cs) if cs else FALSE
        _nancache[a] = r
    return r


# ---------------------------------------------------------------- binders

class Lam:
    """binder: lam (bv_0..bv_{n-1}). body ; body is a Poly or a Cond"""
    __slots__ = ('n', 'body', 'h', 'id', 'fv')

    def __repr__(self):
        return '\\%s.%r' % (','.join('b%d_%d' % (self.h, k) for k in range(self.n)), self.body)

    def __deepcopy__(self, memo):
        return self

    def open(self, *vs):
        assert len(vs) == self.n
        return subst(self.body, {mk_bv(self.h, k): P(v) for k, v in enumerate(vs)})


def mk_bv(h, k):
    return mk_atom('bv', (h, k), 'i', True)


def mk_lam(vs, body):
    """vs: list of var Polys (fresh int vars)"""
    h = body.h + 1
    mp = {}
    for k, v in enumerate(vs):
        mp[single_atom(v)] = atom_poly(mk_bv(h, k))
    b = subst(body, mp)
    key = (len(vs), b)
    l = _lams.get(key)
    if l is None:
        l = Lam()
        l.n = len(vs)
        l.body = b
        l.h = h
        l.id = next(_ids)
        l.fv = frozenset(a for a in b.fv if not (a.name == 'bv' and a.args[0] == h))
        _lams[key] = l
    return l


def lam1(f, prefix='k'):
    v = fresh(prefix)
    return mk_lam([v], f(v))


def sum_(lo, hi, f):
    """Sum_{lo <= k < hi} f(k); f python function or Lam"""
    lo, hi = P(lo), P(hi)
    if (hi - lo).is_const:
        n = (hi - lo).const
        if n.denominator == 1 and n <= 64:
            g = f.open if isinstance(f, Lam) else f
            return sum_polys([g(lo + k) for k in range(max(0, int(n)))])
    if isinstance(f, Lam):
        k = fresh('s', nonneg=False)
        body = f.open(k)
    else:
        k = fresh('s')
        body = f(k)
    ka = single_atom(k)
    if body is NAN:
        return NAN
    if ka not in body.fv:
        return body * (hi - lo)
    # linear: pull out monomials' k-free factors, canonical shift to lo = 0
    if not lo.is_zero:
        body = subst(body, {ka: k + lo})
    out = []
    groups = {}
    for mono, c in body.m.items():
        free = tuple((a, e) for a, e in mono if ka not in a.fv)
        dep = tuple((a, e) for a, e in mono if ka in a.fv)
        groups.setdefault(free, {})[dep] = c
    n = hi - lo
    for free, dep in groups.items():
        for d, c in dep.items():
            q = mk_poly({d: ONE_F}) if d else ONE
            if not d:
                t = n
            else:
                t = atom_poly(mk_atom('Sum', (n, mk_lam([k], q)),
                                      'c' if term_sort(q) == 'c' else ('i' if is_int(q) else 'r'),
                                      poly_nonneg(q)))
            out.append(mul(mk_poly({free: c}), t))
    return sum_polys(out)


# ---------------------------------------------------------------- constants

PI_A = mk_atom('pi', (), 'r', True)
PI = atom_poly(PI_A)
NAN_A = mk_atom('nan', (), 'r')
NAN = atom_poly(NAN_A)
I_A = mk_atom('I', (), 'c')
IMAG = atom_poly(I_A)


# ---------------------------------------------------------------- substitution

def rebuild(name, args, sort, nonneg):
    """re-apply the smart constructor of an atom"""
    f = _REBUILD.get(name)
    if f is not None:
        return f(*args)
    if name == 'psum':
        return args[0]
    return atom_poly(mk_atom(name, args, sort, nonneg))


def _rb_sum(n, lam):
    return sum_(0, n, lam)


_REBUILD = {'sin': sin, 'cos': cos, 'tan': tan, 'arctan': arctan, 'arcsin': arcsin,
            'arccos': arccos, 'arctan2': arctan2, 'exp': exp_, 'log': log, 'abs': abs_,
            'floor': floor, 'ite': ite, 'Re': re_, 'erf': erf, 'Sum': _rb_sum,
            'powi': power, 'conj': conj_, 'sinh': sinh, 'tanh': tanh}


def subst(t, mp):
    """mp: {Atom: Poly}; capture-free since binders are rebuilt with fresh vars"""
    if not mp:
        return t
    keys = frozenset(mp)
    return _subst(t, mp, keys, {})


def _subst(t, mp, keys, memo):
    if isinstance(t, (Poly, Cond, Lam, Atom)):
        if not (t.fv & keys) and not _has_nonvar(keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
    if isinstance(t, Poly):
        out = []
        simple = {}
        for mono, c in t.m.items():
            if not any(a in mp or (a.fv & keys) or _has_nonvar(keys) for a, _ in mono):
                simple[mono] = c
                continue
            r = num(c)
            for a, e in mono:
                s = _subst_atom(a, mp, keys, memo)
                r = mul(r, s if e == 1 else power(s, e))
            out.append(r)
        if out:
            r = sum_polys([mk_poly(simple)] + out)
        else:
            r = t
    elif isinstance(t, Cond):
        r = _subst_cond(t, mp, keys, memo)
    elif isinstance(t, Lam):
        vs = [fresh('l') for _ in range(t.n)]
        body = t.open(*vs)
        b2 = _subst(body, mp, keys, {})
        r = t if b2 is body else mk_lam(vs, b2)
    elif isinstance(t, Atom):
        r = _subst_atom(t, mp, keys, memo)
    elif isinstance(t, tuple):
        return tuple(_subst(x, mp, keys, memo) for x in t)
    else:
        return t
    memo[t] = r
    return r


def _has_nonvar(keys):
    for k in keys:
        if k.name not in ('var', 'bv'):
            return True
    return False


def _subst_atom(a, mp, keys, memo):
    r = mp.get(a)
    if r is not None:
        return r
    if not (a.fv & keys) and not _has_nonvar(keys):
        return atom_poly(a)
    if not a.args or a.name in ('var', 'bv'):
        return atom_poly(a)
    if a.name == 'ite':
        # a branch that the condition excludes may divide by zero
        c = _subst(a.args[0], mp, keys, memo)
        if c is TRUE or c is FALSE:
            return _subst(a.args[1 if c is TRUE else 2], mp, keys, memo)
        args = (c,) + tuple(_branch(x, mp, keys, memo) for x in a.args[1:])
    else:
        args = tuple(_subst(x, mp, keys, memo) for x in a.args)
    if args == a.args:
        return atom_poly(a)
    return rebuild(a.name, args, a.sort, a.nonneg)


def _branch(x, mp, keys, memo):
    try:
        return _subst(x, mp, keys, memo)
    except ZeroDivisionError:
        return fresh('undefined', 'r')


def _subst_cond(c, mp, keys, memo):
    if c.op == 'le':
        return le0(_subst(c.args[0], mp, keys, memo))
    if c.op == 'lt':
        return lt0(_subst(c.args[0], mp, keys, memo))
    if c.op == 'eq':
        return eq0(_subst(c.args[0], mp, keys, memo))
    if c.op == 'not':
        return not_(_subst(c.args[0], mp, keys, memo))
    if c.op == 'and':
        return and_(*[_subst(x, mp, keys, memo) for x in c.args])
    if c.op == 'or':
        return or_(*[_subst(x, mp, keys, memo) for x in c.args])
    if c.op == 'exists':
        n, lam = c.args
        return exists_(_subst(n, mp, keys, memo), _subst(lam, mp, keys, memo))
    if c.op in ('true', 'false'):
        return c
    return _mk_cond(c.op, _subst(c.args, mp, keys, memo))


def extent(n):
    """max(0, d) and d have the same indices 0 <= k < n"""
    n = P(n)
    a = single_atom(n)
    if a is not None and a.name == 'ite':
        c, x, y = a.args
        if x.is_zero and c.op == 'le' and c.args[0] is y:
            return y
    return n


def exists_(n, lam):
    """exists 0 <= k < n: lam(k)"""
    n = extent(n)
    k = fresh('e')
    body = lam.open(k) if isinstance(lam, Lam) else lam(k)
    ka = single_atom(k)
    if ka not in body.fv:
        return and_(body, lt(0, n))
    # split independent conjuncts
    if body.op == 'and':
        dep = [x for x in body.args if ka in x.fv]
        ind = [x for x in body.args if ka not in x.fv]
        if ind:
            return and_(exists_(n, mk_lam([k], and_(*dep))), *ind)
    if n.is_const and n.const <= 16:
        return or_(*[subst(body, {ka: num(i)}) for i in range(int(n.const))])
    return _mk_cond('exists', (n, mk_lam([k], body)))


def find_atom(t, name, ok=lambda a: True):
    """some atom of that name in t outside lambdas"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, (Poly, Cond, Atom)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, Atom) and x.name == name and ok(x):
            return x
        if isinstance(x, Poly):
            for mo in x.m:
                st.extend(a for a, _ in mo)
        else:
            st.extend(x.args)
    return None


def size(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, (Poly, Cond, Lam, Atom)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, Poly):
            for mo in x.m:
                st.extend(a for a, _ in mo)
        elif isinstance(x, Lam):
            st.append(x.body)
        else:
            st.extend(x.args)
    return len(seen)
