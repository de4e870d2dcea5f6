"""Trusted models of numpy (and scipy.special / scipy.signal) on symbolic arrays."""
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover
from .prover import DOMAINS, SIDE
from .values import *

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def dt_of(ty):
    return {'int': 'i', 'float': 'f', 'complex': 'c', 'bool': 'b'}[ty]


def ty_of(dt):
    return {'i': 'int', 'f': 'float', 'c': 'complex', 'b': 'bool'}[dt]


def elem_value(I, A, idx):
    """python value of an element / sub-array"""
    if len(idx) == A.ndim:
        return wrap(A.at(*idx), A.dtype)
    rest = A.shape[len(idx):]
    return I.new_arr(Arr(rest, lambda j: A.at(*(tuple(idx) + tuple(j))), A.dtype))


def wrap(x, dtype):
    if isinstance(x, Cond):
        return mk_bool(x)
    if isinstance(x, Poly):
        if dtype == 'b':
            return mk_bool(ne(x, 0))
        return mk_num(x, {'i': 'int', 'f': 'float', 'c': 'complex', 'O': 'float'}[dtype])
    return x


def as_poly(x):
    if isinstance(x, Cond):
        return ite(x, ONE, ZERO)
    return P(x)


def as_cond(x):
    if isinstance(x, Cond):
        return x
    return ne(x, 0)


def to_arr(I, v):
    """coerce a value to array content"""
    if isinstance(v, ArrRef):
        return I.arr(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, (bool, SBool)):
        c = I.cond(v)
        return Arr((), lambda _: c, 'b')
    if I.is_number(v):
        p = I.poly(v)
        return Arr((), lambda _: p, dt_of(I.numty(v)))
    if isinstance(v, ObjRef):
        r = I.bm.obj_to_arr(I, v)
        if r is not None:
            return r
    if isinstance(v, (ListRef, tuple, RangeVal, SymIter)) and not hasattr(v, 'poly'):
        items = I.concrete_items(v)
        if items is not None:
            return arr_from_items(I, items)
        it = I.iterate(v)
        k = fresh('q')
        s0 = it.at(k)
        if isinstance(s0, (bool, SBool)):
            return Arr((it.n,), lambda ix: I.cond(it.at(ix[0])), 'b')
        if I.is_number(s0):
            return Arr((it.n,), lambda ix: I.poly(it.at(ix[0])), dt_of(I.numty(s0)))
        if isinstance(s0, (ArrRef, ListRef, tuple)) and not getattr(s0, 'is_str', False):
            try:
                sub = to_arr(I, s0)
                ka = single_atom(k)
                if all(ka not in d.fv for d in sub.shape):
                    return Arr((it.n,) + sub.shape,
                               lambda ix: to_arr(I, it.at(ix[0])).at(*ix[1:]), sub.dtype)
            except Unsupported:
                pass
        return Arr((it.n,), lambda ix: it.at(ix[0]), 'O', {'list': v})
    if hasattr(v, 'to_arr'):
        return v.to_arr(I)
    if v is None or isinstance(v, (str,)) or hasattr(v, 'is_str'):
        return Arr((), lambda _: v, 'O')
    raise Unsupported('array from %r' % (v,))


def arr_from_items(I, items):
    subs = []
    for x in items:
        if isinstance(x, (ListRef, tuple, ArrRef)) or hasattr(x, 'to_arr') or \
                isinstance(x, (RangeVal, SymIter)):
            subs.append(to_arr(I, x))
        else:
            subs.append(None)
    n = len(items)
    if n and all(s is not None for s in subs):
        shp = subs[0].shape
        for s in subs[1:]:
            if len(s.shape) != len(shp) or not all(same_dim(I, a, b) for a, b in zip(s.shape, shp)):
                raise PyRaise('ValueError', 'inhomogeneous array')
        dts = {s.dtype for s in subs}
        dt = join_dt(dts)
        return Arr((num(n),) + shp, lambda ix: select_poly(n, ix[0], lambda k: subs[k].at(*ix[1:]), dt), dt)
    if any(s is not None for s in subs):
        raise PyRaise('ValueError', 'inhomogeneous array')
    if all(isinstance(x, (bool, SBool)) for x in items) and n:
        cs = [I.cond(x) for x in items]
        return Arr((num(n),), lambda ix: select_poly(n, ix[0], lambda k: cs[k], 'b'), 'b')
    if all(I.is_number(x) for x in items):
        ps = [I.poly(x) for x in items]
        dt = join_dt({dt_of(I.numty(x)) for x in items}) if items else 'f'
        return Arr((num(n),), lambda ix: select_poly(n, ix[0], lambda k: ps[k], dt), dt)
    return Arr((num(n),), lambda ix: select_obj(I, items, ix[0]), 'O')


def select_obj(I, items, i):
    if i.is_const:
        return items[int(i.const)]
    return I.select_concrete(items, i)


def select_poly(n, i, f, dt):
    if n == 0:
        return ZERO if dt != 'b' else FALSE
    if i.is_const:
        k = int(i.const)
        if not 0 <= k < n:
            return ZERO if dt != 'b' else FALSE
        return f(k)
    if dt == 'O':
        raise Unsupported('symbolic selection of objects')
    r = f(n - 1)
    for k in range(n - 2, -1, -1):
        x = f(k)
        if isinstance(x, Cond) or isinstance(r, Cond):
            r = cite(eq(i, k), as_cond(x), as_cond(r))
        else:
            r = ite(eq(i, k), x, r)
    return r


def join_dt(ds):
    ds = set(ds)
    for d in ('O', 'c', 'f', 'i', 'b'):
        if d in ds:
            return d
    return 'f'


def same_dim(I, a, b):
    if a is b:
        return True
    d = a - b
    if d.is_const:
        return d.is_zero
    if prover.prove_eq(a, b, I.pc):
        return True
    return I.decide(eq(a, b))


def broadcast(I, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        d = None
        for s in shapes:
            j = ax - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is ONE:
                if d is None:
                    d = ONE
                continue
            if d is None or d is ONE:
                d = x
            elif not same_dim(I, d, x):
                # a symbolic dimension may still be 1
                raise PyRaise('ValueError', 'operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bidx(shape, nd, idx):
    """index into an operand of given shape from an nd broadcast index"""
    off = nd - len(shape)
    return tuple(ZERO if shape[j] is ONE else idx[j + off] for j in range(len(shape)))


def ewise(I, f, arrs, dtype):
    """elementwise map; f gets raw elements (Poly or Cond)"""
    shp = broadcast(I, [a.shape for a in arrs])
    nd = len(shp)

    def g(idx):
        return f(*[a.at(*bidx(a.shape, nd, idx)) for a in arrs])
    return Arr(shp, g, dtype)


def ret(I, A):
    """array content -> value (0-d arrays become scalars)"""
    if A.ndim == 0:
        return wrap(A.at(), A.dtype)
    return I.new_arr(A)


def num_ewise(I, f, vs, dtype=None):
    arrs = [to_arr(I, v) for v in vs]
    for a in arrs:
        if a.dtype == 'O':
            arrs = [obj_to_num(a) for a in arrs]
            break
    dt = dtype or join_dt([a.dtype for a in arrs] + ['f'])
    return ret(I, ewise(I, lambda *xs: f(*[as_poly(x) for x in xs]), arrs, dt))


def obj_to_num(a):
    def f(ix):
        x = a.at(*ix)
        if isinstance(x, (Poly, Cond)):
            return as_poly(x)
        if isinstance(x, (int, Num)):
            return P(x)
        raise Unsupported('numeric operation on objects %r' % (x,))
    return Arr(a.shape, f, 'f') if a.dtype == 'O' else a


def binop(I, op, a, b):
    if op == 'MatMult':
        return matmul(I, [a, b], {})
    A, B = to_arr(I, a), to_arr(I, b)
    if A.dtype == 'O' or B.dtype == 'O':
        r = I.bm.obj_array_binop(I, op, A, B)
        if r is not None:
            return r
        A, B = obj_to_num(A), obj_to_num(B)
    if op in ('BitAnd', 'BitOr', 'BitXor') and A.dtype == 'b' and B.dtype == 'b':
        f = {'BitAnd': and_, 'BitOr': or_,
             'BitXor': lambda x, y: or_(and_(x, not_(y)), and_(not_(x), y))}[op]
        return ret(I, ewise(I, f, [A, B], 'b'))
    dt = join_dt([A.dtype, B.dtype])
    if dt == 'b':
        dt = 'i'
    if op == 'Div' and dt == 'i':
        dt = 'f'
    return ret(I, ewise(I, lambda x, y: I.poly_op(op, as_poly(x), as_poly(y)), [A, B], dt))


def compare(I, op, a, b):
    A, B = to_arr(I, a), to_arr(I, b)
    if A.dtype == 'O' or B.dtype == 'O':
        r = I.bm.obj_array_compare(I, op, A, B)
        if r is not None:
            return r
        A, B = obj_to_num(A), obj_to_num(B)
    f = I.CMP[op]
    if A.dtype == 'b' and B.dtype == 'b' and op in ('Eq', 'NotEq'):
        g = lambda x, y: or_(and_(x, y), and_(not_(x), not_(y)))
        if op == 'NotEq':
            return ret(I, ewise(I, lambda x, y: not_(g(x, y)), [A, B], 'b'))
        return ret(I, ewise(I, g, [A, B], 'b'))
    return ret(I, ewise(I, lambda x, y: nan_cmp(f, as_poly(x), as_poly(y)), [A, B], 'b'))


def nan_cmp(f, x, y):
    c = f(x, y)
    n = or_(T.isnan(x), T.isnan(y))
    if n is FALSE:
        return c
    return and_(not_(n), c)


def unary(I, op, v):
    A = to_arr(I, v)
    if op == 'USub':
        return ret(I, Arr(A.shape, lambda ix: neg(as_poly(A.at(*ix))), A.dtype))
    if op == 'UAdd':
        return ret(I, A)
    if op == 'Invert' and A.dtype == 'b':
        return ret(I, Arr(A.shape, lambda ix: not_(A.at(*ix)), 'b'))
    raise Unsupported('unary %s on array' % op)


def inplace(I, ref, op, v):
    A = I.arr(ref)
    r = binop(I, op, ref, v)
    R = to_arr(I, r)
    if len(R.shape) != len(A.shape):
        raise PyRaise('ValueError', 'non-broadcastable output')
    if join_dt([R.dtype, A.dtype]) != A.dtype:
        raise PyRaise('TypeError', 'cannot cast output in place')
    setitem(I, ref, SliceVal(None, None, None), r)


# ---------------------------------------------------------------- indexing

def expand_index(I, A, idx):
    """normalize to a list of per-source-dim specs; None entries = newaxis.
    spec: ('pt',p) ('rng',lo,len,step) ('mask',M) ('fancy',F)"""
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    ell = [k for k, x in enumerate(idx) if isinstance(x, type(Ellipsis)) or x is Ellipsis]

    def ndims(x):
        if x is None:
            return 0
        if isinstance(x, ArrRef):
            M = I.arr(x)
            if M.dtype == 'b':
                return M.ndim
        return 1
    used = sum(ndims(x) for x in idx if x is not Ellipsis)
    if ell:
        k = ell[0]
        idx[k:k + 1] = [SliceVal(None, None, None)] * (A.ndim - used)
    else:
        idx += [SliceVal(None, None, None)] * (A.ndim - used)
    if used > A.ndim:
        raise PyRaise('IndexError', 'too many indices')
    specs = []
    d = 0
    for x in idx:
        if x is None:
            specs.append(None)
            continue
        if isinstance(x, SliceVal):
            lo, ln, st = I.slice_bounds(x, A.shape[d])
            specs.append(('rng', lo, ln, st))
            d += 1
        elif isinstance(x, (ArrRef, ListRef, RangeVal)):
            M = to_arr(I, x)
            if isinstance(x, ListRef) and M.dtype == 'b' or isinstance(x, ArrRef) and M.dtype == 'b':
                for j in range(M.ndim):
                    if not same_dim(I, M.shape[j], A.shape[d + j]):
                        raise PyRaise('IndexError', 'boolean index did not match')
                specs.append(('mask', M, d))
                d += M.ndim
            elif M.ndim == 0:
                specs.append(('pt', I.norm_index(mk_num(as_poly(M.at()), 'int'), A.shape[d])))
                d += 1
            else:
                if M.dtype not in 'i' and not (M.shape[0].is_zero):
                    if M.dtype == 'O':
                        M = obj_to_num(M)
                    elif M.dtype == 'f':
                        raise PyRaise('IndexError', 'arrays used as indices must be of integer type')
                specs.append(('fancy', M))
                d += 1
        elif I.is_number(x):
            if I.numty(x) == 'float':
                raise PyRaise('IndexError', 'only integers are valid indices')
            if isinstance(x, bool):
                raise Unsupported('boolean scalar index')
            specs.append(('pt', I.norm_index(x, A.shape[d])))
            d += 1
        elif isinstance(x, str):
            raise PyRaise('IndexError', 'only integers are valid indices')
        else:
            raise Unsupported('index %r' % (x,))
    return specs


def getitem(I, ref, idx):
    A = I.arr(ref)
    specs = expand_index(I, A, idx)
    kinds = [s[0] if s is not None else None for s in specs]
    if 'mask' in kinds or 'fancy' in kinds:
        return getitem_fancy(I, A, specs)
    # basic indexing
    shape = []
    for s in specs:
        if s is None:
            shape.append(ONE)
        elif s[0] == 'rng':
            shape.append(s[2])
    if not shape:
        return wrap(A.at(*[s[1] for s in specs]), A.dtype)

    def fwd(ix):
        out = []
        j = 0
        for s in specs:
            if s is None:
                j += 1
            elif s[0] == 'pt':
                out.append(s[1])
            else:
                out.append(s[1] + ix[j] * s[3])
                j += 1
        return tuple(out)

    def inv(bx):
        cond, out = [], []
        d = 0
        for s in specs:
            if s is None:
                out.append(ZERO)
                continue
            if s[0] == 'pt':
                cond.append(eq(bx[d], s[1]))
            else:
                st = s[3]
                if st == 1:
                    v = bx[d] - s[1]
                elif st == -1:
                    v = s[1] - bx[d]
                else:
                    raise Unsupported('write through a strided view')
                cond += [le(0, v), lt(v, s[2])]
                out.append(v)
            d += 1
        return and_(*cond), tuple(out)
    r = ArrRef()
    I.heap[r] = View(ref, tuple(shape), fwd, inv, A.dtype)
    return r


def mask_where(M):
    """integer index arrays of the true entries of a 1-d mask"""
    n = M.shape[0]
    k = fresh('w')
    lam = mk_lam([k], M.at(k))
    cnt = count_true(M)

    def f(ix):
        return nth(n, lam, ix[0])
    return Arr((cnt,), f, 'i', {'where': (M, 0)})


def nth(n, lam, j):
    return fn('nth', T.extent(n), lam, j, sort='i', nonneg=True)


def _dom_first(args, pos, vs):
    return [le(0, vs[0]), lt(vs[0], args[0])]


DOMAINS['nth'] = _dom_first


def _side_nth(z, r, args):
    """position of the j-th true entry: in range, true there, and increasing in j (where j counts an entry)"""
    import z3
    n, lam, j = args
    a = mk_atom('nth', args, 'i', True)
    cnt = z.poly(sum_(0, n, lambda k: ite(lam.open(k), ONE, ZERO)))
    zj = z.poly(j)
    out = [r >= 0, z3.Implies(z3.And(zj >= 0, zj < cnt), z3.And(r < z.poly(n), z.cond(lam.open(atom_poly(a)))))]
    if j.m.get((), 0) == 0 and not j.is_zero:
        out.append(z3.Implies(z3.And(zj >= 0, zj + 1 < cnt), r < z.poly(nth(n, lam, j + 1))))
    return out


SIDE['nth'] = _side_nth


def count_true(M):
    if M.ndim != 1:
        raise Unsupported('count over a %d-d mask' % M.ndim)
    n = M.shape[0]
    return sum_(0, n, lambda k: ite(as_cond(M.at(k)), ONE, ZERO))


def getitem_fancy(I, A, specs):
    fancy = [s for s in specs if s is not None and s[0] in ('mask', 'fancy')]
    if any(s is None for s in specs):
        raise Unsupported('newaxis with fancy index')
    if len(fancy) == 1 and fancy[0][0] == 'mask' and fancy[0][1].ndim == 1 or \
            len(fancy) == 1 and fancy[0][0] == 'fancy':
        out_shape = []
        plan = []
        for s in specs:
            if s[0] == 'pt':
                plan.append(('pt', s[1]))
            elif s[0] == 'rng':
                plan.append(('rng', s[1], s[3], len(out_shape)))
                out_shape.append(s[2])
            else:
                if s[0] == 'mask':
                    W = mask_where(s[1])
                else:
                    W = s[1]
                    src = W.info['where'][0].shape[0] if W.info.get('where') else W.info.get('unique_n')
                    if src is None or not (src is A.shape[len(plan)] or
                                           prover.prove(I.pc, le(src, A.shape[len(plan)]))):
                        check_index_range(I, W, A.shape[len(plan)])
                plan.append(('fancy', W, len(out_shape), W.ndim))
                out_shape.extend(W.shape)

        def f(ix):
            bx = []
            for p in plan:
                if p[0] == 'pt':
                    bx.append(p[1])
                elif p[0] == 'rng':
                    bx.append(p[1] + ix[p[3]] * p[2])
                else:
                    v = as_poly(p[1].at(*ix[p[2]:p[2] + p[3]]))
                    if not p[1].info.get('where') and not p[1].info.get('nonneg') and v.is_const and v.const < 0:
                        v = v + A.shape[len(bx)]
                    bx.append(v)
            return A.at(*bx)
        info = {}
        if A.ndim == 1 and len(plan) == 1:
            info['taken'] = (A, plan[0][1])
        return ret(I, Arr(tuple(out_shape), f, A.dtype, info))
    if len(fancy) == 1 and fancy[0][0] == 'mask' and len(specs) == 1:
        M = fancy[0][1]
        if M.ndim != 2 or A.ndim != 2:
            raise Unsupported('n-d boolean selection')
        n, at = select2(M)
        return ret(I, Arr((n,), lambda ix: A.at(at(0, ix[0]), at(1, ix[0])), A.dtype))
    # several index arrays: broadcast together (all dims fancy or points)
    if all(s[0] in ('fancy', 'pt') for s in specs):
        shp = broadcast(I, [s[1].shape for s in specs if s[0] == 'fancy'])
        nd = len(shp)

        def f(ix):
            bx = []
            for s in specs:
                if s[0] == 'pt':
                    bx.append(s[1])
                else:
                    bx.append(as_poly(s[1].at(*bidx(s[1].shape, nd, ix))))
            return A.at(*bx)
        return ret(I, Arr(shp, f, A.dtype))
    raise Unsupported('fancy index combination')


def select2(M):
    """(how many entries of the 2-d mask are true, the row (0) / column (1) of the k-th of them in reading order)"""
    vs = [fresh('w'), fresh('w')]
    lam = mk_lam(vs, as_cond(M.at(*vs)))
    n = fn('count2', M.shape[0], M.shape[1], lam, sort='i', nonneg=True)
    return n, lambda ax, k: fn('nth2', str(ax), M.shape[0], M.shape[1], lam, k, sort='i', nonneg=True)


def check_index_range(I, W, n):
    if W.ndim == 1 and W.shape[0].is_const and W.shape[0].const <= 16:
        for k in range(int(W.shape[0].const)):
            I.norm_index(mk_int(as_poly(W.at(num(k)))), n)
        return
    vs = [fresh('ix') for _ in W.shape]
    dom = []
    for v, s in zip(vs, W.shape):
        dom += [le(0, v), lt(v, s)]
    e = as_poly(W.at(*vs))
    pc = I.pc.extend(*dom)
    if not (prover.prove(pc, le(0, e)) and prover.prove(pc, lt(e, n))):
        raise Unsupported('cannot prove index array in range')


def setitem(I, ref, idx, v):
    ent = I.heap[ref]
    if isinstance(ent, Arr) and ent.info.get('ro'):
        raise PyRaise('ValueError', 'assignment destination is read-only')
    if isinstance(ent, View):
        if read_only(I, ref):
            raise PyRaise('ValueError', 'assignment destination is read-only')
        A = I.arr(ref)
        new = stored(I, A, idx, v, log=False)
        if ent.inv is None:
            raise Unsupported('write through this view')
        base_ref, inv = ent.base, ent.inv
        B = I.arr(base_ref)

        def f(bx):
            c, ix = inv(bx)
            if c is FALSE:
                return B.at(*bx)
            x, o = new.at(*ix), B.at(*bx)
            if c is TRUE:
                return x
            return cite(c, x, o) if isinstance(x, Cond) else ite(c, as_poly(x), o)
        full = Arr(B.shape, f, B.dtype)
        # propagate through nested views
        if isinstance(I.heap[base_ref], View):
            setitem(I, base_ref, SliceVal(None, None, None), I.new_arr(full))
        else:
            I.heap[base_ref] = full
            I.writes.append((base_ref, None, None))
        return
    I.heap[ref] = stored(I, ent, idx, v, ref=ref)


def read_only(I, ref):
    e = I.heap[ref]
    while isinstance(e, View):
        e = I.heap[e.base]
    return bool(e.info.get('ro'))


def cast_store(I, A, x, dtype):
    """element conversion on store"""
    if A.dtype == 'O':
        return x
    if A.dtype == 'b':
        return as_cond(x)
    p = as_poly(x)
    if A.dtype == 'i' and not is_int(p) and p is not NAN:
        if prover.decide(I.pc, le(0, p)) is True:
            return prover.floor(p, I.pc)
        raise Unsupported('real value stored into an integer array')
    if A.dtype == 'i' and p is NAN:
        raise PyRaise('ValueError', 'cannot convert float NaN to integer')
    if A.dtype in 'if' and T.term_sort(p) == 'c':
        raise PyRaise('TypeError', 'complex into real array')
    return p


def stored(I, A, idx, v, ref=None, log=True):
    specs = expand_index(I, A, idx)
    specs = [s for s in specs if s is not None]
    if isinstance(v, (Opaque,)):
        raise Unsupported('store of %r' % (v,))
    if A.dtype == 'O' and not isinstance(v, (ArrRef,)):
        V = Arr((), lambda _: raw(v), 'O')
    else:
        V = to_arr(I, v)
        if A.dtype != 'O' and V.dtype == 'O':
            x0 = V.at(*[fresh('o') for _ in V.shape])
            if isinstance(x0, str) or hasattr(x0, 'is_str'):
                raise Unsupported('string stored into a numeric array')
            if x0 is None:
                V = Arr(V.shape, lambda _: NAN, 'f')
            else:
                V = obj_to_num(V)
    multi = [s for s in specs if s[0] in ('fancy', 'mask')]
    dims = []   # shape of the assigned region
    for s in specs:
        if s[0] == 'rng':
            dims.append(s[2])
        elif s[0] == 'fancy':
            dims.extend(s[1].shape if len(multi) == 1 else [])
    if len(multi) > 1 or any(s[0] == 'mask' and True for s in multi):
        # scatter: scalar value, or a value that is itself selected by the same mask
        return stored_scatter(I, A, specs, V, v, ref)
    # broadcast check
    nd = len(dims)
    if V.ndim > nd:
        lead_dims = V.shape[:V.ndim - nd]
        if not all(d is ONE for d in lead_dims):
            raise PyRaise('ValueError', 'could not broadcast input array')
    for j in range(1, min(nd, V.ndim) + 1):
        if V.shape[-j] is not ONE and not same_dim(I, V.shape[-j], dims[-j]):
            raise PyRaise('ValueError', 'could not broadcast input array')

    def vat(sub):
        off = len(sub) - V.ndim
        ix = []
        for j in range(V.ndim):
            ix.append(ZERO if V.shape[j] is ONE else sub[j + off])
        return cast_store(I, A, V.at(*ix), V.dtype)
    fz = [s for s in specs if s[0] == 'fancy']
    if fz:
        return stored_fancy(I, A, specs, V, v, vat, ref)
    # freeze scalar conversions now (may fork/raise on the current path)
    probe = vat([fresh('v') for _ in dims]) if A.dtype != 'O' else None

    def f(ix):
        cond, sub = [], []
        for d, s in enumerate(specs):
            if s[0] == 'pt':
                cond.append(eq(ix[d], s[1]))
            else:
                lo, ln, st = s[1], s[2], s[3]
                if st == 1:
                    k = ix[d] - lo
                    cond += [le(0, k), lt(k, ln)] if not (lo.is_zero and ln is A.shape[d]) else []
                elif st == -1:
                    k = lo - ix[d]
                    cond += [le(0, k), lt(k, ln)]
                else:
                    if isinstance(st, Poly):
                        raise Unsupported('store with symbolic step')
                    k = T.floor((ix[d] - lo) / st)
                    cond += [eq(k * st, ix[d] - lo), le(0, k), lt(k, ln)]
                sub.append(k)
        c = and_(*cond) if cond else TRUE
        if c is TRUE:
            return vat(sub)
        old = A.at(*ix)
        if c is FALSE:
            return old
        x = vat(sub)
        if isinstance(old, Cond):
            return cite(c, x, old)
        if A.dtype == 'O':
            return I.merge_obj(c, x, old)
        return ite(c, x, old)
    if log and ref is not None:
        I.writes.append((ref, tuple(specs), vat))
    return Arr(A.shape, f, A.dtype, keep_info(A))


def keep_info(A):
    return {}


def raw(v):
    """heap element representation of a value for object arrays"""
    return v


def stored_scatter(I, A, specs, V, v, ref):
    I.writes.append((ref, None, None))
    masks = [s for s in specs if s[0] == 'mask']
    if len(masks) == 1 and all(s[0] in ('mask', 'rng') for s in specs):
        m = masks[0]
        M, d0 = m[1], m[2]
        for s in specs:
            if s[0] == 'rng' and not (s[1].is_zero and s[3] == 1):
                raise Unsupported('mask with partial slice store')
        if V.ndim == 0:
            x = cast_store(I, A, V.at(), V.dtype)

            def f(ix):
                c = as_cond(M.at(*ix[d0:d0 + M.ndim]))
                old = A.at(*ix)
                return cite(c, x, old) if isinstance(old, Cond) else ite(c, x, old)
            return Arr(A.shape, f, A.dtype)
        # x[mask] = expr(x[mask]) : the value must be a selection by the same mask
        if V.ndim == 1 and M.ndim == 1 and len(specs) == 1:
            n = M.shape[0]
            if not same_dim(I, V.shape[0], count_true(M)):
                raise PyRaise('ValueError', 'NumPy boolean array indexing assignment')
            # element with rank j gets V[j]; rank of ix = number of true entries before
            def f(ix):
                i = ix[0]
                rank = sum_(0, i, lambda k: ite(as_cond(M.at(k)), ONE, ZERO))
                x = V.at(rank)
                # V mentions nth(mask, rank(i)) = i when mask(i)
                k = fresh('w')
                lam = mk_lam([k], M.at(k))
                a = single_atom(nth(n, lam, rank))
                x2 = T.subst(as_poly(x), {a: i})
                return ite(as_cond(M.at(i)), x2, A.at(i))
            return Arr(A.shape, f, A.dtype)
        if V.ndim == 1 and M.ndim == 2 and len(specs) == 1:
            n, at = select2(M)
            if not same_dim(I, V.shape[0], n):
                raise PyRaise('ValueError', 'NumPy boolean array indexing assignment')
            k = fresh('k')
            v0 = as_poly(cast_store(I, A, V.at(k), V.dtype))
            here = [single_atom(at(ax, k)) for ax in range(2)]

            def f(ix):
                # the entry of rank k of the selection is the one at (row k, column k)
                x = T.subst(v0, dict(zip(here, ix)))
                if isinstance(x, Poly) and single_atom(k) in x.fv:
                    raise Unsupported('the rank of an element in a 2-d selection')
                return ite(as_cond(M.at(*ix)), x, A.at(*ix))
            return Arr(A.shape, f, A.dtype)
        raise Unsupported('array value stored through a mask')
    fz = [s for s in specs if s[0] == 'fancy']
    if len(fz) == len(specs) and V.ndim == 0 and all(s[1].info.get('where2') for s in fz):
        Ms = {id(s[1].info['where2'][0]) for s in fz}
        if len(Ms) == 1 and [s[1].info['where2'][1] for s in fz] == list(range(len(fz))):
            M = fz[0][1].info['where2'][0]
            x = cast_store(I, A, V.at(), V.dtype)

            def f(ix):
                c = as_cond(M.at(*ix))
                old = A.at(*ix)
                return cite(c, x, old) if isinstance(old, Cond) else ite(c, x, old)
            return Arr(A.shape, f, A.dtype)
    raise Unsupported('scatter store')


def stored_fancy(I, A, specs, V, v, vat, ref):
    """one index array; supported when it comes from np.where / a mask, or is short"""
    I.writes.append((ref, None, None))
    pos = [k for k, s in enumerate(specs) if s[0] == 'fancy'][0]
    W = specs[pos][1]
    others = [s for k, s in enumerate(specs) if k != pos]
    for s in others:
        if s[0] == 'rng' and not (s[1].is_zero and s[3] == 1):
            raise Unsupported('partial slice with fancy store')
        if s[0] == 'pt':
            raise Unsupported('point with fancy store')
    hit = None
    if W.info.get('where') is not None:
        M = W.info['where'][0]
        if M.ndim == 1 and same_dim(I, M.shape[0], A.shape[pos]):
            hit = lambda i: as_cond(M.at(i))
    elif W.info.get('where2') is not None:
        M, ax = W.info['where2']

        def hit(i, M=M, ax=ax):
            assert M.ndim == 2
            o = 1 - ax
            return T.exists_(M.shape[o], lambda k: as_cond(M.at(*((i, k) if ax == 0 else (k, i)))))
    elif W.shape[0].is_const and W.shape[0].const <= 16 and W.ndim == 1:
        vals = [as_poly(W.at(num(k))) for k in range(int(W.shape[0].const))]
        hit = lambda i: or_(*[eq(i, q) for q in vals]) if vals else FALSE
    if hit is None or V.ndim != 0:
        raise Unsupported('fancy store')
    x = cast_store(I, A, V.at(), V.dtype)

    def f(ix):
        c = hit(ix[pos])
        old = A.at(*ix)
        return cite(c, x, old) if isinstance(old, Cond) else ite(c, x, old)
    return Arr(A.shape, f, A.dtype)


# ---------------------------------------------------------------- attributes

def getattr_(I, ref, name):
    A = I.heap[ref]
    if name == 'shape':
        return tuple(mk_int(s) for s in A.shape)
    if name == 'ndim':
        return len(A.shape)
    if name == 'size':
        n = ONE
        for s in A.shape:
            n = n * s
        return mk_int(n)
    if name == 'T':
        return transpose(I, [ref], {})
    if name == 'dtype':
        return TypeVal({'i': 'int64', 'f': 'float64', 'c': 'complex128', 'b': 'bool', 'O': 'object'}[A.dtype])
    if name == 'real':
        return MODELS['numpy.real'](I, [ref], {})
    if name == 'imag':
        return MODELS['numpy.imag'](I, [ref], {})
    if name == 'values':
        raise PyRaise('AttributeError', 'values')
    if name in METHODS:
        m = METHODS[name]
        return Builtin('ndarray.' + name, lambda I2, a, k: m(I2, [ref] + list(a), k))
    raise Unsupported('array attribute %s' % name)


@model('numpy.transpose')
def transpose(I, args, kw):
    ref = args[0]
    A = I.arr(ref) if isinstance(ref, ArrRef) else to_arr(I, ref)
    if not isinstance(ref, ArrRef):
        ref = I.new_arr(A)
    r = ArrRef()
    rev = lambda ix: tuple(reversed(ix))
    I.heap[r] = View(ref, tuple(reversed(A.shape)), rev, lambda bx: (TRUE, rev(bx)), A.dtype)
    return r


@model('numpy.copy', 'numpy.array', 'copy.copy', 'copy.deepcopy')
def np_array(I, args, kw):
    v = args[0]
    if isinstance(v, (ListRef,)) and False:
        pass
    A = to_arr(I, v)
    dt = kw.get('dtype', args[1] if len(args) > 1 else None)
    A = astype(I, A, dt)
    return I.new_arr(Arr(A.shape, A._fn, A.dtype, {k: x for k, x in A.info.items() if k != 'ro'}))   # a new array is writable


def astype(I, A, dt):
    if dt is None:
        return A
    nm = dt if isinstance(dt, str) else getattr(dt, 'name', None)
    if nm is None:
        raise Unsupported('dtype %r' % (dt,))
    nm = nm.split('.')[-1]
    t = {'float': 'f', 'float64': 'f', 'int': 'i', 'int64': 'i', 'complex': 'c', 'complex128': 'c',
         'bool': 'b', 'object': 'O', 'datetime': 'O', 'float_': 'f', 'double': 'f', 'bool_': 'b', 'int_': 'i',
         'int32': 'i', 'str': 'O'}.get(nm)
    if t is None:
        raise Unsupported('dtype %s' % nm)
    if t == A.dtype:
        return A
    if t == 'O':
        return Arr(A.shape, lambda ix: wrap(A.at(*ix), A.dtype), 'O')
    if t in 'fc' and A.dtype in 'ifcb':
        return Arr(A.shape, lambda ix: as_poly(A.at(*ix)), t)
    if t == 'i' and A.dtype in 'ifb':
        def f(ix):
            p = as_poly(A.at(*ix))
            if is_int(p):
                return p
            return ite(le(0, p), T.floor(p), neg(T.floor(neg(p))))
        return Arr(A.shape, f, 'i')
    if t == 'b':
        return Arr(A.shape, lambda ix: as_cond(A.at(*ix)), 'b')
    if t == 'f' and A.dtype == 'O':
        return obj_to_num(A)
    raise Unsupported('astype %s' % nm)


@model('numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'numpy.atleast_1d')
def np_asarray(I, args, kw):
    v = args[0]
    if isinstance(v, ArrRef):
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        A = I.arr(v)
        B = astype(I, A, dt)
        if B is A:
            return v
        return I.new_arr(B)
    r = np_array(I, args, kw)
    A = I.arr(r)
    return r


def shape_arg(I, v):
    if isinstance(v, (tuple, ListRef)):
        return tuple(I.poly(x) for x in I.concrete_items(v))
    return (I.poly(v),)


def _full(val):
    def f(I, args, kw):
        shp = shape_arg(I, kw.get('shape', args[0] if args else None))
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        A = Arr(shp, lambda _: num(val), 'f')
        return I.new_arr(astype_new(I, A, dt))
    return f


def astype_new(I, A, dt):
    if dt is not None and getattr(dt, 'name', dt) not in ('float', 'float64', 'numpy.float64'):
        return astype(I, A, dt)
    return A


MODELS['numpy.zeros'] = _full(0)
MODELS['numpy.ones'] = _full(1)


@model('numpy.full')
def np_full(I, args, kw):
    shp = shape_arg(I, kw.get('shape', args[0] if args else None))
    v = kw.get('fill_value', args[1] if len(args) > 1 else None)
    V = to_arr(I, v)
    return I.new_arr(astype_new(I, Arr(shp, lambda _: V.at(), V.dtype), kw.get('dtype')))


@model('numpy.empty')
def np_empty(I, args, kw):
    shp = shape_arg(I, kw.get('shape', args[0] if args else None))
    dt = kw.get('dtype', args[1] if len(args) > 1 else None)
    tag = fresh('empty')
    nm = 'sel:' + repr(tag)
    nmt = getattr(dt, 'name', dt)
    nmt = nmt.split('.')[-1] if isinstance(nmt, str) else nmt
    d = {'int': 'i', 'complex': 'c', None: 'f', 'float': 'f', 'object': 'O', 'datetime': 'O', 'bool': 'b',
         'float64': 'f', 'complex128': 'c', 'int64': 'i'}.get(nmt, 'f')
    if d == 'O':
        return I.new_arr(Arr(shp, lambda ix: None, 'O', {'empty': True}))
    if d == 'b':
        return I.new_arr(Arr(shp, lambda ix: T.pred(nm, *ix), 'b'))
    return I.new_arr(Arr(shp, lambda ix: fn(nm, *ix, sort={'i': 'i', 'c': 'c', 'f': 'r'}[d]), d))


def _like(val):
    def f(I, args, kw):
        A = to_arr(I, args[0])
        if val is None:
            return np_empty(I, [tuple(mk_int(s) for s in A.shape)],
                            {'dtype': TypeVal({'i': 'int', 'f': 'float', 'c': 'complex', 'b': 'bool', 'O': 'object'}[A.dtype])})
        B = Arr(A.shape, lambda _: num(val), 'f' if A.dtype == 'f' else A.dtype if A.dtype in 'ic' else 'f')
        if A.dtype == 'b':
            B = Arr(A.shape, lambda _: cbool(val), 'b')
        return I.new_arr(astype_new(I, B, kw.get('dtype')))
    return f


MODELS['numpy.zeros_like'] = _like(0)
MODELS['numpy.ones_like'] = _like(1)
MODELS['numpy.empty_like'] = _like(None)


@model('numpy.full_like')
def np_full_like(I, args, kw):
    A = to_arr(I, args[0])
    V = to_arr(I, args[1])
    dt = A.dtype
    return I.new_arr(astype_new(I, Arr(A.shape, lambda _: V.at(), dt if dt != 'i' or V.dtype == 'i' else dt), kw.get('dtype')))


@model('numpy.arange')
def np_arange(I, args, kw):
    a = [I.poly(x) for x in args]
    lo, hi, st = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) >= 2:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            st = a[2]
    ints = all(I.numty(x) == 'int' for x in args)
    d = (hi - lo) / st
    n = neg(T.floor(neg(d)))
    if not n.is_const:
        x = prover.decide(I.pc, le(0, n))
        if x is not True:
            n = max_(n, ZERO)
    elif n.const < 0:
        n = ZERO
    return I.new_arr(Arr((n,), lambda ix: lo + ix[0] * st, 'i' if ints else 'f', {'arange': (lo, st)}))


@model('numpy.linspace')
def np_linspace(I, args, kw):
    lo, hi = I.poly(args[0]), I.poly(args[1])
    n = I.poly(kw.get('num', args[2] if len(args) > 2 else 50))
    ep = kw.get('endpoint', True)
    den = n - 1 if ep is True else n
    return I.new_arr(Arr((n,), lambda ix: lo + ix[0] * (hi - lo) / den, 'f'))


def concat1(I, arrs):
    """concatenate 1-d arrays"""
    parts = []
    for a in arrs:
        ps = a.info.get('parts')
        parts.extend(ps if ps else [a])
    parts = [p for p in parts if not p.shape[0].is_zero]
    dts = [a.dtype for a in arrs if not (a.shape[0].is_zero and a.dtype == 'f' and len(arrs) > 1)] or ['f']
    # numpy keeps float for empty float arrays combined with ints
    dt = join_dt([a.dtype for a in arrs])
    if not parts:
        return Arr((ZERO,), lambda ix: ZERO, dt)
    if len(parts) == 1:
        p = parts[0]
        return Arr(p.shape, lambda ix: p.at(*ix) if p.dtype == 'b' and dt == 'b' else
                   (as_poly(p.at(*ix)) if dt != 'O' else p.at(*ix)), dt, {'parts': parts})
    offs = []
    o = ZERO
    for p in parts:
        offs.append(o)
        o = o + p.shape[0]

    def f(ix):
        i = ix[0]
        r = None
        for p, off in zip(reversed(parts), reversed(offs)):
            x = None
            if i.is_const and off.is_const and p.shape[0].is_const:
                if off.const <= i.const < off.const + p.shape[0].const:
                    return p.at(i - off)
                continue
            if r is None:
                r = p.at(i - off)
            else:
                c = lt(i, off + p.shape[0])
                x = p.at(i - off) if c is not FALSE else None
                if c is FALSE:
                    continue
                if c is TRUE:
                    r = x
                elif dt == 'O':
                    r = I.merge_obj(c, x, r)
                elif isinstance(x, Cond) or isinstance(r, Cond):
                    r = cite(c, as_cond(x), as_cond(r)) if dt == 'b' else ite(c, as_poly(x), as_poly(r))
                else:
                    r = ite(c, x, r)
        return ZERO if r is None else r
    return Arr((o,), f, dt, {'parts': parts})


def flat(I, A):
    """C-order flattening"""
    if A.ndim == 1:
        return A
    if A.ndim == 0:
        return Arr((ONE,), lambda ix: A.at(), A.dtype)
    return reshape_arr(I, A, (None,))


def reshape_arr(I, A, newshape):
    total = ONE
    for s in A.shape:
        total = total * s
    ns = list(newshape)
    if None in ns:
        k = ns.index(None)
        rest = ONE
        for s in ns:
            if s is not None:
                rest = rest * s
        ns[k] = total / rest if not rest is ONE else total
    else:
        t = ONE
        for s in ns:
            t = t * s
        if not prover.prove_eq(t, total, I.pc):
            if not I.decide(eq(t, total)):
                raise PyRaise('ValueError', 'cannot reshape')
    ns = tuple(ns)
    # drop unit dims on both sides; identical remaining dims -> no arithmetic
    src = [(d, s) for d, s in enumerate(A.shape) if s is not ONE]
    dst = [(d, s) for d, s in enumerate(ns) if s is not ONE]
    if len(src) == len(dst) and all(a[1] is b[1] or prover.prove_eq(a[1], b[1], I.pc) for a, b in zip(src, dst)):
        def f(ix):
            bx = [ZERO] * A.ndim
            for (d, _), (e, _) in zip(src, dst):
                bx[d] = ix[e]
            return A.at(*bx)
        return Arr(ns, f, A.dtype)
    if A.info.get('reshaped') is not None:
        B, sh = A.info['reshaped']
        if len(B.shape) == len(ns) and all(x is y for x, y in zip(B.shape, ns)):
            return B

    if A.ndim == 1 and len(ns) == 2:
        def f(ix):
            return A.at(ix[0] * ns[1] + ix[1])
        return Arr(ns, f, A.dtype, {'reshaped': (A, A.shape)})
    if A.ndim == 2 and len(dst) == 1:
        e = dst[0][0]
        m = A.shape[1]

        def f(ix):
            i = ix[e]
            q = T.floor(i / m)
            return A.at(q, i - m * q)
        return Arr(ns, f, A.dtype, {'reshaped': (A, A.shape)})
    raise Unsupported('reshape')


@model('numpy.append')
def np_append(I, args, kw):
    if kw.get('axis', args[2] if len(args) > 2 else None) is not None:
        return np_concatenate(I, [I.new_list([args[0], args[1]])], {'axis': kw.get('axis', args[2] if len(args) > 2 else None)})
    A = flat(I, to_arr(I, args[0]))
    B = flat(I, to_arr(I, args[1]))
    return I.new_arr(concat1(I, [A, B]))


@model('numpy.concatenate')
def np_concatenate(I, args, kw):
    items = I.concrete_items(args[0])
    if items is None:
        return concat_map(I, args[0])
    arrs = [to_arr(I, x) for x in items]
    ax = kw.get('axis', args[1] if len(args) > 1 else 0)
    if ax is None:
        return I.new_arr(concat1(I, [flat(I, a) for a in arrs]))
    if any(a.ndim == 0 for a in arrs):
        raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
    ax = int(I.poly(ax).const)
    nd = arrs[0].ndim
    if ax < 0:
        ax += nd
    if nd == 1:
        return I.new_arr(concat1(I, arrs))
    return I.new_arr(concat_nd(I, arrs, ax))


def concat_nd(I, arrs, ax):
    nd = arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != nd:
            raise PyRaise('ValueError', 'dimension mismatch')
        for d in range(nd):
            if d != ax and not same_dim(I, a.shape[d], arrs[0].shape[d]):
                raise PyRaise('ValueError', 'concatenation dims')
    dt = join_dt([a.dtype for a in arrs])
    offs, o = [], ZERO
    for a in arrs:
        offs.append(o)
        o = o + a.shape[ax]
    shp = list(arrs[0].shape)
    shp[ax] = o

    def f(ix):
        i = ix[ax]
        r = None
        for p, off in zip(reversed(arrs), reversed(offs)):
            c = lt(i, off + p.shape[ax])
            if r is None:
                jx = list(ix)
                jx[ax] = i - off
                if c is TRUE or c is not FALSE:
                    if i.is_const and off.is_const and i.const < off.const:
                        continue
                    r = p.at(*jx)
                continue
            if c is FALSE:
                continue
            jx = list(ix)
            jx[ax] = i - off
            x = p.at(*jx)
            r = x if c is TRUE else (cite(c, as_cond(x), as_cond(r)) if dt == 'b' else ite(c, as_poly(x), as_poly(r)))
        if r is None:
            jx = list(ix)
            r = arrs[0].at(*jx)
        return r
    return Arr(tuple(shp), f, dt)


def concat_map(I, lst):
    """np.concatenate of a symbolic list of 1-d arrays"""
    it = I.iterate(lst)
    return I.new_arr(concat_map_arr(I, it.n, lambda k: to_arr(I, it.at(k))))


def through_nth(n, k, ts):
    """n counts the entries of 0..m-1 that satisfy c, and ts depend on k through the k-th such entry alone:
    (m, c(k), ts over that entry, again named k)"""
    a = single_atom(P(n))
    if a is None or a.name != 'Sum':
        return None
    m, lam = a.args
    b = single_atom(lam.open(k))
    if b is None or b.name != 'ite' or b.args[1:] != (ONE, ZERO):
        return None
    c = b.args[0]
    at = single_atom(nth(m, mk_lam([k], c), k))
    z = fresh('c')
    out = [T.subst(t, {at: z}) for t in ts]
    ka = single_atom(k)
    if any(ka in t.fv for t in out):
        return None
    za = single_atom(z)
    return m, c, [T.subst(t, {za: k}) for t in out]


def concat_map_arr(I, n, piece):
    """concatenation of piece(0) ++ ... ++ piece(n-1), 1-d arrays"""
    k = fresh('c')
    A = piece(k)
    if A.ndim != 1:
        raise Unsupported('concatenation of symbolic pieces')
    i = fresh('c')
    ln = A.shape[0]
    e = A.at(i)
    if A.dtype == 'O':
        raise Unsupported('concatenation of object pieces')
    e = as_poly(e)
    w = through_nth(n, k, (ln, e))
    if w is not None:
        # only the entries that satisfy a condition contribute, in order: the others contribute nothing
        n, c, (ln, e) = w
        ln = ite(c, ln, ZERO)
    lenlam = mk_lam([k], ln)
    bodylam = mk_lam([k, i], e)
    total = sum_(0, n, lenlam)
    sort = T.term_sort(e)
    return Arr((total,), lambda ix: cat_term(n, lenlam, bodylam, ix[0], sort), A.dtype)


def cat_term(n, lenlam, bodylam, i, sort=None):
    if n.is_const and n.const == 1:
        return bodylam.open(ZERO, i)
    return fn('CAT', n, lenlam, bodylam, i, sort=sort or T.term_sort(bodylam.open(*[fresh('c') for _ in range(2)])))


T._REBUILD['CAT'] = cat_term


def _dom_cat(args, pos, vs):
    n, lenlam, bodylam, i = args
    if pos == 1:
        return [le(0, vs[0]), lt(vs[0], n)]
    return [le(0, vs[0]), lt(vs[0], n), le(0, vs[1]), lt(vs[1], lenlam.open(vs[0]))]


DOMAINS['CAT'] = _dom_cat


@model('numpy.hstack')
def np_hstack(I, args, kw):
    items = I.concrete_items(args[0])
    if items is None:
        return concat_map(I, args[0])
    arrs = [to_arr(I, x) for x in items]
    arrs = [flat(I, a) if a.ndim == 0 else a for a in arrs]
    if all(a.ndim == 1 for a in arrs):
        return I.new_arr(concat1(I, arrs))
    return I.new_arr(concat_nd(I, arrs, 1))


@model('numpy.vstack', 'numpy.row_stack')
def np_vstack(I, args, kw):
    items = I.concrete_items(args[0])
    if items is None:
        raise Unsupported('vstack of a symbolic list')
    arrs = [to_arr(I, x) for x in items]
    arrs = [flat(I, a) if a.ndim == 0 else a for a in arrs]
    arrs = [Arr((ONE,) + a.shape, (lambda a: lambda ix: a.at(ix[1]))(a), a.dtype) if a.ndim == 1 else a for a in arrs]
    return I.new_arr(concat_nd(I, arrs, 0))


@model('numpy.stack')
def np_stack(I, args, kw):
    items = I.concrete_items(args[0])
    ax = kw.get('axis', args[1] if len(args) > 1 else 0)
    arrs = [to_arr(I, x) for x in items]
    nd = arrs[0].ndim
    if ax < 0:
        ax += nd + 1

    def lift(a):
        shp = a.shape[:ax] + (ONE,) + a.shape[ax:]
        return Arr(shp, lambda ix: a.at(*(ix[:ax] + ix[ax + 1:])), a.dtype)
    return I.new_arr(concat_nd(I, [lift(a) for a in arrs], ax))


@model('numpy.column_stack')
def np_column_stack(I, args, kw):
    items = I.concrete_items(args[0])
    arrs = [to_arr(I, x) for x in items]
    arrs = [Arr(a.shape + (ONE,), (lambda a: lambda ix: a.at(ix[0]))(a), a.dtype) if a.ndim == 1 else a for a in arrs]
    return I.new_arr(concat_nd(I, arrs, 1))


# ---------------------------------------------------------------- elementwise functions

def _ufunc1(name, f, dtype='f'):
    def g(I, args, kw):
        if kw.get('out') is not None or kw.get('where') is not None:
            raise Unsupported('ufunc out/where')
        v = args[0]
        A = to_arr(I, v)
        if A.dtype == 'O':
            A = obj_to_num(A)
        dt = dtype
        if dtype is None:
            dt = A.dtype if A.dtype != 'b' else 'i'
        elif A.dtype == 'c' and dtype == 'f':
            dt = 'c'
        r = Arr(A.shape, lambda ix: f(as_poly(A.at(*ix))), dt)
        return ret(I, r)
    MODELS[name] = g
    return g


def ceil_(p):
    return neg(T.floor(neg(p)))


def sign_(p):
    return ite(le(p, 0), ite(le(0, p), ZERO, num(-1)), ONE)


def rint_(p):
    if is_int(p):
        return p
    return fn('rint', p, sort='i')


def trunc_(p):
    if is_int(p):
        return p
    return ite(le(0, p), T.floor(p), neg(T.floor(neg(p))))


D2R = PI / 180
for _n, _f in (('sin', sin), ('cos', cos), ('tan', tan), ('arctan', arctan), ('arcsin', arcsin),
               ('arccos', arccos), ('sqrt', sqrt), ('exp', exp_), ('log', log), ('sinh', T.sinh),
               ('tanh', T.tanh)):
    _ufunc1('numpy.' + _n, _f)
    _ufunc1('math.' + {'arctan': 'atan', 'arcsin': 'asin', 'arccos': 'acos'}.get(_n, _n), _f)
for _n in ('deg2rad', 'radians'):
    _ufunc1('numpy.' + _n, lambda p: p * D2R)
_ufunc1('math.radians', lambda p: p * D2R)
for _n in ('rad2deg', 'degrees'):
    _ufunc1('numpy.' + _n, lambda p: p / D2R)
_ufunc1('math.degrees', lambda p: p / D2R)
for _n in ('abs', 'absolute', 'fabs'):
    _ufunc1('numpy.' + _n, abs_, None)
_ufunc1('math.fabs', abs_)
_ufunc1('numpy.floor', T.floor)
_ufunc1('numpy.ceil', ceil_)
_ufunc1('numpy.rint', rint_)
_ufunc1('numpy.trunc', trunc_)
_ufunc1('numpy.sign', sign_, None)
_ufunc1('numpy.square', lambda p: p * p, None)
_ufunc1('numpy.negative', neg, None)
_ufunc1('numpy.reciprocal', lambda p: 1 / p)
_ufunc1('numpy.real', re_, 'f')
_ufunc1('numpy.conj', T.conj_, None)
_ufunc1('numpy.conjugate', T.conj_, None)
_ufunc1('scipy.special.erf', erf)
_ufunc1('math.erf', erf)


def erfc(p):
    return 1 - erf(p)


def erfinv(p):
    if not p.m:
        return ZERO
    if neg_lead(p):
        return neg(erfinv(neg(p)))
    a = single_atom(p)
    if a is not None and a.name == 'erf':
        return a.args[0]
    return fn('erfinv', p)


def erfcinv(p):
    # erfcinv(x) = erfinv(1 - x)
    return erfinv(1 - p)


_ufunc1('scipy.special.erfc', erfc)
_ufunc1('math.erfc', erfc)
_ufunc1('scipy.special.erfinv', erfinv)
_ufunc1('scipy.special.erfcinv', erfcinv)


def real_model(I, args, kw):
    A = to_arr(I, args[0])
    return ret(I, Arr(A.shape, lambda ix: re_(as_poly(A.at(*ix))), 'f'))


MODELS['numpy.real'] = real_model


@model('numpy.imag')
def np_imag(I, args, kw):
    A = to_arr(I, args[0])
    return ret(I, Arr(A.shape, lambda ix: re_(as_poly(A.at(*ix)) * IMAG * -1), 'f'))


def _ufunc2(name, f, dtype=None):
    def g(I, args, kw):
        if kw.get('out') is not None:
            raise Unsupported('ufunc out')
        arrs = [to_arr(I, args[0]), to_arr(I, args[1])]
        dt = dtype or join_dt([a.dtype for a in arrs])
        if dt == 'b':
            dt = 'i'
        return ret(I, ewise(I, lambda x, y: f(as_poly(x), as_poly(y)), arrs, dt))
    MODELS[name] = g


_ufunc2('numpy.minimum', min_)
_ufunc2('numpy.maximum', max_)
_ufunc2('numpy.fmin', min_)
_ufunc2('numpy.fmax', max_)
_ufunc2('numpy.arctan2', arctan2, 'f')
_ufunc2('math.atan2', arctan2, 'f')
_ufunc2('numpy.hypot', lambda x, y: sqrt(x * x + y * y), 'f')
_ufunc2('math.hypot', lambda x, y: sqrt(x * x + y * y), 'f')
_ufunc2('numpy.mod', T.mod)
_ufunc2('numpy.remainder', T.mod)
_ufunc2('numpy.power', lambda x, y: power(x, y))
_ufunc2('math.pow', lambda x, y: power(x, y), 'f')

for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'),
               ('true_divide', 'Div'), ('floor_divide', 'FloorDiv')):
    MODELS['numpy.' + _n] = (lambda o: lambda I, a, k: I.binop(o, a[0], a[1]))(_o)
for _n, _o in (('greater', 'Gt'), ('less', 'Lt'), ('greater_equal', 'GtE'), ('less_equal', 'LtE'),
               ('equal', 'Eq'), ('not_equal', 'NotEq')):
    MODELS['numpy.' + _n] = (lambda o: lambda I, a, k: I.compare(o, a[0], a[1]))(_o)


@model('numpy.logical_and')
def np_land(I, args, kw):
    return ret(I, ewise(I, lambda x, y: and_(as_cond(x), as_cond(y)), [to_arr(I, a) for a in args[:2]], 'b'))


@model('numpy.logical_or')
def np_lor(I, args, kw):
    return ret(I, ewise(I, lambda x, y: or_(as_cond(x), as_cond(y)), [to_arr(I, a) for a in args[:2]], 'b'))


@model('numpy.logical_not', 'numpy.invert')
def np_lnot(I, args, kw):
    A = to_arr(I, args[0])
    return ret(I, Arr(A.shape, lambda ix: not_(as_cond(A.at(*ix))), 'b'))


@model('numpy.isnan', 'math.isnan')
def np_isnan(I, args, kw):
    A = to_arr(I, args[0])
    if A.dtype == 'O':
        A = obj_to_num(A)
    return ret(I, Arr(A.shape, lambda ix: T.isnan(as_poly(A.at(*ix))), 'b'))


@model('numpy.isfinite', 'math.isfinite')
def np_isfinite(I, args, kw):
    A = to_arr(I, args[0])
    return ret(I, Arr(A.shape, lambda ix: not_(T.isnan(as_poly(A.at(*ix)))), 'b'))


@model('numpy.nan_to_num')
def np_nan_to_num(I, args, kw):
    A = to_arr(I, args[0])
    v = I.poly(kw.get('nan', 0))
    return ret(I, Arr(A.shape, lambda ix: ite(T.isnan(as_poly(A.at(*ix))), v, denan(as_poly(A.at(*ix)))), A.dtype))


def denan(p):
    return p


@model('numpy.clip')
def np_clip(I, args, kw):
    arrs = [to_arr(I, a) for a in args[:3]]
    return ret(I, ewise(I, lambda x, lo, hi: min_(max_(as_poly(x), as_poly(lo)), as_poly(hi)), arrs,
                        join_dt([a.dtype for a in arrs])))


@model('numpy.where')
def np_where(I, args, kw):
    if len(args) == 1:
        return nonzero(I, args, kw)
    C, X, Y = [to_arr(I, a) for a in args]
    dt = join_dt([X.dtype, Y.dtype])
    if dt == 'b':
        return ret(I, ewise(I, lambda c, x, y: cite(as_cond(c), x, y), [C, X, Y], 'b'))
    if dt == 'O':
        return ret(I, ewise(I, lambda c, x, y: I.merge_obj(as_cond(c), x, y), [C, X, Y], 'O'))
    return ret(I, ewise(I, lambda c, x, y: ite(as_cond(c), as_poly(x), as_poly(y)), [C, X, Y], dt))


@model('numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere')
def nonzero(I, args, kw):
    M = to_arr(I, args[0])
    if M.dtype != 'b':
        M0 = M
        M = Arr(M.shape, lambda ix: as_cond(M0.at(*ix)), 'b')
    if M.ndim == 1:
        return (I.new_arr(mask_where(M)),)
    if M.ndim == 2:
        n, at = select2(M)
        out = []
        for ax in range(2):
            A = Arr((n,), (lambda ax: lambda ix: at(ax, ix[0]))(ax), 'i', {'where2': (M, ax)})
            out.append(I.new_arr(A))
        return tuple(out)
    raise Unsupported('where on %d-d array' % M.ndim)


def _dom_two(args, pos, vs):
    d = [x for x in args[:pos] if isinstance(x, Poly)]
    return [le(0, vs[0]), lt(vs[0], d[0]), le(0, vs[1]), lt(vs[1], d[1])]


DOMAINS['count2'] = DOMAINS['nth2'] = _dom_two


def flatnonzero(I, args, kw):
    return nonzero(I, args, kw)[0]


MODELS['numpy.flatnonzero'] = flatnonzero
del MODELS['numpy.argwhere']


@model('numpy.diff')
def np_diff(I, args, kw):
    A = to_arr(I, args[0])
    n = int(I.poly(kw.get('n', args[1] if len(args) > 1 else 1)).const)
    for _ in range(n):
        A = diff1(I, A)
    return I.new_arr(A)


def diff1(I, A):
    if A.ndim != 1:
        raise Unsupported('diff of n-d array')
    n = A.shape[0] - 1
    if not n.is_const and prover.decide(I.pc, le(0, n)) is not True:
        n = max_(n, ZERO)
    if n.is_const and n.const < 0:
        n = ZERO
    return Arr((n,), lambda ix: as_poly(A.at(ix[0] + 1)) - as_poly(A.at(ix[0])), A.dtype if A.dtype != 'b' else 'i')


# ---------------------------------------------------------------- reductions

def axis_of(I, args, kw, pos=1):
    ax = kw.get('axis', args[pos] if len(args) > pos else None)
    if ax is None:
        return None
    return int(I.poly(ax).const)


def reduce_(I, A, ax, f, dtype):
    """f(n, elem function) -> Poly/Cond"""
    if A.ndim == 0:
        return wrap(f(ONE, lambda k: A.at()), dtype)
    if ax is None:
        if A.ndim > 1:
            A = flat_lazy(I, A)
        r = f(A.shape[0], lambda k: A.at(k))
        return wrap(r, dtype)
    if ax < 0:
        ax += A.ndim
    shp = A.shape[:ax] + A.shape[ax + 1:]
    return ret(I, Arr(shp, lambda ix: f(A.shape[ax], lambda k: A.at(*(ix[:ax] + (k,) + ix[ax:]))), dtype))


def flat_lazy(I, A):
    if A.ndim == 2:
        m = A.shape[1]
        tot = A.shape[0] * m

        return Arr((tot,), lambda ix: A.at(T.floor(ix[0] / m), ix[0] - m * T.floor(ix[0] / m)), A.dtype, {'flat2': A})
    raise Unsupported('flatten %d-d' % A.ndim)


def sum_all(A):
    """sum of every element"""
    if A.ndim == 0:
        return as_poly(A.at())
    if A.info.get('flat2') is not None:
        A = A.info['flat2']
    if A.info.get('reshaped') is not None and A.info['reshaped'][0].ndim == 2 and A.ndim == 1:
        A = A.info['reshaped'][0]
    if A.ndim == 1:
        return sum_(0, A.shape[0], lambda k: as_poly(A.at(k)))
    if A.ndim == 2:
        return sum_(0, A.shape[0], lambda i: sum_(0, A.shape[1], lambda j: as_poly(A.at(i, j))))
    raise Unsupported('sum over %d-d' % A.ndim)


@model('numpy.sum')
def np_sum(I, args, kw):
    A = to_arr(I, args[0])
    if A.dtype == 'O':
        A = obj_to_num(A)
    ax = axis_of(I, args, kw)
    dt = A.dtype if A.dtype != 'b' else 'i'
    if ax is None:
        return wrap(sum_all(A), dt)
    return reduce_(I, A, ax, lambda n, e: sum_(0, n, lambda k: as_poly(e(k))), dt)


@model('numpy.mean', 'numpy.average')
def np_mean(I, args, kw):
    A = to_arr(I, args[0])
    ax = axis_of(I, args, kw)
    if kw.get('weights') is not None:
        raise Unsupported('weighted average')
    if ax is None:
        n = ONE
        for s in A.shape:
            n = n * s
        return wrap(sum_all(A) / n, 'c' if A.dtype == 'c' else 'f')
    return reduce_(I, A, ax, lambda n, e: sum_(0, n, lambda k: as_poly(e(k))) / n, 'f')


@model('numpy.prod')
def np_prod(I, args, kw):
    A = to_arr(I, args[0])
    if A.ndim == 1:
        return wrap(prod_(ZERO, A.shape[0], lambda k: as_poly(A.at(k))), A.dtype)
    raise Unsupported('prod')


def prod_(lo, hi, f):
    n = hi - lo
    if n.is_const and n.const <= 64:
        r = ONE
        for k in range(max(0, int(n.const))):
            r = r * f(lo + k)
        return r
    k = fresh('p')
    body = f(k + lo)
    return prod_lam(n, mk_lam([k], body))


def prod_lam(n, lam):
    n = P(n)
    if n.is_const and n.const <= 64:
        r = ONE
        for k in range(max(0, int(n.const))):
            r = r * lam.open(num(k))
        return r
    return fn('Prod', n, lam, sort='i' if is_int(lam.body) else 'r', nonneg=T.poly_nonneg(lam.body))


T._REBUILD['Prod'] = prod_lam
DOMAINS['Prod'] = _dom_first


@model('numpy.any')
def np_any(I, args, kw):
    A = to_arr(I, args[0])
    ax = axis_of(I, args, kw)
    if ax is None and A.ndim == 1:
        c = count_true(Arr(A.shape, lambda ix: as_cond(A.at(*ix)), 'b'))
        return mk_bool(gt(c, 0))
    if A.ndim == 0:
        return mk_bool(as_cond(A.at()))
    if ax is None:
        return mk_bool(T.exists_(A.shape[0], lambda i: T.exists_(A.shape[1], lambda j: as_cond(A.at(i, j)))))
    return reduce_(I, A, ax, lambda n, e: T.exists_(n, lambda k: as_cond(e(k))), 'b')


@model('numpy.all')
def np_all(I, args, kw):
    A = to_arr(I, args[0])
    if A.ndim == 0:
        return mk_bool(as_cond(A.at()))
    B = Arr(A.shape, lambda ix: not_(as_cond(A.at(*ix))), 'b')
    r = np_any(I, [I.new_arr(B)] + list(args[1:]), kw)
    if isinstance(r, bool):
        return not r
    return mk_bool(not_(I.cond(r)))


@model('numpy.count_nonzero')
def np_count_nonzero(I, args, kw):
    A = to_arr(I, args[0])
    return wrap(count_true(Arr(A.shape, lambda ix: as_cond(A.at(*ix)), 'b')), 'i')


def _ext(name, sgn):
    def red(n, e):
        if n.is_const and n.const <= 16:
            r = as_poly(e(ZERO))
            for k in range(1, int(n.const)):
                r = (max_ if sgn > 0 else min_)(r, as_poly(e(num(k))))
            return r
        k = fresh('m')
        body = as_poly(e(k))
        if single_atom(k) not in body.fv:
            return body
        return fn(name, n, mk_lam([k], body), sort='i' if is_int(body) else 'r', nonneg=T.poly_nonneg(body))
    return red


MAXR, MINR = _ext('Max', 1), _ext('Min', -1)
DOMAINS['Max'] = DOMAINS['Min'] = _dom_first


def _mkext(red):
    def f(I, args, kw):
        A = to_arr(I, args[0])
        ax = axis_of(I, args, kw)
        if A.ndim == 2 and ax is None:
            inner = lambda i: red(A.shape[1], lambda j: A.at(i, j))
            return wrap(red(A.shape[0], inner), A.dtype)
        return reduce_(I, A, ax, red, A.dtype)
    return f


MODELS['numpy.max'] = MODELS['numpy.amax'] = _mkext(MAXR)
MODELS['numpy.min'] = MODELS['numpy.amin'] = _mkext(MINR)


def _argext(name):
    def red(n, e):
        k = fresh('m')
        body = as_poly(e(k))
        return fn(name, n, mk_lam([k], body), sort='i', nonneg=True)
    return red


def arg_term(name, n, f):
    """argmin / argmax of f(0), ..., f(n-1)"""
    return _argext(name)(P(n), f)


def _side_arg(z, r, args):
    import z3
    n = z.poly(args[0])
    return [r >= 0, z3.Implies(n > 0, r < n)]


SIDE['argmin'] = SIDE['argmax'] = _side_arg
DOMAINS['argmin'] = DOMAINS['argmax'] = _dom_first


def _mkarg(name):
    red = _argext(name)

    def f(I, args, kw):
        A = to_arr(I, args[0])
        if A.dtype == 'O':
            A = obj_to_num(A)
        ax = axis_of(I, args, kw)
        if ax is None and A.ndim > 1:
            raise Unsupported('argmin of flattened n-d')
        return reduce_(I, A, ax, red, 'i')
    return f


MODELS['numpy.argmin'] = _mkarg('argmin')
MODELS['numpy.argmax'] = _mkarg('argmax')


@model('numpy.cumsum')
def np_cumsum(I, args, kw):
    A = to_arr(I, args[0])
    if A.ndim != 1:
        raise Unsupported('cumsum')
    return I.new_arr(Arr(A.shape, lambda ix: sum_(0, ix[0] + 1, lambda k: as_poly(A.at(k))), A.dtype if A.dtype != 'b' else 'i'))


# ---------------------------------------------------------------- structure

@model('numpy.meshgrid')
def np_meshgrid(I, args, kw):
    x, y = [flat(I, to_arr(I, a)) for a in args]
    ij = kw.get('indexing', 'xy') == 'ij'
    if ij:
        shp = (x.shape[0], y.shape[0])
        X = Arr(shp, lambda ix: x.at(ix[0]), x.dtype)
        Y = Arr(shp, lambda ix: y.at(ix[1]), y.dtype)
    else:
        shp = (y.shape[0], x.shape[0])
        X = Arr(shp, lambda ix: x.at(ix[1]), x.dtype)
        Y = Arr(shp, lambda ix: y.at(ix[0]), y.dtype)
    return I.new_list([I.new_arr(X), I.new_arr(Y)])


@model('numpy.outer')
def np_outer(I, args, kw):
    x, y = [flat(I, to_arr(I, a)) for a in args]
    return I.new_arr(Arr((x.shape[0], y.shape[0]), lambda ix: as_poly(x.at(ix[0])) * as_poly(y.at(ix[1])),
                         join_dt([x.dtype, y.dtype])))


def _flip(I, ref, axes):
    A = to_arr(I, ref)
    axes = [a % A.ndim for a in axes]

    def f(ix):
        return A.at(*[A.shape[d] - 1 - i if d in axes else i for d, i in enumerate(ix)])
    return I.new_arr(Arr(A.shape, f, A.dtype))


@model('numpy.roll')
def np_roll(I, args, kw):
    A = to_arr(I, args[0])
    sh = kw.get('shift', args[1] if len(args) > 1 else None)
    ax = kw.get('axis', args[2] if len(args) > 2 else None)
    if A.ndim != 1 or not (ax is None or (I.is_number(ax) and I.poly(ax).is_const and I.poly(ax).const in (0, -1))):
        raise Unsupported('roll of more than one dimension')
    s = I.poly(sh)
    n = A.shape[0]
    if not s.is_const:
        raise Unsupported('roll by a symbolic shift')
    if not prover.prove(I.pc, le(abs(s.const), n)):
        raise Unsupported('roll by more than the length')

    def f(ix):
        j = ix[0] - s      # element i comes from i - s, wrapped once
        return A.at(ite(lt(j, 0), j + n, ite(lt(j, n), j, j - n)))
    return I.new_arr(Arr(A.shape, f, A.dtype))


@model('numpy.pad')
def np_pad(I, args, kw):
    A = to_arr(I, args[0])
    w = kw.get('pad_width', args[1] if len(args) > 1 else None)
    mode = kw.get('mode', args[2] if len(args) > 2 else 'constant')
    if A.ndim != 1 or mode not in ('constant', 'edge') or set(kw) - {'pad_width', 'mode', 'constant_values'}:
        raise Unsupported('numpy.pad of this kind')
    if I.is_number(w):
        w = (w, w)
    else:
        w = I.concrete_items(w)
        if len(w) == 1 and not I.is_number(w[0]):
            w = I.concrete_items(w[0])
        if len(w) == 1:
            w = (w[0], w[0])
        if len(w) != 2 or not all(I.is_number(v) for v in w):
            raise Unsupported('pad widths')
    w = [I.poly(v) for v in w]
    for v in w:
        if not I.decide(le(0, v)):
            raise PyRaise('ValueError', 'negative pad width')
    n = A.shape[0]
    if mode == 'edge':
        if not I.decide(lt(0, n)):
            raise Unsupported('edge padding of an empty array')
        ends = [A.at(ZERO), A.at(n - 1)]
    else:
        cv = kw.get('constant_values', 0)
        cv = (cv, cv) if I.is_number(cv) else I.concrete_items(cv)
        if len(cv) != 2 or not all(I.is_number(v) for v in cv):
            raise Unsupported('pad values')
        if A.dtype != 'f' and not all(I.poly(v).is_const and I.poly(v).const == 0 for v in cv):
            raise Unsupported('pad values in an array that is not of floats')
        ends = [I.poly(v) for v in cv]
    parts = [Arr((w[0],), lambda _: ends[0], A.dtype), A, Arr((w[1],), lambda _: ends[1], A.dtype)]
    return I.new_arr(concat1(I, parts))


@model('numpy.block')
def np_block(I, args, kw):
    rows = I.concrete_items(args[0])
    if rows is None or not all(isinstance(r, ListRef) for r in rows):
        raise Unsupported('numpy.block of this kind')
    out = []
    for r in rows:
        items = I.concrete_items(r)
        if items is None or not items:
            raise Unsupported('numpy.block of this kind')
        arrs = [to_arr(I, x) for x in items]
        if any(a.ndim != 2 for a in arrs):
            raise Unsupported('numpy.block of arrays that are not grids')
        out.append(concat_nd(I, arrs, 1))
    return I.new_arr(concat_nd(I, out, 0))


@model('numpy.flipud')
def np_flipud(I, args, kw):
    return _flip(I, args[0], [0])


@model('numpy.fliplr')
def np_fliplr(I, args, kw):
    return _flip(I, args[0], [1])


@model('numpy.flip')
def np_flip(I, args, kw):
    ax = axis_of(I, args, kw)
    return _flip(I, args[0], [ax] if ax is not None else list(range(to_arr(I, args[0]).ndim)))


@model('numpy.ravel')
def np_ravel(I, args, kw):
    return I.new_arr(flat(I, to_arr(I, args[0])))


def flatten_m(I, args, kw):
    A = to_arr(I, args[0])
    if A.ndim == 2:
        return I.new_arr(flat_lazy(I, A))
    B = flat(I, A)
    return I.new_arr(Arr(B.shape, B._fn, B.dtype, dict(B.info)))


@model('numpy.reshape')
def np_reshape(I, args, kw):
    sh = args[1:]
    if len(sh) == 1 and isinstance(sh[0], (tuple, ListRef)):
        sh = I.concrete_items(sh[0])
    ns = []
    for x in sh:
        p = I.poly(x)
        ns.append(None if p.is_const and p.const == -1 else p)
    return I.new_arr(reshape_arr(I, to_arr(I, args[0]), tuple(ns)))


@model('numpy.tile')
def np_tile(I, args, kw):
    A = to_arr(I, args[0])
    reps = args[1]
    if A.ndim == 1 and isinstance(reps, tuple) and len(reps) == 2 and I.poly(reps[1]) is ONE:
        return I.new_arr(Arr((I.poly(reps[0]), A.shape[0]), lambda ix: A.at(ix[1]), A.dtype))
    if A.ndim == 0 and I.is_number(reps):
        return I.new_arr(Arr((I.poly(reps),), lambda ix: A.at(), A.dtype))
    raise Unsupported('tile')


@model('numpy.cross')
def np_cross(I, args, kw):
    if kw:
        raise Unsupported('cross options')
    A, B = to_arr(I, args[0]), to_arr(I, args[1])
    for X in (A, B):
        if not (X.shape[-1].is_const and X.shape[-1].const == 3):
            raise Unsupported('cross of non 3-vectors')
    shp = broadcast(I, [A.shape, B.shape])
    nd = len(shp)

    def f(ix):
        def c(X, k):
            jx = bidx(X.shape, nd, ix[:-1] + (num(k),))
            return as_poly(X.at(*(jx[:-1] + (num(k),))))
        comp = []
        for k in range(3):
            a, b = (k + 1) % 3, (k + 2) % 3
            comp.append(lambda a=a, b=b: c(A, a) * c(B, b) - c(A, b) * c(B, a))
        i = ix[-1]
        if i.is_const:
            return comp[int(i.const)]()
        return ite(eq(i, 0), comp[0](), ite(eq(i, 1), comp[1](), comp[2]()))
    return I.new_arr(Arr(shp, f, join_dt([A.dtype, B.dtype])))


@model('numpy.matmul', 'numpy.dot')
def matmul(I, args, kw):
    A, B = to_arr(I, args[0]), to_arr(I, args[1])
    dt = join_dt([A.dtype, B.dtype])
    if A.ndim == 0 or B.ndim == 0:
        return binop(I, 'Mult', args[0], args[1])
    ka = A.shape[-1]
    kb = B.shape[-2] if B.ndim >= 2 else B.shape[0]
    if not same_dim(I, ka, kb):
        raise PyRaise('ValueError', 'matmul: mismatch')
    if A.ndim > 2 or B.ndim > 2:
        raise Unsupported('matmul of stacks')
    if A.ndim == 1 and B.ndim == 1:
        return wrap(sum_(0, ka, lambda k: as_poly(A.at(k)) * as_poly(B.at(k))), dt)
    if A.ndim == 2 and B.ndim == 1:
        return I.new_arr(Arr((A.shape[0],), lambda ix: sum_(0, ka, lambda k: as_poly(A.at(ix[0], k)) * as_poly(B.at(k))), dt))
    if A.ndim == 1 and B.ndim == 2:
        return I.new_arr(Arr((B.shape[1],), lambda ix: sum_(0, ka, lambda k: as_poly(A.at(k)) * as_poly(B.at(k, ix[0]))), dt))
    return I.new_arr(Arr((A.shape[0], B.shape[1]),
                         lambda ix: sum_(0, ka, lambda k: as_poly(A.at(ix[0], k)) * as_poly(B.at(k, ix[1]))), dt))


@model('numpy.convolve')
def np_convolve(I, args, kw):
    x, h = flat(I, to_arr(I, args[0])), flat(I, to_arr(I, args[1]))
    mode = kw.get('mode', args[2] if len(args) > 2 else 'full')
    if not h.shape[0].is_const:
        if x.shape[0].is_const:
            x, h = h, x
        else:
            raise Unsupported('convolution with a kernel of symbolic length')
    m = int(h.shape[0].const)
    n = x.shape[0]
    if m > 64:
        raise Unsupported('long kernel')
    if not I.decide(le(num(m), n)):
        # numpy swaps the operands: length is that of the longer one
        if mode != 'full':
            raise Unsupported('convolution of a series shorter than the kernel')
    hs = [as_poly(h.at(num(j))) for j in range(m)]
    if mode == 'same':
        off, ln = (m - 1) // 2, n
    elif mode == 'full':
        off, ln = 0, n + (m - 1)
    elif mode == 'valid':
        off, ln = m - 1, n - (m - 1)
    else:
        raise Unsupported('convolve mode')

    def f(ix):
        i = ix[0]
        out = []
        for j in range(m):
            if hs[j].is_zero:
                continue
            k = i + (off - j)
            if mode == 'valid':
                out.append(hs[j] * as_poly(x.at(k)))
            else:
                out.append(hs[j] * ite(and_(le(0, k), lt(k, n)), as_poly(x.at(k)), ZERO))
        return sum_polys(out)
    return I.new_arr(Arr((ln,), f, join_dt([x.dtype, h.dtype, 'f'])))


# ---------------------------------------------------------------- transforms (uninterpreted linear operators)

def linop(name, pre, dims, body_fn, post, sort='c'):
    """linear operator applied to an array given elementwise; constants pulled out.
    args of the atom: pre..., dims..., Lam, post..."""
    vs = [fresh('t') for _ in dims]
    body = body_fn(*vs)
    return linop_lam(name, pre, dims, mk_lam(vs, body), post, sort)


def linop_lam(name, pre, dims, lam, post, sort='c'):
    vs = [fresh('t') for _ in range(lam.n)]
    body = lam.open(*vs)
    if body is NAN:
        return NAN
    keys = {single_atom(v) for v in vs}
    out = []
    for mono, c in body.m.items():
        free = tuple((a, e) for a, e in mono if not (a.fv & keys))
        dep = tuple((a, e) for a, e in mono if a.fv & keys)
        q = mk_poly({dep: Fraction(1)}) if dep else ONE
        coef = mk_poly({free: c})
        out.append(mul(coef, atom_poly(mk_atom(name, tuple(pre) + tuple(dims) + (mk_lam(vs, q),) + tuple(post), sort))))
    return sum_polys(out)


def _reg_lin(name, npre, ndim, npost, sort='c'):
    def rb(*args):
        pre, dims = args[:npre], args[npre:npre + ndim]
        lam, post = args[npre + ndim], args[npre + ndim + 1:]
        return linop_lam(name, pre, dims, lam, post, sort)
    T._REBUILD[name] = rb

    def dom(args, pos, vs):
        if pos == npre + ndim:
            out = []
            for v, d in zip(vs, args[npre:npre + ndim]):
                out += [le(0, v), lt(v, d)]
            return out
        return [le(0, v) for v in vs]
    DOMAINS[name] = dom


for _n in ('FFT', 'IFFT'):
    _reg_lin(_n, 0, 1, 1)
for _n in ('FFT2', 'IFFT2'):
    _reg_lin(_n, 0, 2, 2)


def _fft1(name):
    def f(I, args, kw):
        if kw or len(args) > 1:
            raise Unsupported('fft options')
        A = to_arr(I, args[0])
        if A.ndim == 1:
            n = A.shape[0]
            return I.new_arr(Arr(A.shape, lambda ix: linop(name, (), (n,), lambda k: as_poly(A.at(k)), (ix[0],)), 'c'))
        if A.ndim == 2:
            n = A.shape[1]
            return I.new_arr(Arr(A.shape, lambda ix: linop(name, (), (n,), lambda k: as_poly(A.at(ix[0], k)), (ix[1],)), 'c'))
        raise Unsupported('fft of %d-d' % A.ndim)
    return f


def _fft2(name):
    def f(I, args, kw):
        if kw or len(args) > 1:
            raise Unsupported('fft2 options')
        A = to_arr(I, args[0])
        if A.ndim != 2:
            raise PyRaise('ValueError', 'fft2 needs 2-d')
        return I.new_arr(Arr(A.shape, lambda ix: linop(name, (), A.shape, lambda k, l: as_poly(A.at(k, l)), ix), 'c'))
    return f


MODELS['numpy.fft.fft'] = _fft1('FFT')
MODELS['numpy.fft.ifft'] = _fft1('IFFT')
MODELS['numpy.fft.fft2'] = MODELS['numpy.fft.fftn'] = _fft2('FFT2')
MODELS['numpy.fft.ifft2'] = MODELS['numpy.fft.ifftn'] = _fft2('IFFT2')


@model('numpy.fft.fftfreq')
def np_fftfreq(I, args, kw):
    n = I.poly(args[0])
    d = I.poly(kw.get('d', args[1] if len(args) > 1 else 1))
    # index k holds a non-negative frequency exactly when k <= (n - 1) / 2 (numpy: k < (n - 1) // 2 + 1, k an integer)
    return I.new_arr(Arr((n,), lambda ix: ite(le(2 * ix[0], n - 1), ix[0], ix[0] - n) / (n * d), 'f'))


# lfilter: args b-desc, a-desc, n, Lam x, i
def coef_desc(A):
    """coefficient vector as hashable description"""
    if A.shape[0].is_const and A.shape[0].const <= 40:
        return ('c',) + tuple(as_poly(A.at(num(k))) for k in range(int(A.shape[0].const)))
    k = fresh('h')
    return ('s', A.shape[0], mk_lam([k], as_poly(A.at(k))))


_reg_lin('LFILT', 2, 1, 1, 'r')


def lfilter_term(bd, ad, n, xf, i):
    return linop('LFILT', (bd, ad), (n,), xf, (i,), 'r')


@model('scipy.signal.lfilter')
def lfilter(I, args, kw):
    if kw or len(args) > 3:
        raise Unsupported('lfilter options')
    b, a, x = [to_arr(I, v) for v in args[:3]]
    b = flat(I, b)
    a = flat(I, a)
    if x.ndim != 1:
        raise Unsupported('lfilter n-d')
    bd, ad = coef_desc(b), coef_desc(a)
    return I.new_arr(Arr(x.shape, lambda ix: lfilter_term(bd, ad, x.shape[0], lambda k: as_poly(x.at(k)), ix[0]), 'f'))


@model('scipy.signal.firwin')
def firwin(I, args, kw):
    n = I.poly(args[0] if args else kw.pop('numtaps'))
    c = I.poly(args[1] if len(args) > 1 else kw.get('cutoff'))
    win = kw.get('window', 'hamming')
    opts = tuple(sorted((k, repr(v)) for k, v in kw.items() if k not in ('window', 'cutoff')))
    return I.new_arr(Arr((n,), lambda ix: fn('firwin', n, c, str(win), repr(opts), ix[0]), 'f'))


@model('math.factorial', 'numpy.math.factorial', 'scipy.special.factorial')
def factorial(I, args, kw):
    p = I.poly(args[0])
    if p.is_const:
        import math
        return math.factorial(int(p.const))
    return mk_num(fact_term(p), 'int')


def fact_term(p):
    """p! as a product over 1..p"""
    k = fresh('f')
    return prod_lam(p, mk_lam([k], k + 1))


@model('math.floor')
def m_floor(I, args, kw):
    return mk_int(T.floor(I.poly(args[0])))


@model('math.ceil')
def m_ceil(I, args, kw):
    return mk_int(ceil_(I.poly(args[0])))


def lam_of(A, I=None):
    """the elements of a 1-d array as a function of the index (simplified for the indices there are)"""
    k = fresh('m')
    e = as_poly(A.at(k))
    if I is not None:
        e = prover.simp(e, I.pc.extend(le(0, k), lt(k, A.shape[0])))
    return mk_lam([k], e)


def increasing(I, A):
    """is the 1-d array strictly increasing?"""
    k = fresh('m')
    pc = I.pc.extend(le(0, k), lt(k, A.shape[0] - 1))
    return prover.prove(pc, lt(A.at(k), A.at(k + 1)))


def first_index(n, lam, k):
    """position of the first occurrence of the k-th smallest distinct element"""
    return fn('uidx', n, lam, k, sort='i', nonneg=True)


def count_distinct(n, lam):
    return fn('ucnt', n, lam, sort='i', nonneg=True)


def same_as(n, lam, i):
    """first position holding the same element as position i"""
    i = P(i)
    a = T.single_atom(i)
    if a is not None and a.name in ('uidx', 'samepos') and a.args[0] is n and a.args[1] is lam:
        return i                    # already a first position
    return fn('samepos', n, lam, i, sort='i', nonneg=True)


def _side_samepos(z, r, args):
    import z3
    n, lam, i = args
    zi = z.poly(i)
    return [r >= 0, z3.Implies(z3.And(zi >= 0, zi < z.poly(n)), r <= zi)]


SIDE['samepos'] = _side_samepos
DOMAINS['samepos'] = _dom_first
T._REBUILD['samepos'] = same_as


def _side_uidx(z, r, args):
    import z3
    n, lam, k = args
    return [r >= 0, r < z.poly(n)]


def _side_ucnt(z, r, args):
    import z3
    n = z.poly(args[0])
    return [r >= 0, r <= n, z3.Implies(n >= 1, r >= 1)]


SIDE['uidx'] = _side_uidx
SIDE['ucnt'] = _side_ucnt
DOMAINS['uidx'] = DOMAINS['ucnt'] = _dom_first


@model('numpy.unique')
def np_unique(I, args, kw):
    """sorted distinct elements; with return_index the position of the first occurrence of each"""
    kw = dict(kw)
    ri = kw.pop('return_index', args[1] if len(args) > 1 else False)
    if kw or len(args) > 2 or not isinstance(ri, bool):
        raise Unsupported('unique options')
    A = to_arr(I, args[0])
    if A.ndim != 1 or A.dtype not in 'if':
        raise Unsupported('unique of %d-d %s' % (A.ndim, A.dtype))
    n = A.shape[0]
    if increasing(I, A):
        W = Arr((n,), lambda ix: ix[0], 'i', {'unique': lam_of(A, I), 'unique_n': n, 'identity': True})
    else:
        lam = lam_of(A, I)
        W = Arr((count_distinct(n, lam),), lambda ix: first_index(n, lam, ix[0]), 'i', {'unique': lam, 'unique_n': n})
    V = Arr(W.shape, lambda ix: A.at(W.at(*ix)), A.dtype, {'taken': (A, W)})
    if ri:
        return (I.new_arr(V), I.new_arr(W))
    return I.new_arr(V)


def _dom_interp(args, pos, vs):
    return [le(0, vs[0]), lt(vs[0], args[0])]


DOMAINS['interp'] = _dom_interp


@model('numpy.interp')
def np_interp(I, args, kw):
    """piecewise linear interpolation; at a node its value (also where the neighbours are undefined)"""
    if kw or len(args) != 3:
        raise Unsupported('interp options')
    X, XP, FP = [to_arr(I, a) for a in args]
    if XP.ndim != 1 or FP.ndim != 1 or FP.dtype == 'c':
        raise Unsupported('interp operands')
    same_dim(I, XP.shape[0], FP.shape[0])
    n = XP.shape[0]
    if X.ndim == 1:
        xl = lam_of(X, I)
        t, tf = XP.info.get('taken'), FP.info.get('taken')
        if t is not None and t[1].info.get('unique') is not None and tf is not None and \
                same_len(I, X.shape[0], t[0].shape[0]) and same_index_arr(I, t[1], tf[1]):
            # nodes are the distinct elements of an array, evaluated at the elements of that array
            k = fresh('m')
            pc = I.pc.extend(le(0, k), lt(k, X.shape[0]))
            if lam_of(t[0], I) is t[1].info['unique'] and prover.prove_eq(as_poly(X.at(k)), as_poly(t[0].at(k)), pc):
                if 'identity' in t[1].info:
                    return I.new_arr(Arr(X.shape, lambda ix: tf[0].at(*ix), 'f'))
                return I.new_arr(Arr(X.shape, lambda ix: tf[0].at(same_as(X.shape[0], t[1].info['unique'], ix[0])), 'f'))
        if increasing(I, XP) and same_len(I, X.shape[0], n):
            k = fresh('m')
            pc = I.pc.extend(le(0, k), lt(k, n))
            if prover.prove_eq(as_poly(X.at(k)), as_poly(XP.at(k)), pc):
                return I.new_arr(Arr(X.shape, lambda ix: FP.at(*ix), 'f'))
    xl, fl = lam_of(XP, I), lam_of(FP, I)
    return ret(I, Arr(X.shape, lambda ix: fn('interp', n, xl, fl, as_poly(X.at(*ix))), 'f'))


def same_len(I, a, b):
    return a is b or prover.prove_eq(a, b, I.pc)


def same_index_arr(I, A, B):
    if A is B:
        return True
    if not same_len(I, A.shape[0], B.shape[0]):
        return False
    k = fresh('m')
    return prover.prove_eq(as_poly(A.at(k)), as_poly(B.at(k)), I.pc.extend(le(0, k), lt(k, A.shape[0])))


@model('numpy.searchsorted')
def np_searchsorted(I, args, kw):
    A = to_arr(I, args[0])
    side = kw.get('side', args[2] if len(args) > 2 else 'left')
    n = A.shape[0]
    k = fresh('m')
    lam = mk_lam([k], as_poly(A.at(k)))
    V = to_arr(I, args[1])
    return ret(I, Arr(V.shape, lambda ix: fn('searchsorted', n, lam, str(side), as_poly(V.at(*ix)), sort='i', nonneg=True), 'i'))


def _side_ss(z, r, args):
    return [r >= 0, r <= z.poly(args[0])]


SIDE['searchsorted'] = _side_ss
DOMAINS['searchsorted'] = _dom_first


@model('numpy.errstate', 'numpy.seterr', 'numpy.set_printoptions')
def np_noop(I, args, kw):
    return Opaque('context')


@model('numpy.float64', 'numpy.double')
def np_float64(I, args, kw):
    return I.bm.BUILTINS['float'].f(I, args, kw)


@model('numpy.int64')
def np_int64(I, args, kw):
    return I.bm.BUILTINS['int'].f(I, args, kw)


@model('numpy.round', 'numpy.around', 'numpy.round_')
def np_round(I, args, kw):
    nd = args[1] if len(args) > 1 else kw.get('decimals', 0)
    s = num(Fraction(10) ** int(I.poly(nd).const))
    if not isinstance(args[0], ArrRef):
        p = I.poly(args[0])
        return args[0] if is_int(p) and s.const >= 1 else mk_float(rint_(p * s) / s)
    A = to_arr(I, args[0])
    if A.dtype == 'i' and s.const >= 1:
        return np_array(I, [args[0]], {})
    if A.dtype != 'f':
        raise Unsupported('round of this array')
    return I.new_arr(Arr(A.shape, lambda ix: rint_(A.at(*ix) * s) / s, 'f'))


METHODS = {
    'round': np_round, 'copy': np_array, 'flatten': flatten_m, 'ravel': np_ravel, 'reshape': np_reshape,
    'sum': np_sum, 'mean': np_mean, 'max': MODELS['numpy.max'], 'min': MODELS['numpy.min'],
    'argmin': MODELS['numpy.argmin'], 'argmax': MODELS['numpy.argmax'], 'any': np_any, 'all': np_all,
    'transpose': transpose, 'cumsum': np_cumsum, 'dot': matmul, 'nonzero': nonzero, 'clip': np_clip,
    'prod': np_prod, 'conj': MODELS['numpy.conj'], 'conjugate': MODELS['numpy.conj'],
    'astype': lambda I, a, k: I.new_arr(Arr(*(lambda B: (B.shape, B._fn, B.dtype))(astype(I, to_arr(I, a[0]), a[1])))),
    'tolist': lambda I, a, k: I.bm.BUILTINS['list'].f(I, [a[0]], {}),
    'item': lambda I, a, k: wrap(to_arr(I, a[0]).at(*[ZERO] * to_arr(I, a[0]).ndim), to_arr(I, a[0]).dtype),
    'fill': lambda I, a, k: setitem(I, a[0], SliceVal(None, None, None), a[1]),
}
