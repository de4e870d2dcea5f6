"""Values of the symbolic interpreter."""
from fractions import Fraction
from .terms import *
from . import terms as T


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, name, msg=''):
        super().__init__(name, msg)
        self.name = name
        self.msg = msg


CUR = [None]     # the running interpreter


class Num:
    __slots__ = ('poly', 'ty')

    def __init__(self, poly, ty):
        self.poly = poly
        self.ty = ty

    def __repr__(self):
        return '%s:%r' % (self.ty, self.poly)


class SBool:
    __slots__ = ('cond',)

    def __init__(self, cond):
        self.cond = cond

    def __repr__(self):
        return 'bool:%r' % (self.cond,)


def mk_bool(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return SBool(c)


def mk_int(p):
    p = P(p)
    if p.is_const and p.const.denominator == 1:
        return int(p.const)
    return Num(p, 'int')


def mk_float(p):
    return Num(P(p), 'float')


def mk_num(p, ty):
    if ty == 'int':
        return mk_int(p)
    return Num(P(p), ty)


class Arr:
    """immutable array content; fn maps an index tuple of Polys to an element
    (Poly for numbers, Cond for booleans, a value for objects)"""
    __slots__ = ('shape', '_fn', 'dtype', 'memo', 'info')

    def __init__(self, shape, fn, dtype='f', info=None):
        self.shape = tuple(P(s) for s in shape)
        self._fn = fn
        self.dtype = dtype
        self.memo = {}
        self.info = info or {}

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        """element at an index; numeric element functions never consult the
        path condition, object ones may (hence the memo key)"""
        idx = tuple(P(i) for i in idx)
        key = idx if self.dtype != 'O' else (idx, CUR[0].pc.key if CUR[0] is not None else None)
        r = self.memo.get(key)
        if r is None:
            r = self._fn(idx)
            if self.dtype != 'O' and self.dtype != 'b':
                r = P(r)
            elif CUR[0] is not None and self.dtype == 'O' and key[1] != CUR[0].pc.key:
                return r    # computing it took a decision: not the value of every path
            self.memo[key] = r
        return r

    def __repr__(self):
        return 'Arr%r:%s' % (self.shape, self.dtype)


class View:
    """live view of another heap array (basic slicing, transpose)"""
    __slots__ = ('base', 'shape', 'fwd', 'inv', 'dtype')

    def __init__(self, base, shape, fwd, inv, dtype):
        self.base = base
        self.shape = shape
        self.fwd = fwd
        self.inv = inv
        self.dtype = dtype


class Ref:
    __slots__ = ('id',)
    _n = 0

    def __init__(self):
        Ref._n += 1
        self.id = Ref._n

    def __repr__(self):
        return '%s#%d' % (type(self).__name__, self.id)


class ArrRef(Ref):
    __slots__ = ()


class ListRef(Ref):
    __slots__ = ()


class DictRef(Ref):
    __slots__ = ()


class InstRef(Ref):
    __slots__ = ()


class ObjRef(Ref):
    """reference to a model object (DataFrame, file...) in the heap"""
    __slots__ = ()


class PyList:
    """list content; concrete prefix items or symbolic (n, fn)"""
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='list'):
        self.items = tuple(items)
        self.kind = kind

    def __repr__(self):
        return 'PyList%r' % (self.items,)


class SymList:
    """list of symbolic length"""
    __slots__ = ('n', '_fn', 'memo', 'info', 'kind')

    def __init__(self, n, fn, info=None, kind='list'):
        self.n = P(n)
        self._fn = fn
        self.memo = {}
        self.info = info or {}
        self.kind = kind

    def at(self, i):
        i = P(i)
        key = (i, CUR[0].pc.key if CUR[0] is not None else None)
        r = self.memo.get(key)
        if r is None or (isinstance(r, Ref) and CUR[0] is not None and r not in CUR[0].heap):
            r = self._fn(i)
            if CUR[0] is not None and key[1] != CUR[0].pc.key:
                return r    # computing it took a decision: not the value of every path
            self.memo[key] = r
        return r

    def __repr__(self):
        return 'SymList[%r]' % (self.n,)


class PyDict:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)


class Inst:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = dict(attrs)


class FuncVal:
    __slots__ = ('name', 'node', 'module', 'env', 'defaults', 'kwdefaults', 'decorators')

    def __init__(self, name, node, module, env, defaults, kwdefaults):
        self.name = name
        self.node = node
        self.module = module
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults

    def __repr__(self):
        return '<function %s>' % self.name


class ClassVal:
    __slots__ = ('name', 'attrs', 'bases', 'module')

    def __init__(self, name, attrs, bases, module):
        self.name = name
        self.attrs = attrs
        self.bases = bases
        self.module = module


class BoundMethod:
    __slots__ = ('self', 'func')

    def __init__(self, self_, func):
        self.self = self_
        self.func = func


class Builtin:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return '<builtin %s>' % self.name


class TypeVal:
    __slots__ = ('name', 'f')

    def __init__(self, name, f=None):
        self.name = name
        self.f = f

    def __repr__(self):
        return '<type %s>' % self.name


class ModVal:
    __slots__ = ('name', 'attrs')

    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return '<module %s>' % self.name


class SliceVal:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeVal:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = P(lo), P(hi), step


class SymIter:
    """an iterable of symbolic length n whose k-th element is at(k)"""
    __slots__ = ('n', 'at', 'src')

    def __init__(self, n, at, src=None):
        self.n = P(n)
        self.at = at
        self.src = src


class Opaque:
    """value we know nothing about (messages, progress bars)"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return '<opaque %s>' % self.what


def subst_val(v, mp):
    """substitute inside a value"""
    if isinstance(v, (Poly, Cond)):
        return T.subst(v, mp)
    if isinstance(v, Num):
        p = T.subst(v.poly, mp)
        return v if p is v.poly else mk_num(p, v.ty)
    if isinstance(v, SBool):
        return mk_bool(T.subst(v.cond, mp))
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    if isinstance(v, Arr):
        return Arr(tuple(T.subst(s, mp) for s in v.shape),
                   lambda idx: _safe_subst(v, idx, mp), v.dtype, subst_info(v.info, mp))
    if hasattr(v, 'subst'):
        return v.subst(mp)
    return v


def subst_info(info, mp):
    """notes about an array, for the array with the substitution applied"""
    out = {}
    for k, x in info.items():
        if k in ('ro', 'nonneg', 'identity'):
            out[k] = x
        elif k in ('where', 'where2', 'taken', 'reshaped'):
            out[k] = tuple(subst_val(y, mp) for y in x)
        elif k == 'parts':
            out[k] = [subst_val(y, mp) for y in x]
        elif k in ('unique', 'unique_n', 'flat2'):
            out[k] = T.subst(x, mp) if isinstance(x, T.Lam) else subst_val(x, mp)
        elif k == 'text':
            out[k] = lambda j, x=x: subst_val(x(j), mp)
    return out


def _safe_subst(v, idx, mp):
    # evaluate at fresh indices, substitute, then instantiate
    fr = [fresh('z') for _ in idx]
    e = v.at(*fr)
    e = subst_val(e, mp)
    return subst_val(e, {single_atom(f): i for f, i in zip(fr, idx)})


class _Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()
