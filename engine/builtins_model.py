"""Models of Python builtins and of the small library surface outside numpy."""
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover
from .values import *
from . import npmodel as N

MODELS = {}
OBJ = {}          # class name of heap model object -> handler module/class


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


BUILTINS = {}


def builtin(name):
    def deco(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return deco


def typ(name):
    def deco(f):
        BUILTINS[name] = TypeVal(name, f)
        return f
    return deco


# ---------------------------------------------------------------- builtins

@builtin('len')
def b_len(I, args, kw):
    return mk_int(I.length(args[0]))


@builtin('range')
def b_range(I, args, kw):
    ps = []
    for a in args:
        if I.is_number(a) and I.numty(a) == 'float' or not I.is_number(a) and not isinstance(a, ArrRef):
            raise PyRaise('TypeError', 'range needs integers')
        ps.append(I.poly(a))
    if len(ps) == 1:
        return RangeVal(ZERO, ps[0], 1)
    step = ONE if len(ps) == 2 else ps[2]
    if not step.is_const:
        raise Unsupported('symbolic range step')
    if step.is_zero:
        raise PyRaise('ValueError')
    return RangeVal(ps[0], ps[1], int(step.const))


@builtin('abs')
def b_abs(I, args, kw):
    v = args[0]
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, Num):
        return mk_num(T.abs_(v.poly), 'float' if v.ty == 'complex' else v.ty)
    if hasattr(v, 'abs_'):
        return v.abs_(I)
    return N.MODELS['numpy.abs'](I, [v], {})


def _extreme(name):
    def f(I, args, kw):
        if kw:
            raise Unsupported('%s with keywords' % name)
        if len(args) == 1:
            v = args[0]
            if hasattr(v, 'extreme'):
                return v.extreme(I, name)
            items = I.concrete_items(v)
            if items is None or isinstance(v, ArrRef):
                A = N.to_arr(I, v)
                if A.ndim != 1:
                    raise Unsupported('%s of a %d-d array' % (name, A.ndim))
                return N.MODELS['numpy.a' + name](I, [I.new_arr(A)], {})
        else:
            items = list(args)
        if not items:
            raise PyRaise('ValueError', 'empty sequence')
        if not all(I.is_number(x) or isinstance(x, ArrRef) for x in items):
            if all(isinstance(x, str) for x in items):
                return (min if name == 'min' else max)(items)
            raise Unsupported('%s of %r' % (name, items[0]))
        r = items[0]
        for x in items[1:]:
            if isinstance(r, int) and isinstance(x, int):
                r = (min if name == 'min' else max)(r, x)
                continue
            p, q = I.poly(r), I.poly(x)
            ty = I_ty(I, r) if I_ty(I, r) == I_ty(I, x) else 'float'
            r = mk_num((T.min_ if name == 'min' else T.max_)(p, q), ty)
        return r
    return f


def I_ty(I, v):
    if isinstance(v, ArrRef):
        return {'i': 'int', 'b': 'int', 'f': 'float', 'c': 'complex', 'O': 'float'}[I.arr(v).dtype]
    return I.numty(v)


BUILTINS['min'] = Builtin('min', _extreme('min'))
BUILTINS['max'] = Builtin('max', _extreme('max'))


@builtin('sum')
def b_sum(I, args, kw):
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if hasattr(v, 'sum_'):
        return v.sum_(I)
    items = I.concrete_items(v)
    if items is not None and len(items) <= 64:
        r = start
        for x in items:
            r = I.binop('Add', r, x)
        return r
    A = N.to_arr(I, v)
    if A.ndim == 1:
        if A.dtype == 'O':
            A = N.obj_to_num(A)
        dt = 'i' if A.dtype in 'ib' else A.dtype
        s = mk_num(sum_(0, A.shape[0], lambda k: N.as_poly(A.at(k))), N.ty_of(dt))
        return I.binop('Add', start, s) if not (isinstance(start, int) and start == 0) else s
    # sum over the first axis
    return N.MODELS['numpy.sum'](I, [I.new_arr(A)], {'axis': 0})


@builtin('any')
def b_any(I, args, kw):
    items = I.concrete_items(args[0])
    if items is None:
        it = I.iterate(args[0])
        return mk_bool(T.exists_(it.n, lambda k: I.cond(I.truth(it.at(k)))))
    acc = FALSE
    for x in items:
        acc = or_(acc, I.cond(I.truth(x)))
    return mk_bool(acc)


@builtin('all')
def b_all(I, args, kw):
    items = I.concrete_items(args[0])
    if items is None:
        it = I.iterate(args[0])
        return mk_bool(not_(T.exists_(it.n, lambda k: not_(I.cond(I.truth(it.at(k)))))))
    acc = TRUE
    for x in items:
        acc = and_(acc, I.cond(I.truth(x)))
    return mk_bool(acc)


@typ('int')
def t_int(I, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, str):
        try:
            return int(v, *[int(I.poly(a).const) for a in args[1:]])
        except ValueError:
            raise PyRaise('ValueError', 'int()')
    if hasattr(v, 'to_int'):
        return v.to_int(I)
    if isinstance(v, ArrRef):
        v = Num(I.poly(v), 'float')
    if isinstance(v, (Num, SBool)):
        p = I.poly(v)
        if is_nan_poly(p):
            raise PyRaise('ValueError', 'NaN to integer')
        if is_int(p):
            return mk_int(p)
        if prover.decide(I.pc, le(0, p)) is True:
            return mk_int(prover.floor(p, I.pc))
        return mk_int(N.trunc_(p))
    if v is None or isinstance(v, (tuple, ListRef)):
        raise PyRaise('TypeError', 'int()')
    raise Unsupported('int of %r' % (v,))


@typ('float')
def t_float(I, args, kw):
    v = args[0] if args else 0
    if isinstance(v, str):
        try:
            float(v)
        except ValueError:
            raise PyRaise('ValueError', 'float()')
        if v.strip().lower().lstrip('+-') in ('nan',):
            return mk_float(NAN)
        try:
            return mk_float(num(T.dec(v.strip())))
        except Exception:
            raise Unsupported('float(%r)' % v)
    if hasattr(v, 'to_float'):
        return v.to_float(I)
    if I.is_number(v) or isinstance(v, ArrRef):
        return mk_float(I.poly(v))
    if v is None or isinstance(v, (tuple, ListRef)):
        raise PyRaise('TypeError', 'float()')
    raise Unsupported('float of %r' % (v,))


@typ('complex')
def t_complex(I, args, kw):
    r = I.poly(args[0])
    if len(args) > 1:
        r = r + IMAG * I.poly(args[1])
    return Num(r, 'complex')


@typ('bool')
def t_bool(I, args, kw):
    if not args:
        return False
    return I.truth(args[0])


@typ('str')
def t_str(I, args, kw):
    if not args:
        return ''
    return format_value(I, args[0], '', 115)


@typ('list')
def t_list(I, args, kw):
    if not args:
        return I.new_list([])
    return list_of(I, args[0])


def list_of(I, v):
    it = I.iterate(v)
    if isinstance(it, list):
        return I.new_list(it)
    return I.new_symlist(it.n, it.at)


@typ('tuple')
def t_tuple(I, args, kw):
    if not args:
        return ()
    it = I.concrete_items(args[0])
    if it is None:
        raise Unsupported('tuple of symbolic length')
    return tuple(it)


@typ('set')
def t_set(I, args, kw):
    if not args:
        return I.new_list([], 'set')
    it = I.concrete_items(args[0])
    if it is None:
        raise Unsupported('set of symbolic length')
    out = []
    for x in it:
        # members that may be equal: a case distinction, since the size depends on it
        if not any(I.decide(I.truth(I.compare('Eq', x, y))) for y in out):
            out.append(x)
    return I.new_list(out, 'set')


BUILTINS['frozenset'] = BUILTINS['set']


@typ('dict')
def t_dict(I, args, kw):
    d = {}
    if args:
        if isinstance(args[0], DictRef):
            d.update(I.heap[args[0]].d)
        else:
            for p in I.concrete_items(args[0]):
                a, b = I.concrete_items(p)
                d[I.key(a)] = b
    d.update(kw)
    return I.new_dict(d)


@typ('object')
def t_object(I, args, kw):
    return Opaque('object')


@typ('bytes')
def t_bytes(I, args, kw):
    from .filemodel import Bytes
    v = args[0] if args else Bytes('')
    if isinstance(v, str) or hasattr(v, 'is_str'):
        if len(args) + len(kw) < 2:
            raise PyRaise('TypeError', 'string argument without an encoding')
        return Bytes(v)
    if isinstance(v, Bytes):
        return v
    raise Unsupported('bytes()')


@builtin('print')
def b_print(I, args, kw):
    f = kw.get('file')
    if hasattr(f, 'm_write'):
        if not all(I.strmodel.is_string(x) for x in args):
            raise Unsupported('print of numbers to a file')
        f.m_write(I, I.strmodel.join(I, kw.get('sep', ' '), I.new_list(list(args))))
        f.m_write(I, kw.get('end', '\n'))
        return None
    I.events.append(('print', tuple(args)))
    return None


@builtin('type')
def b_type(I, args, kw):
    v = args[0]
    if isinstance(v, (bool, SBool)):
        return BUILTINS['bool']
    if isinstance(v, int):
        return BUILTINS['int']
    if isinstance(v, Num):
        return v.typeval() if hasattr(v, 'typeval') else BUILTINS[v.ty]
    if isinstance(v, str) or hasattr(v, 'is_str'):
        return BUILTINS['str']
    if v is None:
        return TypeVal('NoneType')
    if isinstance(v, tuple):
        return BUILTINS['tuple']
    if isinstance(v, ListRef):
        return BUILTINS[I.heap[v].kind if I.heap[v].kind in ('list', 'set') else 'list']
    if isinstance(v, DictRef):
        return BUILTINS['dict']
    if isinstance(v, ArrRef):
        return NDARRAY
    if isinstance(v, InstRef):
        return I.heap[v].cls
    if isinstance(v, ObjRef):
        return I.heap[v].typeval()
    if hasattr(v, 'typeval'):
        return v.typeval()
    if isinstance(v, (FuncVal, Builtin, BoundMethod)):
        return TypeVal('function')
    raise Unsupported('type of %r' % (v,))


NDARRAY = TypeVal('ndarray')


@builtin('isinstance')
def b_isinstance(I, args, kw):
    v, t = args
    ts = list(t) if isinstance(t, tuple) else [t]
    vt = b_type(I, [v], {})
    for x in ts:
        if vt is x:
            return True
        if isinstance(x, TypeVal) and isinstance(vt, TypeVal):
            if vt.name == x.name or x.name == 'object':
                return True
            if vt.name == 'bool' and x.name == 'int':
                return True
            if x.name in ('Number', 'Real') and vt.name in ('int', 'float', 'bool'):
                return True
            if x.name in ('Sequence',) and vt.name in ('list', 'tuple', 'str'):
                return True
        if isinstance(x, ClassVal) and isinstance(vt, ClassVal):
            if x is vt or any(b is x for b in vt.bases):
                return True
        if isinstance(x, Builtin) and isinstance(vt, TypeVal):
            last = x.name.split('.')[-1]
            if last == vt.name:
                return True
    return False


@builtin('hasattr')
def b_hasattr(I, args, kw):
    v, nm = args
    if nm in ('__len__', '__iter__', '__getitem__'):
        if isinstance(v, (str, tuple, ListRef, DictRef)) or hasattr(v, 'is_str'):
            return True
        if isinstance(v, ArrRef):
            return len(I.heap[v].shape) > 0 if nm == '__len__' and False else True
        if I.is_number(v) or v is None:
            return False
        if isinstance(v, ObjRef):
            return True
    try:
        I.getattr(v, nm)
        return True
    except PyRaise:
        return False


@builtin('getattr')
def b_getattr(I, args, kw):
    try:
        return I.getattr(args[0], args[1])
    except PyRaise:
        if len(args) > 2:
            return args[2]
        raise


@builtin('setattr')
def b_setattr(I, args, kw):
    I.setattr(args[0], args[1], args[2])


@builtin('callable')
def b_callable(I, args, kw):
    return isinstance(args[0], (FuncVal, Builtin, BoundMethod, ClassVal, TypeVal))


@builtin('enumerate')
def b_enumerate(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    s = I.poly(start)
    it = I.iterate(args[0])
    if isinstance(it, list):
        return I.new_list([(mk_int(s + i), x) for i, x in enumerate(it)])
    return SymIter(it.n, lambda k: (mk_int(s + P(k)), it.at(k)), it)


@builtin('zip')
def b_zip(I, args, kw):
    if len({id(a) for a in args if isinstance(a, PyIter)}) < sum(isinstance(a, PyIter) for a in args):
        raise Unsupported('zip of one iterator with itself')
    its = [I.iterate(a) for a in args]
    if all(isinstance(i, list) for i in its):
        return I.new_list([tuple(t) for t in zip(*its)])
    sym = [i.n if not isinstance(i, list) else num(len(i)) for i in its]
    n = sym[0]
    for m in sym[1:]:
        if prover.prove_eq(n, m, I.pc):
            continue
        d = prover.decide(I.pc, le(n, m))
        n = n if d is True else m if d is False else T.min_(n, m)
    if n.is_const:
        return I.new_list([tuple(i[k] if isinstance(i, list) else i.at(num(k)) for i in its)
                           for k in range(int(n.const))])
    return SymIter(n, lambda k: tuple(I.select_concrete(i, k) if isinstance(i, list) else i.at(k)
                                      for i in its))


@builtin('map')
def b_map(I, args, kw):
    f = args[0]
    its = [I.iterate(a) for a in args[1:]]
    if all(isinstance(i, list) for i in its):
        return I.new_list([I.call(f, list(t), {}) for t in zip(*its)])
    if len(its) == 1:
        from . import loops
        return loops.sym_map(I, its[0], lambda x: I.call(f, [x], {}))
    raise Unsupported('map over several symbolic sequences')


@builtin('filter')
def b_filter(I, args, kw):
    it = I.iterate(args[1])
    if isinstance(it, list):
        out = []
        for x in it:
            t = I.truth(x if args[0] is None else I.call(args[0], [x], {}))
            if I.decide(t):
                out.append(x)
        return I.new_list(out)
    raise Unsupported('filter over a symbolic sequence')


@builtin('reversed')
def b_reversed(I, args, kw):
    if isinstance(args[0], RangeVal) and abs(args[0].step) == 1:
        r = args[0]
        return I.iterate(RangeVal(r.hi - r.step, r.lo - r.step, -r.step))
    it = I.iterate(args[0])
    if isinstance(it, list):
        return I.new_list(it[::-1])
    last = T.unclamp(it.n) - 1      # an element exists only where the length is positive
    return SymIter(it.n, lambda k: it.at(last - P(k)))


@builtin('sorted')
def b_sorted(I, args, kw):
    it = I.concrete_items(args[0])
    if it is not None and all(isinstance(x, (int, str)) for x in it) and not kw:
        return I.new_list(sorted(it))
    if it is not None and len(it) <= 1:
        return I.new_list(it)
    raise Unsupported('sorted of symbolic values')


@builtin('round')
def b_round(I, args, kw):
    v = args[0]
    if len(args) > 1 and args[1] is not None:
        nd = int(I.poly(args[1]).const)
        s = num(Fraction(10) ** nd)
        return mk_float(N.rint_(I.poly(v) * s) / s)
    if isinstance(v, int):
        return v
    return mk_int(N.rint_(I.poly(v)))


@builtin('divmod')
def b_divmod(I, args, kw):
    return (I.binop('FloorDiv', args[0], args[1]), I.binop('Mod', args[0], args[1]))


@builtin('pow')
def b_pow(I, args, kw):
    return I.binop('Pow', args[0], args[1])


@builtin('id')
def b_id(I, args, kw):
    return Opaque('id')


@builtin('iter')
def b_iter(I, args, kw):
    if len(args) == 2:
        f = args[0]
        if hasattr(f, 'iter_until'):
            return f.iter_until(I, args[1])
        raise Unsupported('iter(callable, sentinel)')
    if hasattr(args[0], 'next_'):
        return args[0]
    it = PyIter(args[0], ObjRef())
    I.heap[it.ref] = IterPos(0, None)
    return it


class IterPos:
    """how many items next() took from an iterator, and the statement that consumed the rest of it"""

    def __init__(self, taken, consumed):
        self.taken, self.consumed = taken, consumed

    def o_repr(self):
        return 'iterator at %d' % self.taken


class PyIter:
    """iter(container)"""

    def __init__(self, src, ref):
        self.src, self.ref = src, ref

    def truth(self, I):
        return True

    def next_(self, I):
        st = I.heap[self.ref]
        if st.consumed is not None:
            raise Unsupported('next() of an iterator that was iterated over')
        S = I.concrete_items(self.src)
        if S is None:
            S = I.iterate(self.src)
        if isinstance(S, list):
            if st.taken >= len(S):
                raise PyRaise('StopIteration', '')
            x = S[st.taken]
        else:
            if not I.decide(lt(num(st.taken), S.n)):
                raise PyRaise('StopIteration', '')
            x = S.at(num(st.taken))
        I.heap[self.ref] = IterPos(st.taken + 1, None)
        return x

    def consume(self, I):
        """the whole iterator is about to be iterated over by the current statement (which may ask more than once how)"""
        st = I.heap[self.ref]
        if st.taken or st.consumed not in (None, I.fuel):
            raise Unsupported('iterating over an iterator already used')
        I.heap[self.ref] = IterPos(0, I.fuel)
        return self.src

    def concrete_list(self, I):
        return I.concrete_items(self.consume(I))

    def iterate(self, I):
        return I.iterate(self.consume(I))


@builtin('next')
def b_next(I, args, kw):
    if hasattr(args[0], 'next_'):
        try:
            return args[0].next_(I)
        except PyRaise as e:
            if len(args) > 1 and e.name == 'StopIteration':
                return args[1]
            raise
    raise Unsupported('next()')


@builtin('format')
def b_format(I, args, kw):
    return format_value(I, args[0], args[1] if len(args) > 1 else '', -1)


@builtin('open')
def b_open(I, args, kw):
    from . import filemodel
    return filemodel.open_(I, args, kw)


@builtin('slice')
def b_slice(I, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceVal(None, a[0], None)
    return SliceVal(a[0], a[1], a[2] if len(a) > 2 else None)


BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['NotImplemented'] = Opaque('NotImplemented')
BUILTINS['__name__'] = 'module'


# ---------------------------------------------------------------- strings

def concrete_num(v):
    if isinstance(v, (bool, int)):
        return v
    if isinstance(v, Num) and v.poly.is_const:
        c = v.poly.const
        if v.ty == 'int':
            return int(c)
        return float(c)
    return None


def format_value(I, v, spec, conv=-1):
    if hasattr(v, 'format_'):
        r = v.format_(I, spec)
        if r is not None:
            return r
    if isinstance(v, str):
        if conv == 114:
            return repr(v)
        return format(v, spec) if isinstance(spec, str) else Opaque('text')
    c = concrete_num(v)
    if c is not None and isinstance(spec, str):
        try:
            return format(c, spec)
        except ValueError:
            raise PyRaise('ValueError', 'format')
    if I.strmodel is not None and isinstance(spec, str):
        r = I.strmodel.format_num(I, v, spec)
        if r is not None:
            return r
    return Opaque('text')


def str_concat(I, parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    if any(isinstance(p, Opaque) for p in parts):
        return Opaque('text')
    r = parts[0]
    for p in parts[1:]:
        r = I.binop('Add', r, p)
    return r


def braces(I, text, args, kw):
    """text.format(*args, **kw) with plain fields; None if it cannot be spelled out"""
    import string
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(text))
    except ValueError:
        raise PyRaise('ValueError', 'format')
    for lit, name, spec, conv in fields:
        parts.append(lit)
        if name is None:
            continue
        if conv not in (None, 's') or '{' in (spec or ''):
            return None
        if name == '':
            name, auto = str(auto), auto + 1
        if name.isdigit():
            if int(name) >= len(args):
                raise PyRaise('IndexError', 'format')
            v = args[int(name)]
        elif name.isidentifier():
            if name not in kw:
                raise PyRaise('KeyError', name)
            v = kw[name]
        else:
            return None
        parts.append(format_value(I, v, spec or ''))
    parts = [q for q in parts if not (isinstance(q, str) and not q)]
    return str_concat(I, parts) if parts else ''


def percent_format(I, a, b):
    vals = list(b) if isinstance(b, tuple) else [b]
    cs = [v if isinstance(v, str) else concrete_num(v) for v in vals]
    if all(c is not None for c in cs):
        try:
            return a % tuple(cs)
        except (TypeError, ValueError):
            raise PyRaise('TypeError', 'format')
    if I.strmodel is not None:
        r = I.strmodel.percent(I, a, vals)
        if r is not None:
            return r
    return Opaque('text')


STR_METHODS = {'split', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'upper', 'lower',
               'find', 'rfind', 'index', 'isdigit', 'isnumeric', 'isalpha', 'join', 'zfill', 'title', 'splitlines',
               'partition', 'rpartition', 'rsplit', 'count', 'encode', 'removeprefix', 'removesuffix',
               'isspace', 'ljust', 'rjust', 'format', 'capitalize', 'swapcase', 'isupper', 'islower', 'isalnum'}


def method(I, v, name):
    if isinstance(v, str):
        if name not in STR_METHODS:
            raise PyRaise('AttributeError', name)

        def f(I2, args, kw):
            return str_method(I2, v, name, args, kw)
        return Builtin('str.' + name, f)
    if isinstance(v, ListRef):
        m = LIST_METHODS.get(name)
        if m is None:
            raise PyRaise('AttributeError', name)
        return Builtin('list.' + name, lambda I2, a, k: m(I2, v, a, k))
    if isinstance(v, DictRef):
        m = DICT_METHODS.get(name)
        if m is None:
            raise PyRaise('AttributeError', name)
        return Builtin('dict.' + name, lambda I2, a, k: m(I2, v, a, k))
    if isinstance(v, tuple):
        if name == 'index':
            return Builtin('tuple.index', lambda I2, a, k: list_index(I2, v, a, k))
        if name == 'count':
            return Builtin('tuple.count', lambda I2, a, k: list_count(I2, v, a, k))
        raise PyRaise('AttributeError', name)
    if isinstance(v, (int, Num, SBool)):
        if name == 'real':
            return v if not (isinstance(v, Num) and v.ty == 'complex') else mk_float(T.re_(v.poly))
        if name == 'item':
            return Builtin('item', lambda I2, a, k: v)
        if name == 'astype':
            return Builtin('astype', lambda I2, a, k: N.MODELS['numpy.float64'](I2, [v], {})
                           if getattr(a[0], 'name', '') in ('float', 'float64') else
                           t_int(I2, [v], {}))
        if name == 'copy':
            return Builtin('copy', lambda I2, a, k: v)
        if name == 'is_integer':
            return Builtin('is_integer', lambda I2, a, k: mk_bool(eq(T.floor(I.poly(v)), I.poly(v))))
        if name == 'flatten' or name == 'ravel':
            return Builtin(name, lambda I2, a, k: I2.new_arr(Arr((ONE,), lambda ix: I.poly(v), 'f')))
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        raise PyRaise('AttributeError', name)
    raise Unsupported('method %s of %r' % (name, v))


def str_method(I, v, name, args, kw):
    if name == 'join':
        items = I.concrete_items(args[0])
        if items is not None:
            if all(isinstance(x, str) for x in items):
                return v.join(items)
            parts = []
            for i, x in enumerate(items):
                if i and v:
                    parts.append(v)
                parts.append(x)
            return str_concat(I, parts)
        if I.strmodel is not None:
            return I.strmodel.join(I, v, args[0])
        raise Unsupported('join')
    if name == 'format':
        cs = [a if isinstance(a, str) else concrete_num(a) for a in args]
        if all(c is not None for c in cs):
            return v.format(*cs)
        r = braces(I, v, args, kw)
        return Opaque('text') if r is None else r
    a = []
    for x in args:
        if isinstance(x, (str, type(None), bool)):
            a.append(x)
        elif isinstance(x, tuple) and all(isinstance(y, str) for y in x):
            a.append(x)
        elif I.is_number(x) and I.poly(x).is_const:
            a.append(int(I.poly(x).const))
        else:
            raise Unsupported('str.%s argument' % name)
    k = {n: (int(I.poly(x).const) if I.is_number(x) and not isinstance(x, bool) else x) for n, x in kw.items()}
    if name == 'encode':
        from .filemodel import Bytes
        return Bytes(v)
    try:
        r = getattr(v, name)(*a, **k)
    except ValueError:
        raise PyRaise('ValueError', name)
    if isinstance(r, list):
        return I.new_list(r)
    return r


# ---------------------------------------------------------------- lists, dicts

def list_append(I, v, args, kw):
    L = I.heap[v]
    x = args[0]
    if isinstance(L, PyList):
        I.heap[v] = PyList(L.items + (x,), L.kind)
    else:
        n = L.n

        def f(k, L=L, n=n, x=x):
            d = prover.decide(I.pc, lt(k, n))
            if d is True:
                return L.at(k)
            if d is False:
                return x
            return I.merge_values(lt(k, n), L.at(k), x)
        I.heap[v] = SymList(n + 1, f, {'base': L, 'last': x}, L.kind)
    return None


def list_pop(I, v, args, kw):
    L = I.heap[v]
    i = I.poly(args[0]) if args else num(-1)
    if isinstance(L, PyList):
        if not i.is_const:
            raise Unsupported('pop at symbolic index')
        items = list(L.items)
        try:
            x = items.pop(int(i.const))
        except IndexError:
            raise PyRaise('IndexError', 'pop')
        I.heap[v] = PyList(items, L.kind)
        return x
    n = L.n
    if not I.decide(gt(n, 0)):
        raise PyRaise('IndexError', 'pop from empty list')
    if i.is_const and i.const == -1 or prover.prove(I.pc, eq(i, n - 1)):
        x = L.at(n - 1)
        base = L.info.get('base')
        if base is not None and prover.prove_eq(n - 1, base.n if isinstance(base, SymList) else num(len(base.items)), I.pc):
            I.heap[v] = base
        else:
            I.heap[v] = SymList(n - 1, L.at, None, L.kind)
        return x
    if i.is_const and i.const == 0:
        x = L.at(ZERO)
        I.heap[v] = SymList(n - 1, lambda k: L.at(P(k) + 1), None, L.kind)
        return x
    raise Unsupported('pop at index')


def list_extend_m(I, v, args, kw):
    I.list_extend(v, args[0])


def list_insert(I, v, args, kw):
    L = I.heap[v]
    i = I.poly(args[0])
    if isinstance(L, PyList) and i.is_const:
        items = list(L.items)
        items.insert(int(i.const), args[1])
        I.heap[v] = PyList(items, L.kind)
        return
    if isinstance(L, SymList) and i.is_zero:
        x = args[1]
        I.heap[v] = SymList(L.n + 1, lambda k: x if prover.decide(I.pc, eq(k, 0)) is True else
                            L.at(P(k) - 1) if prover.decide(I.pc, eq(k, 0)) is False else
                            I.merge_values(eq(k, 0), x, L.at(P(k) - 1)))
        return
    raise Unsupported('list.insert')


def list_clear(I, v, args, kw):
    I.heap[v] = PyList([], I.heap[v].kind)


def list_copy(I, v, args, kw):
    r = ListRef()
    I.heap[r] = I.heap[v]
    return r


def list_index(I, v, args, kw):
    items = I.concrete_items(v)
    if items is None:
        raise Unsupported('index of symbolic list')
    for k, x in enumerate(items):
        c = I.compare('Eq', x, args[0])
        if I.decide(I.cond(c)):
            return k
    raise PyRaise('ValueError', 'index')


def list_count(I, v, args, kw):
    items = I.concrete_items(v)
    if items is None:
        it = I.iterate(v)
        return mk_int(sum_(0, it.n, lambda k: ite(I.cond(I.compare('Eq', it.at(k), args[0])), ONE, ZERO)))
    p = ZERO
    for x in items:
        p = p + ite(I.cond(I.compare('Eq', x, args[0])), ONE, ZERO)
    return mk_int(p)


def list_reverse(I, v, args, kw):
    L = I.heap[v]
    if isinstance(L, PyList):
        I.heap[v] = PyList(L.items[::-1], L.kind)
    else:
        I.heap[v] = SymList(L.n, lambda k: L.at(L.n - 1 - P(k)))


def list_remove(I, v, args, kw):
    L = I.heap[v]
    if isinstance(L, PyList):
        for k, x in enumerate(L.items):
            if I.decide(I.cond(I.compare('Eq', x, args[0]))):
                I.heap[v] = PyList(L.items[:k] + L.items[k + 1:], L.kind)
                return
        raise PyRaise('ValueError', 'remove')
    raise Unsupported('list.remove')


def list_sort(I, v, args, kw):
    L = I.heap[v]
    if isinstance(L, PyList) and all(isinstance(x, (int, str)) for x in L.items) and not kw:
        I.heap[v] = PyList(sorted(L.items), L.kind)
        return
    raise Unsupported('list.sort')


def set_add(I, v, args, kw):
    L = I.heap[v]
    if L.kind != 'set':
        raise PyRaise('AttributeError', 'add')
    if isinstance(L, PyList):
        for x in L.items:
            if I.decide(I.cond(I.compare('Eq', x, args[0]))):
                return
        I.heap[v] = PyList(L.items + (args[0],), 'set')
        return
    raise Unsupported('set.add')


LIST_METHODS = {'append': list_append, 'pop': list_pop, 'extend': list_extend_m, 'insert': list_insert,
                'clear': list_clear, 'copy': list_copy, 'index': list_index, 'count': list_count,
                'reverse': list_reverse, 'remove': list_remove, 'sort': list_sort, 'add': set_add}


def d_get(I, v, args, kw):
    d = I.heap[v].d
    k = I.key(args[0])
    return d[k] if k in d else (args[1] if len(args) > 1 else None)


def d_pop(I, v, args, kw):
    d = dict(I.heap[v].d)
    k = I.key(args[0])
    if k not in d:
        if len(args) > 1:
            return args[1]
        raise PyRaise('KeyError')
    r = d.pop(k)
    I.heap[v] = PyDict(d)
    return r


def d_update(I, v, args, kw):
    d = dict(I.heap[v].d)
    if args:
        if isinstance(args[0], DictRef):
            d.update(I.heap[args[0]].d)
        else:
            items = I.concrete_items(args[0])
            if items is None:
                raise Unsupported('dict.update from a symbolic sequence')
            for x in items:
                kv = I.concrete_items(x)
                if kv is None or len(kv) != 2:
                    raise Unsupported('dict.update item')
                d[I.key(kv[0])] = kv[1]
    d.update(kw)
    I.heap[v] = PyDict(d)


def d_setdefault(I, v, args, kw):
    d = dict(I.heap[v].d)
    k = I.key(args[0])
    if k not in d:
        d[k] = args[1] if len(args) > 1 else None
        I.heap[v] = PyDict(d)
    return d[k]


def unkey(k):
    if isinstance(k, tuple) and len(k) == 2 and k[0] == 'float':
        return mk_float(num(k[1]))
    return k


DICT_METHODS = {
    'keys': lambda I, v, a, k: I.new_list([unkey(x) for x in I.heap[v].d]),
    'values': lambda I, v, a, k: I.new_list(list(I.heap[v].d.values())),
    'items': lambda I, v, a, k: I.new_list([(unkey(x), y) for x, y in I.heap[v].d.items()]),
    'get': d_get, 'pop': d_pop, 'update': d_update, 'setdefault': d_setdefault,
    'copy': lambda I, v, a, k: I.new_dict(I.heap[v].d),
    'clear': lambda I, v, a, k: I.heap.__setitem__(v, PyDict({})),
}


TYPE_ATTRS = {}


def type_attr(I, v, name):
    if isinstance(v, TypeVal):
        if (v.name, name) in TYPE_ATTRS:
            return TYPE_ATTRS[(v.name, name)]
        if v.name == 'dict' and name == 'fromkeys':
            def f(I2, a, k):
                val = a[1] if len(a) > 1 else None
                return I2.new_dict({I2.key(x): val for x in I2.concrete_items(a[0])})
            return Builtin('dict.fromkeys', f)
        if name == '__name__':
            return v.name
        return Builtin(v.name + '.' + name, None)
    return Builtin(v.name + '.' + name, None)


# ---------------------------------------------------------------- heap model objects

def obj(I, v):
    return I.heap[v]


def obj_getattr(I, v, name):
    return I.heap[v].o_getattr(I, v, name)


def obj_setattr(I, v, name, x):
    I.heap[v].o_setattr(I, v, name, x)


def obj_getitem(I, v, idx):
    return I.heap[v].o_getitem(I, v, idx)


def obj_setitem(I, v, idx, x):
    I.heap[v].o_setitem(I, v, idx, x)


def obj_delitem(I, v, idx):
    I.heap[v].o_delitem(I, v, idx)


def obj_binop(I, op, a, b):
    for x, y, refl in ((a, b, False), (b, a, True)):
        if isinstance(x, ObjRef):
            r = I.heap[x].o_binop(I, x, op, y, refl)
            if r is not None:
                return r
    raise Unsupported('operator %s on objects' % op)


def obj_compare(I, op, a, b):
    for x, y, refl in ((a, b, False), (b, a, True)):
        if isinstance(x, ObjRef) and hasattr(I.heap[x], 'o_compare'):
            r = I.heap[x].o_compare(I, x, op, y, refl)
            if r is not None:
                return r
    if op in ('Eq', 'NotEq') and all(not hasattr(I.heap[x], 'o_compare') for x in (a, b) if isinstance(x, ObjRef)):
        return (a is b) == (op == 'Eq')         # an object without its own equality
    raise Unsupported('comparison %s on objects' % op)


def obj_to_arr(I, v):
    if isinstance(v, ObjRef) and hasattr(I.heap[v], 'o_to_arr'):
        return I.heap[v].o_to_arr(I, v)
    return None


def obj_array_binop(I, op, A, B):
    """elementwise operator on object arrays"""
    def g(x, y):
        return I.binop(op, val(x), val(y))
    return _obj_ewise(I, g, A, B)


def obj_array_compare(I, op, A, B):
    sh = N.broadcast(I, [A.shape, B.shape])

    def f(ix):
        x, y = A.at(*N.bidx(A.shape, len(sh), ix)), B.at(*N.bidx(B.shape, len(sh), ix))
        return I.cond(I.compare(op, val(x), val(y)))
    return N.ret(I, Arr(sh, f, 'b'))


def val(x):
    return N.wrap(x, 'O') if isinstance(x, (Poly, Cond)) else x


def _obj_ewise(I, g, A, B):
    sh = N.broadcast(I, [A.shape, B.shape])

    def f(ix):
        return g(A.at(*N.bidx(A.shape, len(sh), ix)), B.at(*N.bidx(B.shape, len(sh), ix)))
    return N.ret(I, Arr(sh, f, 'O'))


# ---------------------------------------------------------------- library functions

@model('copy.copy')
def copy_copy(I, args, kw):
    v = args[0]
    if isinstance(v, ArrRef):
        return N.MODELS['numpy.copy'](I, [v], {})
    if isinstance(v, (ListRef, DictRef)):
        r = type(v)()
        I.heap[r] = I.heap[v]
        return r
    if isinstance(v, (int, Num, str, tuple, type(None), SBool)):
        return v
    if isinstance(v, ObjRef) and hasattr(I.heap[v], 'o_copy'):
        return I.heap[v].o_copy(I, v)
    raise Unsupported('copy of %r' % (v,))


@model('copy.deepcopy')
def copy_deepcopy(I, args, kw):
    v = args[0]
    if isinstance(v, ListRef):
        items = I.concrete_items(v)
        if items is not None:
            return I.new_list([copy_deepcopy(I, [x], {}) for x in items])
    if isinstance(v, DictRef):
        return I.new_dict({k: copy_deepcopy(I, [x], {}) for k, x in I.heap[v].d.items()})
    return copy_copy(I, args, kw)


@model('tqdm.tqdm', 'tqdm')
def tqdm_(I, args, kw):
    return args[0] if args else kw.get('iterable')


def external_modules(I):
    fl = lambda p: Num(p, 'float')
    np_ = {'pi': fl(PI), 'nan': fl(NAN), 'NaN': fl(NAN), 'newaxis': None, 'ndarray': NDARRAY,
           'e': fl(T.exp_(ONE)), 'float_': BUILTINS['float'],
           'bool_': BUILTINS['bool'], 'object_': BUILTINS['object'], 'complex128': BUILTINS['complex'],
           'float64': TypeVal('float64', N.np_float64), 'int64': TypeVal('int64', N.np_int64),
           'int32': TypeVal('int64', N.np_int64), 'int_': TypeVal('int64', N.np_int64),
           'float32': TypeVal('float32')}
    mods = {
        'numpy': ModVal('numpy', np_),
        'numpy.fft': ModVal('numpy.fft'),
        'math': ModVal('math', {'pi': fl(PI), 'nan': fl(NAN), 'e': fl(T.exp_(ONE))}),
        'scipy': ModVal('scipy'),
        'scipy.special': ModVal('scipy.special'),
        'scipy.signal': ModVal('scipy.signal'),
        'pandas': ModVal('pandas'),
        'os': ModVal('os'),
        'os.path': ModVal('os.path'),
    }
    from . import pdmodel
    pdmodel.register(mods, MODELS)
    from . import filemodel
    filemodel.register(mods, MODELS)
    from . import csvmodel
    csvmodel.register(mods, MODELS)
    from . import remodel
    remodel.register(mods, MODELS)
    from . import olsmodel
    olsmodel.register(mods, MODELS)
    return mods
