"""Trusted models of pandas tables and columns.

A DataFrame is an ordered set of named columns (array contents) of one length with an index token: None for the
default 0..n-1 index, otherwise an Arr of labels.  A Series is one such column.  Columns taken out of a frame are
copies (pandas 3 copy-on-write); the arrays behind `.values` are read-only."""
from .terms import *
from . import terms as T
from . import prover
from .values import *
from . import npmodel as N
from . import strmodel as S

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def arr_of(I, v):
    return N.to_arr(I, v)


def fresh_copy(A, ro=False):
    info = {'ro': True} if ro else {}
    if 'text' in A.info:
        info['text'] = A.info['text']
    return Arr(A.shape, lambda ix: A.at(*ix), A.dtype, info)


def same_index(I, x, y, n):
    """are two index tokens equal?"""
    if x is None and y is None:
        return True
    if x is None or y is None:
        return False
    if x is y:
        return True
    k = fresh('i')
    return prover.prove_eq(N.as_poly(x.at(k)), N.as_poly(y.at(k)), I.pc.extend(le(0, k), lt(k, n)))


# ---------------------------------------------------------------- columns

class Series:
    __slots__ = ('A', 'index', 'name')

    def __init__(self, A, index=None, name=None):
        self.A, self.index, self.name = A, index, name

    def typeval(self):
        return SERIES

    def o_to_arr(self, I, v):
        return self.A

    def o_len(self):
        return self.A.shape[0]

    def o_copy(self, I, v):
        return mk_series(I, self.A, self.index, self.name)

    def other(self, I, o):
        if isinstance(o, ObjRef) and isinstance(I.heap[o], Series):
            s = I.heap[o]
            if not N.same_dim(I, s.A.shape[0], self.A.shape[0]) or not same_index(I, s.index, self.index, self.A.shape[0]):
                raise Unsupported('arithmetic of columns with different indexes')
            return I.new_arr(s.A)
        if isinstance(o, ArrRef) or I.is_number(o) or isinstance(o, str) or hasattr(o, 'is_str') or hasattr(o, 'binop'):
            return o
        if isinstance(o, (ListRef, tuple)):
            return I.new_arr(N.to_arr(I, o))
        raise Unsupported('column operand %r' % (o,))

    def o_binop(self, I, ref, op, o, refl):
        a, b = I.new_arr(self.A), self.other(I, o)
        r = N.binop(I, op, b, a) if refl else N.binop(I, op, a, b)
        return mk_series(I, I.arr(r), self.index, self.name)

    def o_unary(self, I, ref, op):
        return mk_series(I, I.arr(N.unary(I, op, I.new_arr(self.A))), self.index, self.name)

    def o_compare(self, I, ref, op, o, refl):
        if op in ('Is', 'IsNot', 'In', 'NotIn'):
            return None
        a, b = I.new_arr(self.A), self.other(I, o)
        r = N.compare(I, op, b, a) if refl else N.compare(I, op, a, b)
        return mk_series(I, I.arr(r), self.index, self.name)

    def o_getitem(self, I, ref, idx):
        if isinstance(idx, SliceVal):
            r = N.getitem(I, I.new_arr(self.A), idx)
            return mk_series(I, I.arr(r), Arr(I.arr(r).shape, _lab(I, self, idx), 'i'), self.name)
        if isinstance(idx, ObjRef):
            idx = I.new_arr(I.heap[idx].A)
        if isinstance(idx, (ArrRef, ListRef)):
            M = N.to_arr(I, idx)
            if M.dtype == 'b':
                r = N.getitem(I, I.new_arr(self.A), idx if isinstance(idx, ArrRef) else I.new_arr(M))
                W = N.mask_where(M)
                lab = W if self.index is None else Arr(W.shape, lambda ix: self.index.at(W.at(*ix)), 'i')
                return mk_series(I, I.arr(r), lab, self.name)
            if self.index is None:
                r = N.getitem(I, I.new_arr(self.A), I.new_arr(M))
                return mk_series(I, I.arr(r), M, self.name)
            raise Unsupported('label selection')
        if I.is_number(idx) and self.index is None:
            p = I.poly(idx)
            if not I.decide(and_(le(0, p), lt(p, self.A.shape[0]))):
                raise PyRaise('KeyError')
            return N.wrap(self.A.at(p), self.A.dtype)
        raise Unsupported('column subscript %r' % (idx,))

    def o_getattr(self, I, ref, name):
        A = self.A
        if name in ('values', 'array'):
            return I.new_arr(fresh_copy(A, ro=True))
        if name == 'shape':
            return (mk_int(A.shape[0]),)
        if name == 'size':
            return mk_int(A.shape[0])
        if name == 'name':
            return self.name
        if name == 'index':
            return index_val(I, self.index, A.shape[0])
        if name == 'iloc':
            return ILoc(ref)
        if name == 'loc':
            return Loc(ref)
        if name == 'str':
            return StrAcc(ref)
        if name == 'T':
            return ref
        f = SERIES_METHODS.get(name)
        if f is not None:
            return Builtin('Series.' + name, lambda I2, a, k: f(I2, ref, a, k))
        if name in ('mean', 'sum', 'std', 'min', 'max', 'argmin', 'argmax', 'any', 'all'):
            return I.getattr(I.new_arr(A), name)
        raise Unsupported('Series.%s' % name)

    def o_setattr(self, I, ref, name, x):
        raise Unsupported('column attribute %s' % name)

    def o_setitem(self, I, ref, idx, x):
        if isinstance(idx, ObjRef):
            idx = I.new_arr(I.heap[idx].A)
        if I.is_number(idx) and self.index is not None:
            raise Unsupported('label assignment')
        if I.is_number(idx):
            p = I.poly(idx)
            if not I.decide(and_(le(0, p), lt(p, self.A.shape[0]))):
                raise Unsupported('label assignment')
        t = I.new_arr(self.A)
        N.setitem(I, t, idx, x)
        I.writes.append((ref, None, None))
        I.heap[ref] = Series(I.arr(t), self.index, self.name)

    def o_delitem(self, I, ref, idx):
        raise Unsupported('del of column element')


def _lab(I, s, idx):
    n = s.A.shape[0]
    lo, m, st = I.slice_bounds(idx, n)
    if s.index is None:
        return lambda ix: lo + ix[0] * st
    return lambda ix: s.index.at(lo + ix[0] * st)


def mk_series(I, A, index=None, name=None):
    r = ObjRef()
    I.heap[r] = Series(A, index, name)
    return r


def index_val(I, index, n):
    if index is None:
        return RangeVal(ZERO, n, 1)
    return I.new_arr(index)


def _to_numpy(I, ref, a, k):
    s = I.heap[ref]
    cp = k.get('copy', a[1] if len(a) > 1 else False)
    return I.new_arr(fresh_copy(s.A, ro=not I.decide(I.cond(I.truth(cp)))))


def _astype(I, ref, a, k):
    s = I.heap[ref]
    r = I.call(I.getattr(I.new_arr(s.A), 'astype'), a, k)
    return mk_series(I, I.arr(r), s.index, s.name)


def _apply(I, ref, a, k):
    """Series.apply(f): elementwise, except that numpy ufuncs act on the whole column"""
    s = I.heap[ref]
    f = a[0]
    A = s.A
    from . import loops
    it = SymIter(A.shape[0], lambda j: N.elem_value(I, A, (P(j),)))
    r = loops.sym_map(I, it, lambda x: I.call(f, [x], {})) if not A.shape[0].is_const else \
        I.new_list([I.call(f, [N.elem_value(I, A, (num(j),))], {}) for j in range(int(A.shape[0].const))])
    if not A.shape[0].is_const:
        # some results may be text and others numbers: then the column holds them as they are
        rs = I.iterate(r)
        k = fresh('q')
        I0 = I.pc
        I.pc = I.pc.extend(le(0, k), lt(k, A.shape[0]))
        kinds = {(kd, S.is_string(v) if kd == 'normal' else None) for kd, v, pc, st, w in I.explore(lambda: rs.at(k))}
        I.pc = I0
        if kinds == {('normal', True), ('normal', False)}:
            return mk_series(I, Arr((A.shape[0],), lambda ix: rs.at(ix[0]), 'O'), s.index, s.name)
    B = N.to_arr(I, r)
    return mk_series(I, B, s.index, s.name)


def _mul(op):
    def f(I, ref, a, k):
        return I.binop(op, ref, a[0])
    return f


def _tolist(I, ref, a, k):
    A = I.heap[ref].A
    return I.new_symlist(A.shape[0], lambda j: N.elem_value(I, A, (P(j),)))


def _s_reset(I, ref, a, k):
    s = I.heap[ref]
    if not k.get('drop', False):
        raise Unsupported('Series.reset_index')
    return mk_series(I, s.A, None, s.name)


SERIES_METHODS = {
    'to_numpy': _to_numpy, 'astype': _astype, 'apply': _apply, 'map': _apply, 'mul': _mul('Mult'), 'add': _mul('Add'),
    'sub': _mul('Sub'), 'div': _mul('Div'), 'copy': lambda I, r, a, k: I.heap[r].o_copy(I, r), 'tolist': _tolist,
    'to_list': _tolist, 'reset_index': _s_reset,
    'abs': lambda I, r, a, k: mk_series(I, N.to_arr(I, N.MODELS['numpy.abs'](I, [I.new_arr(I.heap[r].A)], {})),
                                        I.heap[r].index, I.heap[r].name),
}


class ILoc:
    def __init__(self, ref):
        self.ref = ref

    def getitem(self, I, idx):
        o = I.heap[self.ref]
        if isinstance(o, Series):
            if I.is_number(idx):
                return N.getitem(I, I.new_arr(o.A), idx)
            if isinstance(idx, SliceVal):
                r = N.getitem(I, I.new_arr(o.A), idx)
                return mk_series(I, I.arr(r), Arr(I.arr(r).shape, _lab(I, o, idx), 'i'), o.name)
            raise Unsupported('iloc')
        if isinstance(idx, tuple):
            row, col = idx
            names = list(o.cols)
            if I.is_number(col) and I.poly(col).is_const:
                return ILoc(column(I, o, names[int(I.poly(col).const)])).getitem(I, row)
            raise Unsupported('iloc')
        if I.is_number(idx):
            i = I.norm_index(idx, o.n, 'single positional indexer is out-of-bounds')
            return Row(o, i)
        if isinstance(idx, SliceVal):
            lo, m, st = I.slice_bounds(idx, o.n)
            return take_rows(I, o, m, lambda k: lo + k * st)
        if isinstance(idx, (ArrRef, ListRef)):
            W = N.to_arr(I, idx)
            if W.dtype == 'b':
                W = N.mask_where(W)
            return take_rows(I, o, W.shape[0], lambda k: N.as_poly(W.at(k)))
        raise Unsupported('iloc %r' % (idx,))


class Loc:
    def __init__(self, ref):
        self.ref = ref

    def getitem(self, I, idx):
        o = I.heap[self.ref]
        if isinstance(o, DF) and isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[1], str):
            s = column(I, o, idx[1])
            if isinstance(idx[0], SliceVal) and idx[0].lo is None and idx[0].hi is None:
                return s
            return Loc(s).getitem(I, idx[0])
        if o.index is None and I.is_number(idx):
            if isinstance(o, Series):
                return o.o_getitem(I, self.ref, idx)
            p = I.poly(idx)
            if not I.decide(and_(le(0, p), lt(p, o.n))):
                raise PyRaise('KeyError')
            return Row(o, p)
        if isinstance(idx, (ArrRef, ObjRef, ListRef)):
            M = N.to_arr(I, idx)
            if M.dtype == 'b':
                return o.o_getitem(I, self.ref, idx)
        raise Unsupported('loc %r' % (idx,))


class Row:
    """one row of a frame (DataFrame.iloc[i])"""

    def __init__(self, df, i):
        self.df, self.i = df, P(i)

    def val(self, name):
        A = self.df.cols[name]
        dts = {B.dtype for B in self.df.cols.values()}
        if 'O' not in dts and len(dts) > 1 and A.dtype in 'ib':
            if 'b' in dts:
                raise Unsupported('row of mixed columns')
            return N.wrap(N.as_poly(A.at(self.i)), 'f')
        return N.wrap(A.at(self.i), A.dtype)

    def getitem(self, I, idx):
        if isinstance(idx, str):
            if idx not in self.df.cols:
                raise PyRaise('KeyError', idx)
            return self.val(idx)
        raise Unsupported('row subscript %r' % (idx,))

    def getattr(self, I, name):
        if name in self.df.cols:
            return self.val(name)
        raise Unsupported('row.%s' % name)

    def truth(self, I):
        raise PyRaise('ValueError', 'ambiguous')

    def subst(self, mp):
        return Row(self.df, T.subst(self.i, mp))

    def fvs(self):
        return self.i.fv


# ---------------------------------------------------------------- tables

class DF:
    __slots__ = ('cols', 'n', 'index')

    def __init__(self, cols, n, index=None):
        self.cols, self.n, self.index = dict(cols), P(n), index

    def typeval(self):
        return DATAFRAME

    def o_contains(self, I, x):
        if not isinstance(x, str):
            raise Unsupported('membership of %r in a table' % (x,))
        return x in self.cols       # column names

    def subst(self, mp):
        return DF({q: subst_col(A, mp) for q, A in self.cols.items()}, T.subst(self.n, mp),
                  None if self.index is None else subst_col(self.index, mp))

    def fvs(self):
        from .loops import fv_val
        out = self.n.fv
        for A in list(self.cols.values()) + ([] if self.index is None else [self.index]):
            out |= fv_val(A)
        return out

    def merge(self, I, c, o):
        """this table under c, else the other"""
        if not isinstance(o, DF) or set(self.cols) != set(o.cols):
            raise Unsupported('tables with different columns: %s / %s' % (list(self.cols), list(getattr(o, 'cols', ()))))
        if list(self.cols) != list(o.cols):
            raise Unsupported('tables with differently ordered columns')
        if (self.index is None) != (o.index is None):
            raise Unsupported('tables with different kinds of index')
        n = self.n if prover.prove_eq(self.n, o.n, I.pc) else None
        if n is None:
            if self.n.is_zero and prover.prove(I.pc.extend(c), eq(o.n, 0)):
                return o
            if o.n.is_zero and prover.prove(I.pc.extend(not_(c)), eq(self.n, 0)):
                return self
            n = ite(c, self.n, o.n)
        return DF({q: merge_col(I, c, A, o.cols[q]) for q, A in self.cols.items()}, n,
                  None if self.index is None else merge_col(I, c, self.index, o.index))

    def o_len(self):
        return self.n

    def o_iter(self, I, v):
        return list(self.cols)

    def o_copy(self, I, v):
        return mk_df(I, self.cols, self.n, self.index)

    def o_to_arr(self, I, v):
        return matrix(I, self)

    def o_binop(self, I, ref, op, o, refl):
        if I.is_number(o):
            out = {}
            for k, A in self.cols.items():
                a = I.new_arr(A)
                out[k] = I.arr(N.binop(I, op, o, a) if refl else N.binop(I, op, a, o))
            return mk_df(I, out, self.n, self.index)
        raise Unsupported('table arithmetic')

    def o_unary(self, I, ref, op):
        return mk_df(I, {k: I.arr(N.unary(I, op, I.new_arr(A))) for k, A in self.cols.items()}, self.n, self.index)

    def o_compare(self, I, ref, op, o, refl):
        raise Unsupported('table comparison')

    def o_getitem(self, I, ref, idx):
        if isinstance(idx, str):
            return column(I, self, idx)
        if isinstance(idx, ListRef):
            items = I.concrete_items(idx)
            if items is not None and all(isinstance(x, str) for x in items):
                for x in items:
                    if x not in self.cols:
                        raise PyRaise('KeyError', x)
                return mk_df(I, {x: self.cols[x] for x in items}, self.n, self.index)
        if isinstance(idx, ObjRef):
            s = I.heap[idx]
            if not same_index(I, s.index, self.index, self.n):
                raise Unsupported('selection by a column with another index')
            idx = I.new_arr(s.A)
        if isinstance(idx, (ArrRef, ListRef)):
            M = N.to_arr(I, idx)
            if M.dtype == 'b':
                if not N.same_dim(I, M.shape[0], self.n):
                    raise PyRaise('ValueError', 'Item wrong length')
                W = N.mask_where(M)
                return take_rows(I, self, W.shape[0], lambda k: W.at(k))
        if isinstance(idx, SliceVal):
            lo, m, st = I.slice_bounds(idx, self.n)
            return take_rows(I, self, m, lambda k: lo + k * st)
        raise Unsupported('table subscript %r' % (idx,))

    def o_getattr(self, I, ref, name):
        if name == 'columns':
            return I.new_list(list(self.cols))
        if name == 'iloc':
            return ILoc(ref)
        if name == 'loc':
            return Loc(ref)
        if name == 'index':
            return index_val(I, self.index, self.n)
        if name == 'shape':
            return (mk_int(self.n), len(self.cols))
        if name == 'empty':
            return mk_bool(eq(self.n, 0)) if self.cols else True
        if name == 'values':
            return I.new_arr(matrix(I, self))
        if name == 'size':
            return mk_int(self.n * len(self.cols))
        f = DF_METHODS.get(name)
        if f is not None:
            return Builtin('DataFrame.' + name, lambda I2, a, k: f(I2, ref, a, k))
        if name in self.cols:
            return column(I, self, name)
        raise Unsupported('DataFrame.%s' % name) if name in KNOWN_DF else PyRaise('AttributeError', name)

    def o_setattr(self, I, ref, name, x):
        if name == 'columns':
            items = I.concrete_items(x)
            if items is None or len(items) != len(self.cols):
                raise PyRaise('ValueError', 'Length mismatch')
            I.heap[ref] = DF(zip(items, self.cols.values()), self.n, self.index)
            return
        if name in self.cols:
            self.o_setitem(I, ref, name, x)
            return
        raise Unsupported('table attribute %s' % name)

    def o_setitem(self, I, ref, idx, x):
        if isinstance(idx, ListRef):
            items = I.concrete_items(idx)
            if items and all(isinstance(q, str) for q in items) and isinstance(x, ObjRef) and isinstance(I.heap[x], DF):
                src = I.heap[x]
                if len(src.cols) != len(items):
                    raise PyRaise('ValueError', 'Columns must be same length as key')
                if not same_index(I, src.index, self.index, self.n):
                    raise Unsupported('assignment of columns with another index')
                cols = dict(self.cols)
                cols.update(zip(items, src.cols.values()))
                I.writes.append((ref, None, None))
                I.heap[ref] = DF(cols, self.n, self.index)
                return
        if not isinstance(idx, str):
            raise Unsupported('table assignment %r' % (idx,))
        cols = dict(self.cols)
        n, A = as_column(I, self, x)
        cols[idx] = A
        I.writes.append((ref, None, None))
        I.heap[ref] = DF(cols, n, self.index)

    def o_delitem(self, I, ref, idx):
        if idx not in self.cols:
            raise PyRaise('KeyError', idx)
        cols = dict(self.cols)
        del cols[idx]
        I.heap[ref] = DF(cols, self.n, self.index)


def subst_col(A, mp):
    from .loops import subst_arr
    return subst_arr(A, mp)


def merge_col(I, c, A, B):
    if A is B:
        return A
    n = A.shape[0] if A.shape[0] is B.shape[0] else ite(c, A.shape[0], B.shape[0])
    dt = A.dtype if A.dtype == B.dtype else N.join_dt([A.dtype, B.dtype])
    if dt == 'O':
        return Arr((n,), lambda ix: I.merge_obj(c, A.at(*ix), B.at(*ix)), 'O')
    if dt == 'b':
        return Arr((n,), lambda ix: cite(c, N.as_cond(A.at(*ix)), N.as_cond(B.at(*ix))), 'b')
    return Arr((n,), lambda ix: ite(c, N.as_poly(A.at(*ix)), N.as_poly(B.at(*ix))), dt)


KNOWN_DF = {'apply', 'groupby', 'merge', 'join', 'fillna', 'dropna', 'sort_values', 'to_csv', 'agg', 'transform', 'astype',
            'reindex', 'set_index', 'query', 'describe', 'head', 'tail', 'min', 'max', 'mean', 'sum', 'T', 'at', 'iat',
            'drop_duplicates', 'isnull', 'isna', 'duplicated', 'interpolate', 'where', 'mask', 'map', 'items', 'ffill'}


def as_column(I, df, x):
    """array content of a value assigned as a column of df; also the table's length"""
    n = df.n
    if isinstance(x, ObjRef):
        s = I.heap[x]
        if not isinstance(s, Series):
            raise Unsupported('column from %r' % (s,))
        if not df.cols:
            return s.A.shape[0], fresh_copy(s.A)
        if not N.same_dim(I, s.A.shape[0], n) or not same_index(I, s.index, df.index, n):
            raise Unsupported('column assignment aligns different indexes')
        return n, fresh_copy(s.A)
    if I.is_number(x) or isinstance(x, str) or hasattr(x, 'is_str') or x is None:
        A = N.to_arr(I, x)
        return n, Arr((n,), lambda ix: A.at(), A.dtype)
    A = N.to_arr(I, x)
    if A.ndim == 0:
        return n, Arr((n,), lambda ix: A.at(), A.dtype)
    if A.ndim != 1:
        raise Unsupported('%d-d column' % A.ndim)
    if not df.cols:
        return A.shape[0], fresh_copy(A)
    if not N.same_dim(I, A.shape[0], n):
        raise PyRaise('ValueError', 'Length of values does not match length of index')
    return n, fresh_copy(A)


def column(I, df, name):
    if name not in df.cols:
        raise PyRaise('KeyError', name)
    return mk_series(I, df.cols[name], df.index, name)


def mk_df(I, cols, n, index=None):
    r = ObjRef()
    I.heap[r] = DF(cols, n, index)
    return r


def matrix(I, df):
    names = list(df.cols)
    As = [df.cols[q] for q in names]
    dt = N.join_dt([a.dtype for a in As])
    if dt == 'O':
        raise Unsupported('matrix of mixed columns')
    return Arr((df.n, num(len(As))), lambda ix: N.select_poly(len(As), ix[1], lambda k: As[k].at(ix[0]), dt), dt, {'ro': True})


def take_rows(I, df, m, f):
    cols = {}
    for q, A in df.cols.items():
        cols[q] = Arr((m,), lambda ix, A=A: A.at(f(ix[0])), A.dtype)
    idx = Arr((m,), lambda ix: f(ix[0]) if df.index is None else df.index.at(f(ix[0])), 'i')
    return mk_df(I, cols, m, idx)


def df_new(I, args, kw):
    data = kw.get('data', args[0] if args else None)
    columns = kw.get('columns', args[2] if len(args) > 2 else None)
    index = kw.get('index', args[1] if len(args) > 1 else None)
    if set(kw) - {'data', 'columns', 'index', 'dtype', 'copy'} or kw.get('dtype') is not None:
        raise Unsupported('DataFrame options')
    if index is not None:
        raise Unsupported('DataFrame index')
    names = I.concrete_items(columns) if columns is not None else None
    if data is None or (isinstance(data, (ListRef, DictRef)) and I.concrete_items(data) == []):
        return mk_df(I, {q: Arr((ZERO,), lambda ix: NAN, 'O') for q in names or []}, 0)
    if isinstance(data, DictRef):
        d = I.heap[data].d
        df = DF({}, 0)
        scal = []
        first = True
        cols = {}
        n = None
        for q, v in d.items():
            if I.is_number(v) or isinstance(v, str) or v is None:
                scal.append(q)
                continue
            A = v_series(I, v)
            if n is None:
                n = A.shape[0]
            elif not N.same_dim(I, A.shape[0], n):
                raise PyRaise('ValueError', 'All arrays must be of the same length')
            cols[q] = fresh_copy(A)
        if n is None:
            raise PyRaise('ValueError', 'If using all scalar values, you must pass an index')
        out = {}
        for q, v in d.items():
            out[q] = cols[q] if q in cols else as_column(I, DF(cols, n), v)[1]
        if names is not None:
            for q in names:
                if q not in out:
                    raise Unsupported('DataFrame columns not in data')
            out = {q: out[q] for q in names}
        return mk_df(I, out, n)
    if isinstance(data, ObjRef):
        o = I.heap[data]
        if isinstance(o, DF):
            return mk_df(I, {q: o.cols[q] for q in names} if names is not None else o.cols, o.n, o.index)
    return from_rows(I, data, names)


def v_series(I, v):
    if isinstance(v, ObjRef):
        s = I.heap[v]
        if not isinstance(s, Series) or s.index is not None:
            raise Unsupported('DataFrame of columns with other indexes')
        return s.A
    A = N.to_arr(I, v)
    if A.ndim != 1:
        raise PyRaise('ValueError', 'Per-column arrays must each be 1-dimensional')
    return A


def from_rows(I, data, names):
    """list of rows or a 2-d array"""
    A = None
    if isinstance(data, ListRef):
        it = I.iterate(data)
        n = num(len(it)) if isinstance(it, list) else it.n
        at = (lambda k: I.select_concrete(it, P(k))) if isinstance(it, list) else it.at
        k = fresh('r')
        rows = None
        if not isinstance(it, list) and getattr(data, 'kind', None) is None:
            # rows that are lists, each built case by case
            from . import loops
            w = {}

            def as_tuple(x):
                if not isinstance(x, (ListRef, tuple)):
                    w['other'] = True
                    return 0
                xs = tuple(I.concrete_items(x) or ())
                w.setdefault('len', set()).add(len(xs))
                return xs
            try:
                L = loops.sym_map(I, it, as_tuple)
            except Unsupported:
                w['other'] = True
            if 'other' not in w and len(w.get('len', ())) == 1:
                rows = I.iterate(L)
        row = rows.at(k) if rows is not None else at(k) if not isinstance(it, list) else it[0]
        if rows is not None:
            at = rows.at
        if isinstance(row, (ListRef, tuple)):
            m = I.length(row)
            if not m.is_const:
                raise Unsupported('rows of unknown length')
            m = int(m.const)
            if names is None:
                names = list(range(m))
            if len(names) != m:
                raise PyRaise('ValueError', '%d columns passed, passed data had %d columns' % (len(names), m))
            cols = {}
            for j, q in enumerate(names):
                def el(i, j=j):
                    x = at(i)
                    return I.getitem(x, j)
                cols[q] = N.to_arr(I, I.new_symlist(n, el)) if not isinstance(it, list) else \
                    N.to_arr(I, I.new_list([I.getitem(r, j) for r in it]))
            return mk_df(I, dict_cols(names, cols), n)
        if isinstance(row, DictRef):
            keys = list(I.heap[row].d)
            cols = {q: N.to_arr(I, I.new_symlist(n, lambda i, q=q: I.heap[at(i)].d[q])) for q in keys}
            return mk_df(I, cols, n)
    A = N.to_arr(I, data)
    if A.ndim == 1:
        names = names or [0]
        return mk_df(I, {names[0]: fresh_copy(A)}, A.shape[0])
    if A.ndim != 2 or not A.shape[1].is_const:
        raise Unsupported('DataFrame from %r' % (data,))
    m = int(A.shape[1].const)
    if names is None:
        names = list(range(m))
    if len(names) != m:
        raise PyRaise('ValueError', 'Shape of passed values')
    cols = {q: Arr((A.shape[0],), lambda ix, j=j: A.at(ix[0], num(j)), A.dtype) for j, q in enumerate(names)}
    return mk_df(I, dict_cols(names, cols), A.shape[0])


def dict_cols(names, cols):
    if len(set(names)) != len(names):
        raise Unsupported('duplicate column names')
    return cols


def _insert(I, ref, a, k):
    df = I.heap[ref]
    names = ['loc', 'column', 'value', 'allow_duplicates']
    v = dict(zip(names, a))
    v.update(k)
    loc, q, x = int(I.poly(v['loc']).const), v['column'], v['value']
    if q in df.cols:
        raise PyRaise('ValueError', 'cannot insert, already exists')
    if not 0 <= loc <= len(df.cols):
        raise PyRaise('IndexError', 'insert')
    n, A = as_column(I, df, x)
    items = list(df.cols.items())
    items.insert(loc, (q, A))
    I.writes.append((ref, None, None))
    I.heap[ref] = DF(items, n, df.index)


def _pop(I, ref, a, k):
    df = I.heap[ref]
    s = column(I, df, a[0])
    df.o_delitem(I, ref, a[0])
    return s


def _assign(I, ref, a, k):
    df = I.heap[ref]
    r = mk_df(I, df.cols, df.n, df.index)
    for q, x in k.items():
        if isinstance(x, (FuncVal, BoundMethod)):
            x = I.call(x, [r], {})
        I.heap[r].o_setitem(I, r, q, x)
    return r


def _drop(I, ref, a, k):
    df = I.heap[ref]
    inplace = k.get('inplace', False) is True
    cols = k.get('columns')
    axis = k.get('axis', a[1] if len(a) > 1 else 0)
    lab = a[0] if a else k.get('labels')
    if cols is None and axis in (1, 'columns'):
        cols = lab
    if cols is not None:
        qs = [cols] if isinstance(cols, str) else I.concrete_items(cols)
        out = dict(df.cols)
        for q in qs:
            if q not in out:
                raise PyRaise('KeyError', q)
            del out[q]
        new = DF(out, df.n, df.index)
    else:
        lab = k.get('index', lab)
        new = drop_rows(I, df, N.to_arr(I, lab))
    if inplace:
        I.writes.append((ref, None, None))
        I.heap[ref] = new
        return None
    r = ObjRef()
    I.heap[r] = new
    return r


def drop_rows(I, df, L):
    if df.index is not None or L.ndim != 1:
        raise Unsupported('dropping rows by label')
    m = L.shape[0]
    j = fresh('d')
    # every label must exist
    e = N.as_poly(L.at(j))
    if not prover.prove(I.pc.extend(le(0, j), lt(j, m)), and_(le(0, e), lt(e, df.n))):
        raise Unsupported('label to drop may not exist')
    keep = Arr((df.n,), lambda ix: eq(sum_(0, m, lambda q: ite(eq(N.as_poly(L.at(q)), ix[0]), ONE, ZERO)), 0), 'b')
    W = N.mask_where(keep)
    cols = {q: Arr(W.shape, lambda ix, A=A: A.at(W.at(*ix)), A.dtype) for q, A in df.cols.items()}
    return DF(cols, W.shape[0], W)


def _reset_index(I, ref, a, k):
    df = I.heap[ref]
    cols = dict(df.cols)
    if k.get('drop', False) is not True:
        lab = df.index if df.index is not None else Arr((df.n,), lambda ix: ix[0], 'i')
        q = 'index' if 'index' not in cols else 'level_0'
        cols = dict([(q, lab)] + list(cols.items()))
    new = DF(cols, df.n, None)
    if k.get('inplace', False) is True:
        I.writes.append((ref, None, None))
        I.heap[ref] = new
        return None
    r = ObjRef()
    I.heap[r] = new
    return r


def _rename(I, ref, a, k):
    df = I.heap[ref]
    m = k.get('columns')
    if m is None or set(k) - {'columns'}:
        raise Unsupported('rename')
    d = I.heap[m].d
    return mk_df(I, {d.get(q, q): A for q, A in df.cols.items()}, df.n, df.index)


def _iterrows(I, ref, a, k):
    df = I.heap[ref]

    def at(j):
        lab = mk_int(P(j)) if df.index is None else N.wrap(df.index.at(P(j)), 'i')
        return (lab, Row(df, P(j)))
    if df.n.is_const:
        return I.new_list([at(num(j)) for j in range(int(df.n.const))])
    return SymIter(df.n, at)


def _df_to_numpy(I, ref, a, k):
    return I.new_arr(fresh_copy(matrix(I, I.heap[ref])))


def _apply(I, ref, a, k):
    """a function applied to every column"""
    k = dict(k)
    if k.pop('axis', 0) not in (0, 'index') or len(a) != 1 or set(k) & {'raw', 'result_type', 'args', 'by_row', 'engine'}:
        raise Unsupported('DataFrame.apply options')
    df = I.heap[ref]
    cols = {}
    for q, A in df.cols.items():
        r = I.call(a[0], [mk_series(I, A, df.index, q)], dict(k))
        if not (isinstance(r, ObjRef) and isinstance(I.heap[r], Series)) or not same_index(I, I.heap[r].index, df.index, df.n):
            raise Unsupported('DataFrame.apply of a reduction')
        cols[q] = I.heap[r].A
    return mk_df(I, cols, df.n, df.index)


DF_METHODS = {
    'apply': _apply,
    'insert': _insert, 'pop': _pop, 'assign': _assign, 'drop': _drop, 'reset_index': _reset_index, 'rename': _rename,
    'copy': lambda I, r, a, k: I.heap[r].o_copy(I, r), 'iterrows': _iterrows, 'to_numpy': _df_to_numpy,
    'keys': lambda I, r, a, k: I.new_list(list(I.heap[r].cols)),
}


@model('pandas.concat')
def concat(I, args, kw):
    objs = I.concrete_items(args[0] if args else kw['objs'])
    if objs is None:
        return concat_sym(I, args[0], kw)
    if not objs:
        raise PyRaise('ValueError', 'No objects to concatenate')
    axis = kw.get('axis', 0)
    if set(kw) - {'axis', 'ignore_index', 'objs', 'sort', 'copy'}:
        raise Unsupported('concat options')
    tabs = [I.heap[o] for o in objs]
    if axis in (1, 'columns'):
        n, index = (tabs[0].n if isinstance(tabs[0], DF) else tabs[0].A.shape[0]), tabs[0].index
        cols = {}
        for t in tabs:
            m = t.n if isinstance(t, DF) else t.A.shape[0]
            if not N.same_dim(I, m, n) or not same_index(I, t.index, index, n):
                raise Unsupported('concat aligns different indexes')
            for q, A in (t.cols.items() if isinstance(t, DF) else [(t.name, t.A)]):
                if q in cols:
                    raise Unsupported('duplicate column')
                cols[q] = A
        return mk_df(I, cols, n, index)
    ign = kw.get('ignore_index', False) is True
    if not all(isinstance(t, DF) for t in tabs):
        raise Unsupported('concat of columns')
    names = []
    for t in tabs:
        for q in t.cols:
            if q not in names:
                names.append(q)
    n = ZERO
    for t in tabs:
        n = n + t.n
    cols = {}
    for q in names:
        parts = []
        for t in tabs:
            parts.append(t.cols[q] if q in t.cols else Arr((t.n,), lambda ix: NAN, 'f'))
        cols[q] = N.concat1(I, parts) if len(parts) > 1 else parts[0]
    index = None
    if not ign:
        ps = [t.index if t.index is not None else Arr((t.n,), lambda ix: ix[0], 'i') for t in tabs]
        index = N.concat1(I, ps) if len(ps) > 1 else tabs[0].index
    return mk_df(I, cols, n, index)


def concat_sym(I, v, kw):
    """concatenation of a list of tables of symbolic length (the tables are alike)"""
    if set(kw) - {'axis', 'ignore_index', 'objs', 'sort', 'copy'} or kw.get('axis', 0) not in (0, 'index'):
        raise Unsupported('concat options')
    if not isinstance(v, ListRef):
        raise Unsupported('concat of %r' % (v,))
    it = I.iterate(v)
    if I.decide(eq(it.n, 0)):
        raise PyRaise('ValueError', 'No objects to concatenate')
    memo = {}

    def tab(f):
        r = memo.get(f)
        if r is None:
            x = it.at(f)
            r = memo[f] = I.heap[x] if isinstance(x, ObjRef) else None
        if not isinstance(r, DF):
            raise Unsupported('concat of %r' % (it.at(f),))
        return r
    f = fresh('c')
    t = tab(f)
    cols = {}
    rows = N.concat_map_arr(I, it.n, lambda g: Arr((tab(g).n,), lambda ix: ix[0], 'i'))
    file_ = N.concat_map_arr(I, it.n, lambda g: Arr((tab(g).n,), lambda ix: g, 'i'))
    for q, A in t.cols.items():
        cols[q] = concat_col(I, it.n, lambda g, q=q: tab(g).cols[q], A, file_, rows)
    index = None
    if kw.get('ignore_index', False) is not True:
        index = N.concat_map_arr(I, it.n, lambda g: tab(g).index if tab(g).index is not None else Arr((tab(g).n,), lambda ix: ix[0], 'i'))
    return mk_df(I, cols, rows.shape[0], index)


def concat_col(I, n, col, A, file_, rows):
    from .dtmodel import DT
    if A.dtype != 'O':
        return N.concat_map_arr(I, n, col)
    x = A.at(fresh('c'))
    if isinstance(x, DT) and (x.off is None or x.off.is_const):
        def u(g):
            B = col(g)
            return Arr(B.shape, lambda ix: B.at(*ix).u, 'f')
        U = N.concat_map_arr(I, n, u)
        return Arr(U.shape, lambda ix: DT(U.at(*ix), x.off), 'O')
    return Arr(rows.shape, lambda ix: col(file_.at(*ix)).at(rows.at(*ix)), 'O')


class StrAcc:
    """Series.str"""

    def __init__(self, ref):
        self.ref = ref

    def getattr(self, I, name):
        s = I.heap[self.ref]
        if name == 'extract':
            return Builtin('Series.str.extract', lambda I2, a, k: I2.strmodel.extract(I2, self.ref, a, k))
        if name == 'get':
            return Builtin('Series.str.get', lambda I2, a, k: self.each(I2, lambda x: I2.getitem(x, a[0])))
        return Builtin('Series.str.' + name, lambda I2, a, k: self.each(I2, lambda x: I2.call(I2.getattr(x, name), a, k)))

    def getitem(self, I, idx):
        return self.each(I, lambda x: I.getitem(x, idx))

    def each(self, I, g):
        s = I.heap[self.ref]
        A = s.A
        r = I.new_symlist(A.shape[0], lambda i: g(N.elem_value(I, A, (P(i),))))
        return mk_series(I, N.to_arr(I, r), s.index, s.name)


DATAFRAME = TypeVal('DataFrame', df_new)


def series_new(I, args, kw):
    if set(kw) - {'data', 'name', 'dtype'}:
        raise Unsupported('Series options')
    A = N.to_arr(I, args[0] if args else kw['data'])
    return mk_series(I, fresh_copy(A), None, kw.get('name'))


SERIES = TypeVal('Series', series_new)


def register(mods, models):
    from . import dtmodel
    dtmodel.register(mods, models)
    mods['pandas'].attrs['DataFrame'] = DATAFRAME
    mods['pandas'].attrs['Series'] = SERIES
    models.update(MODELS)
