"""Trusted models of the regression calls of statsmodels.

`OLS(y, X).fit()` is uninterpreted: a fitted model is identified with the observations y and the design matrix X it
was fitted to (ordinary least squares is then statsmodels' own contract).  `add_constant` puts a column of ones in
front of (or behind) the others; statsmodels leaves the table alone when a column is constant and not zero, which is
outside the contract's domain."""
from .terms import *
from . import terms as T
from .values import *
from . import npmodel as N
from . import pdmodel as PD
from . import prover

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class Regression:
    """observations and design of a least-squares problem; `fitted` after fit()"""
    __slots__ = ('y', 'names', 'cols', 'n', 'fitted')

    def __init__(self, y, names, cols, n, fitted):
        self.y, self.names, self.cols, self.n, self.fitted = y, names, cols, n, fitted

    def o_getattr(self, I, ref, name):
        if name == 'fit' and not self.fitted:
            def fit(I2, a, k):
                if a or any(q not in ('method',) for q in k) or k.get('method', 'pinv') not in ('pinv', 'qr'):
                    raise Unsupported('fit options')
                r = ObjRef()
                I2.heap[r] = Regression(self.y, self.names, self.cols, self.n, True)
                return r
            return Builtin('OLS.fit', fit)
        raise Unsupported('regression attribute %s' % name)


def one_d(I, v):
    if isinstance(v, ObjRef) and isinstance(I.heap[v], PD.DF):
        d = I.heap[v]
        if len(d.cols) != 1:
            raise Unsupported('observations in a table of several columns')
        return list(d.cols.values())[0]
    A = N.to_arr(I, v)
    if A.ndim != 1:
        raise Unsupported('observations with %d dimensions' % A.ndim)
    return A


@model('statsmodels.api.OLS', 'statsmodels.regression.linear_model.OLS')
def ols(I, args, kw):
    kw = dict(kw)
    y = args[0] if args else kw.pop('endog')
    X = args[1] if len(args) > 1 else kw.pop('exog', None)
    if len(args) > 2 or kw:
        raise Unsupported('OLS options')
    if X is None:
        raise Unsupported('OLS without a design')
    Y = one_d(I, y)
    if isinstance(X, ObjRef) and isinstance(I.heap[X], PD.DF):
        d = I.heap[X]
        names, cols, n, ix = list(d.cols), list(d.cols.values()), d.n, d.index
        if isinstance(y, ObjRef) and isinstance(I.heap[y], PD.Series):
            if not PD.same_index(I, I.heap[y].index, ix, n):
                raise PyRaise('ValueError', 'The indices for endog and exog are not aligned')
    else:
        A = N.to_arr(I, X)
        if A.ndim != 2 or not A.shape[1].is_const:
            raise Unsupported('design matrix')
        names, n = None, A.shape[0]
        cols = [Arr((n,), (lambda j: lambda q: A.at(q[0], num(j)))(j), 'f') for j in range(int(A.shape[1].const))]
    if not N.same_dim(I, Y.shape[0], n):
        raise PyRaise('ValueError', 'endog and exog matrices are different sizes')
    r = ObjRef()
    I.heap[r] = Regression(Y, names, cols, n, False)
    return r


@model('statsmodels.api.add_constant', 'statsmodels.tools.add_constant', 'statsmodels.tools.tools.add_constant')
def add_constant(I, args, kw):
    kw = dict(kw)
    x = args[0] if args else kw.pop('data')
    pre = kw.pop('prepend', args[1] if len(args) > 1 else True)
    has = kw.pop('has_constant', args[2] if len(args) > 2 else 'skip')
    if kw or pre not in (True, False) or has not in ('skip', 'add', 'raise'):
        raise Unsupported('add_constant options')
    if isinstance(x, ObjRef) and isinstance(I.heap[x], PD.DF):
        d = I.heap[x]
        one = {'const': Arr((d.n,), lambda q: ONE, 'f')}
        if 'const' in d.cols:
            raise Unsupported('add_constant twice')
        cols = {**one, **d.cols} if pre else {**d.cols, **one}
        return PD.mk_df(I, cols, d.n, d.index)
    A = N.to_arr(I, x)
    if A.ndim == 1:
        A1 = A
        A = Arr(A.shape + (ONE,), lambda q: A1.at(q[0]), A.dtype)
    if A.ndim != 2 or not A.shape[1].is_const:
        raise Unsupported('add_constant of %d-d' % A.ndim)
    one = Arr((A.shape[0], ONE), lambda q: ONE, 'f')
    return I.new_arr(N.concat_nd(I, [one, A] if pre else [A, one], 1))


def register(mods, models):
    models.update(MODELS)
