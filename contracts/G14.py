"""Gaussian filter: causal FIR with the documented weights."""
from .base import *

n = ivar('n')


def run(C):
    # the filter length may be an integer or any real number
    for kind, L in (('integer', ivar('L')), ('real', var('Lr', 'r', True))):
        one(C, kind, L)


def one(C, kind, L):
    H = T.floor(L / 2)
    mk = mk_int if kind == 'integer' else mk_float
    x = lambda i: el('x', i)

    def raw(d):
        """weight at offset d from the middle of the window, before normalisation"""
        return T.exp_(-((abs_(d) - 1) * 6 / L) ** 2 / 2)

    def total():
        return sum_(0, 2 * H + 1, lambda j: raw(j - H))

    def wpost(P, I, e, v):
        P.arr('weights', v, (2 * H + 1,), lambda j: raw(j - H) / total())
    C.call('weights/%s length' % kind, 'utils._gaussian_coeffs', lambda I: ([mk(L)], {}, I.assume(ge(L, 1))), wpost)

    def build(I):
        I.assume(and_(ge(L, 1), gt(n, L)))
        return [symarr(I, 'x', n), mk(L)], {}, None

    def post(P, I, e, v):
        def out(i):
            return sum_(0, 2 * H + 1, lambda j: ite(le(0, i - 2 * H + j), x(i - 2 * H + j), ZERO) * raw(j - H) / total())
        P.arr('filtered', v, (n,), out)
    C.call('filter/%s length' % kind, 'utils.gaussian_filter', build, post)

    def short(I):
        I.assume(and_(ge(n, 0), ge(L, 1), le(n, L)))
        return [symarr(I, 'x', n), mk(L)], {}, None
    C.call('series not longer than the filter/%s length' % kind, 'utils.gaussian_filter', short, raises=['AssertionError'])

    # what the weights are: symmetric, non-negative, of sum one
    d = ivar('d')
    C.lemma('symmetric weights/%s length' % kind, raw(d), raw(-d), [ge(L, 1)])
    C.lemma_holds('non-negative weights/%s length' % kind, ge(raw(d), 0), [ge(L, 1)])
    C.lemma('weights sum to one/%s length' % kind, sum_(0, 2 * H + 1, lambda j: raw(j - H) / total()), ONE, [ge(L, 1)])
