"""Platform tilt: Peters-style filter by the pre-warped bilinear transform."""
from .base import *


def tilt_filter(per, dt, damp):
    """coefficients of the digital filter: (num, den), den[0] = 1.

    Analogue response H(s) = -(s^2 - ... ) is sampled with s -> (2/dt)(1-z^-1)/(1+z^-1), both
    frequencies pre-warped."""
    w0, ws = 2 * PI / per, power(D('6371100') / D('9.8'), Fraction(-1, 2))
    o0 = 2 / dt * T.tan(w0 * dt / 2)
    oS = 2 / dt * T.tan(ws * dt / 2)
    # H(s) = (oS^2 - o0^2 - 2 damp o0 s) / (s^2 + 2 damp o0 s + o0^2), s = (2/dt)(1-q)/(1+q), times (1+q)^2
    c = 2 / dt
    n2 = [oS ** 2 - o0 ** 2 - 2 * damp * o0 * c, 2 * (oS ** 2 - o0 ** 2), oS ** 2 - o0 ** 2 + 2 * damp * o0 * c]
    d2 = [c ** 2 + 2 * damp * o0 * c + o0 ** 2, -2 * c ** 2 + 2 * o0 ** 2, c ** 2 - 2 * damp * o0 * c + o0 ** 2]
    return [x / d2[0] for x in n2], [x / d2[0] for x in d2]


def up(c, l, i):
    """columns for cross tilt c and long tilt l: even samples cross rotation last"""
    sc, cc, sl, cl = sin(c), cos(c), sin(l), cos(l)
    even = (-sc * cl, -sl, cc * cl)
    odd = (-sc, -sl * cc, cl * cc)
    par = eq(T.mod(i, 2), 0)
    return [ite(par, e, o) for e, o in zip(even, odd)]


def run(C):
    n = ivar('n')
    for mode in ('damp', 'default'):
        def post(P, I, env, v):
            v = P.tuple_('result', v, 2)
            d = var('damp') if mode == 'damp' else power(num(2), Fraction(1, 2)) / 2
            nu, de = tilt_filter(var('per'), var('dt'), d)
            for nm, ref, sp in (('numerator', v[0], nu), ('denominator', v[1], de)):
                A = I.arr(ref)
                P.ob(nm + '/length', A.ndim == 1 and A.shape[0].is_const and A.shape[0].const == 3)
                for k in range(3):
                    P.eq('%s/%d' % (nm, k), A.at(num(k)), sp[k])
        C.call('tilt_filter/' + mode, 'grav._tilt_filter',
               lambda I: ([fl('per'), fl('dt')] + ([fl('damp')] if mode == 'damp' else []), {},
                          I.assume(and_(gt(var('per'), 0), gt(var('dt'), 0), gt(var('damp'), 0)))), post)

    def cu(P, I, env, v):
        def col(k):
            return lambda i: up(el('ct', i), el('lt', i), i)[k]
        A = I.arr(v)
        if A.ndim != 2:
            return P.ob('shape', False, 'not 2-d')
        P.eq('rows', A.shape[0], num(3))
        P.eq('columns', A.shape[1], n)
        i = fresh('i')
        pc = I.pc.extend(le(0, i), lt(i, n))
        e = [A.at(num(k), i) for k in range(3)]
        for k in range(3):
            P.eq('component%d' % k, e[k], col(k)(i), pc)
        P.eq('unit length', e[0] ** 2 + e[1] ** 2 + e[2] ** 2, ONE, pc)
    C.call('calc_up_vecs', 'grav._calc_up_vecs',
           lambda I: ([symarr(I, 'ct', n), symarr(I, 'lt', n)], {}, I.assume(ge(n, 1))), cu)
    # whole routine
    nanc = lambda nm: (lambda k: ite(T.pred('nan_' + nm, T.P(k)), NAN, el(nm, k)))

    def build(I):
        I.assume(ge(n, 1))
        for q in ('per1', 'per2', 'dt', 'damp1', 'damp2'):
            I.assume(gt(var(q), 0))
        k = fresh('k')
        ca = I.new_arr(Arr((n,), lambda ix: nanc('ca')(ix[0]), 'f'))
        la = I.new_arr(Arr((n,), lambda ix: nanc('la')(ix[0]), 'f'))
        env = {'ca': ca, 'la': la, '_modifies': (ca, la)}
        g = I.new_arr(Arr((n,), lambda ix: ite(T.pred('nan_g', ix[0]), NAN, fn('g', ix[0], nonneg=True)), 'f'))
        return [fl('dt'), g, ca, la, symarr(I, 'oo', n), fl('per1'), fl('damp1'), fl('per2'), fl('damp2')], {}, env

    def drive(nm):
        def f(k):
            off = or_(T.pred('nan_' + nm, T.P(k)), gt(el('oo', k), 0), T.pred('nan_g', T.P(k)))
            return ite(off, ZERO, el(nm, k) / fn('g', T.P(k), nonneg=True))
        return f

    def post(P, I, env, v):
        A = I.arr(v)
        P.eq('rows', A.shape[0], num(3))
        P.eq('columns', A.shape[1], n)
        i = fresh('i')
        pc = I.pc.extend(le(0, i), lt(i, n))
        til = {}
        for nm, p_, d_ in (('ca', 'per1', 'damp1'), ('la', 'per2', 'damp2')):
            nu, de = tilt_filter(var(p_), var('dt'), var(d_))
            til[nm] = T.arctan(N.lfilter_term(('c',) + tuple(nu), ('c',) + tuple(de), n, drive(nm), i))
        sp = up(til['ca'], til['la'], i)
        for k in range(3):
            P.eq('component%d' % k, A.at(num(k), i), sp[k], pc)
        # documented in-place clean-up of the two acceleration series, nothing else
        for nm in ('ca', 'la'):
            B = I.arr(env[nm])
            P.eq('%s cleaned in place' % nm, B.at(i), ite(or_(T.pred('nan_' + nm, i), gt(el('oo', i), 0)), ZERO, el(nm, i)), pc)

    C.call('up_vecs', 'grav.up_vecs', build, post)
