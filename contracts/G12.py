"""Half-space cooling: temperature, subsidence, isotherm depth, and their inversion."""
from .base import *

DEF = {'u': D('0.01'), 'Tm': num(1350), 'rhom': num(3300), 'rhow': num(1000), 'a': D('3e-5'), 'k': D('1e-6')}
SEC = num(Fraction('365.25') * 24 * 3600)


def age(x, p, time):
    """seconds since the sea floor at x (metres from the axis, or Myr of age) formed"""
    return x * 10 ** 6 * SEC if time else abs_(x) * SEC / p['u']


def half(q):
    return power(q, Fraction(1, 2))


def temp(t, z, p):
    return p['Tm'] * N.erf(z / (2 * half(p['k'] * t)))


def subsidence(t, p):
    return 2 * p['rhom'] * p['a'] * p['Tm'] / (p['rhom'] - p['rhow']) * half(p['k'] * t / PI)


def pars(given):
    return {q: var(q, 'r', True) if q in given else DEF[q] for q in DEF}


def assume(I, given):
    for q in given:
        if q in ('u', 'Tm', 'a', 'k', 'rhom', 'rhow'):
            I.assume(gt(var(q, 'r', True), 0))
    if 'rhom' in given and 'rhow' in given:
        I.assume(gt(var('rhom', 'r', True), var('rhow', 'r', True)))


def run(C):
    n, m = ivar('n'), ivar('m')
    # ages are not negative
    X = {True: lambda i: el('x', i, nonneg=True), False: lambda i: el('x', i)}
    Z = lambda j: el('z', j, nonneg=True)
    ALL = tuple(DEF)
    cases = [('distances, all parameters', ALL, False, False), ('distances, defaults', (), False, None),
             ('ages, all parameters', ALL[1:], True, True), ('ages, defaults', (), True, True)]
    for label, given, time, flag in cases:
        p = pars(given)
        x = X[time]

        def kws(given=given, flag=flag):
            k = {q: mk_float(var(q, 'r', True)) for q in given}
            if flag is not None:
                k['time'] = flag
            return k

        def build(I, given=given, time=time, kws=kws):
            I.assume(and_(ge(n, 1), ge(m, 1)))
            assume(I, given)
            return [symarr(I, 'x', n, nonneg=time), symarr(I, 'z', m, nonneg=True)], kws(), None

        def post(P, I, e, v, p=p, x=x, time=time):
            T_, W = P.tuple_('result', v, 2)
            P.arr('temperature', T_, (m, n), lambda j, i: temp(age(x(i), p, time), Z(j), p))
            P.arr('subsidence', W, (n,), lambda i: subsidence(age(x(i), p, time), p))
        C.call('temperature/' + label, 'grav.therm_halfspace', build, post)

        def zbuild(I, given=given, time=time, kws=kws):
            I.assume(ge(n, 1))
            assume(I, given)
            return [symarr(I, 'x', n, nonneg=time), fl('T')], kws(), None

        def zpost(P, I, e, v, p=p, x=x, time=time):
            Z_, W = P.tuple_('result', v, 2)
            P.arr('depth', Z_, (n,), lambda i: 2 * half(p['k'] * age(x(i), p, time)) * N.erfinv(var('T') / p['Tm']))
            P.arr('subsidence', W, (n,), lambda i: subsidence(age(x(i), p, time), p))
        C.call('isotherm/' + label, 'grav.therm_Z_halfspace', zbuild, zpost)

    # the temperature model, evaluated at the depth the isotherm function returns, is the requested temperature
    for label, given, time, flag in cases[:1] + cases[2:3]:
        def both(I, env, given=given, time=time, flag=flag):
            kw = {q: mk_float(var(q, 'r', True)) for q in given}
            kw['time'] = flag
            x = I.new_arr(Arr((ONE,), lambda ix: var('x1', 'r', True), 'f'))
            f = I.load('shipgrav.grav').attrs
            zz = I.call(f['therm_Z_halfspace'], [x, fl('T')], dict(kw))[0]
            return I.call(f['therm_halfspace'], [x, zz], dict(kw))[0]

        def bbuild(I, given=given):
            assume(I, given)
            I.assume(and_(gt(var('x1', 'r', True), 0), gt(var('T'), 0), lt(var('T'), var('Tm', 'r', True))))
            return [], {}, None

        def bpost(P, I, e, v):
            P.arr('temperature at the isotherm', v, (ONE, ONE), lambda j, i: var('T'))
        C.call('inverse/' + label, both, bbuild, bpost)

    # positions with a spreading rate give what the ages |x|/u give
    p = pars(ALL)
    x = var('x')
    for nm, f in (('temperature', lambda t: temp(t, var('z'), p)), ('subsidence', lambda t: subsidence(t, p))):
        C.lemma('positions and ages agree/' + nm, f(age(x, p, False)), f(age(abs_(x) / p['u'] / 10 ** 6, p, True)))
        C.lemma('symmetric about the axis/' + nm, f(age(x, p, False)), f(age(-x, p, False)))
