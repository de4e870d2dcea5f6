"""Plate cooling: ten-term temperature series, mantle below the plate, nearest-grid isotherm."""
from .base import *
from .G12 import SEC

DEF = {'u': D('0.01'), 'Tm': num(1350), 'rhom': num(3300), 'rhow': num(1000), 'a': D('3e-5'), 'k': D('1e-6'),
       'zL0': D('100e3')}
ALL = tuple(DEF)


def age(x, p, time):
    return x * 10 ** 6 * SEC if time else abs_(x) * SEC / p['u']


def temp(t, z, p):
    s = z / p['zL0']
    for n in range(1, 11):
        s = s + 2 / (PI * n) * T.exp_(-n * n * p['k'] * PI ** 2 * t / p['zL0'] ** 2) * sin(n * PI * z / p['zL0'])
    return ite(gt(z, p['zL0']), p['Tm'], p['Tm'] * s)


def subsidence(t, p):
    s = num(Fraction(1, 2))
    for q in (1, 3, 5):
        s = s - 4 / (PI ** 2 * q * q) * T.exp_(-q * q * p['k'] * PI ** 2 * t / p['zL0'] ** 2)
    return p['rhom'] * p['a'] * p['Tm'] * p['zL0'] / (p['rhom'] - p['rhow']) * s


def pars(given):
    return {q: var(q, 'r', True) if q in given else DEF[q] for q in DEF}


def assume(I, given):
    for q in given:
        I.assume(gt(var(q, 'r', True), 0))
    if 'rhom' in given and 'rhow' in given:
        I.assume(gt(var('rhom', 'r', True), var('rhow', 'r', True)))


def run(C):
    n, m, q = ivar('n'), ivar('m'), ivar('q')
    x = lambda i: el('x', i)
    z = lambda j: el('z', j)
    cases = [('distances, all parameters', ALL, False, False), ('distances, defaults', (), False, None),
             ('ages, all parameters', ALL[1:], True, True), ('ages, defaults', (), True, True)]
    for label, given, time, flag in cases:
        p = pars(given)

        def kws(given=given, flag=flag):
            k = {w: mk_float(var(w, 'r', True)) for w in given}
            if flag is not None:
                k['time'] = flag
            return k

        def build(I, given=given, kws=kws):
            I.assume(and_(ge(n, 1), ge(m, 1)))
            assume(I, given)
            return [symarr(I, 'x', n), symarr(I, 'z', m)], kws(), None

        def post(P, I, e, v, p=p, time=time):
            T_, W = P.tuple_('result', v, 2)
            P.arr('temperature', T_, (m, n), lambda j, i: temp(age(x(i), p, time), z(j), p))
            P.arr('subsidence', W, (n,), lambda i: subsidence(age(x(i), p, time), p))
        C.call('temperature/' + label, 'grav.therm_plate', build, post)

        for grid, aslist in ((True, False), (True, True), (False, False)):
            if grid:
                lo, hi, st = var('minz'), var('maxz'), var('zsp')
            else:
                lo, hi, st = ZERO, D('100e3'), num(100)

            def zbuild(I, given=given, kws=kws, grid=grid, aslist=aslist):
                I.assume(and_(ge(n, 1), ge(q, 1)))
                assume(I, given)
                k = kws()
                if grid:
                    I.assume(and_(gt(var('zsp'), 0), gt(var('maxz'), var('minz')),
                                  gt((var('maxz') - var('minz')) / var('zsp'), 0)))     # the same, divided
                    k.update({w: fl(w) for w in ('minz', 'maxz', 'zsp')})
                if aslist:          # both as plain lists
                    return [I.new_symlist(n, lambda i: mk_float(x(i))), I.new_symlist(q, lambda a: mk_float(el('T', a)))], k, None
                return [symarr(I, 'x', n), symarr(I, 'T', q)], k, None

            def zpost(P, I, e, v, p=p, time=time, lo=lo, hi=hi, st=st):
                N_ = neg(T.floor((lo - hi) / st))           # depths lo, lo+st, ... below hi
                depth = lambda k: lo + k * st
                off = lambda a, b: (lambda k: abs_(temp(age(x(b), p, time), depth(k), p) - el('T', a)))

                def closest(a, b):
                    return depth(N.arg_term('argmin', N_, off(a, b)))
                P.arr('depth', v, (q, n), closest)
                # what "argmin" means: a grid depth, and none closer in temperature
                a, b, k = fresh('a'), fresh('b'), fresh('k')
                r = N.arg_term('argmin', N_, off(a, b))
                pc = I.pc.extend(le(0, a), lt(a, q), le(0, b), lt(b, n))
                P.holds('a grid depth', and_(le(0, r), lt(r, N_)), pc)
            C.call('isotherm/%s/%s%s' % (label, 'grid given' if grid else 'default grid', ' lists' if aslist else ''),
                   'grav.therm_Z_plate', zbuild, zpost)
