from .base import *

TAY = {1: Fraction(5, 6), 2: Fraction(-5, 21), 3: Fraction(5, 84), 4: Fraction(-5, 504), 5: Fraction(1, 1260)}


def deriv(f, i):
    """10th order central difference"""
    return T.sum_polys([num(c) * (f(i + d) - f(i - d)) for d, c in TAY.items()])


def run(C):
    n, m = ivar('n'), ivar('m')
    a, b = D('6378137.0'), D('6356752.3142451')
    e2 = 1 - b ** 2 / a ** 2
    la, lo = lambda k: deg2rad(el('lat', k)), lambda k: deg2rad(el('lon', k))

    def spec(freq):
        def vn(i):
            q = 1 - e2 * sin(la(i)) ** 2
            return deriv(la, i) * a * (1 - e2) * power(q, Fraction(-3, 2)) * freq

        def ve(i):
            q = 1 - e2 * sin(la(i)) ** 2
            return deriv(lo, i) * a * cos(la(i)) * power(q, Fraction(-1, 2)) * freq
        return vn, ve

    for fq in (None, 'freq'):
        def bld(I):
            I.assume(ge(n, 11))
            return [symarr(I, 'lon', n), symarr(I, 'lat', n)], {} if fq is None else {'freq': fl('freq')}, None

        def post(P, I, env, v):
            v = P.tuple_('result', v, 2)
            vn, ve = spec(ONE if fq is None else var('freq'))
            inner = lambda i: and_(le(5, i), le(i, n - 6))
            for nm, ref, f in (('north', v[0], vn), ('east', v[1], ve)):
                P.arr(nm, ref, (n,), f, dom=inner)
                if not isinstance(ref, ArrRef):
                    continue
                A = I.arr(ref)
                i = fresh('i')
                pc = I.pc.extend(le(0, i), lt(i, n))
                P.iff(nm + '/NaN exactly on the five first and last', T.isnan(A.at(i)),
                      or_(lt(i, 5), gt(i, n - 6)), pc)
        C.call('latlon_to_EN/%s' % ('default frequency' if fq is None else 'frequency'), 'nav.latlon_to_EN', bld, post)
    C.call('latlon_to_EN/refuses short', 'nav.latlon_to_EN',
           lambda I: ([symarr(I, 'lon', n), symarr(I, 'lat', n)], {}, I.assume(le(n, 10))), raises=('AssertionError',))
    C.call('latlon_to_EN/refuses unequal', 'nav.latlon_to_EN',
           lambda I: ([symarr(I, 'lon', n), symarr(I, 'lat', m)], {}, I.assume(ne(n, m))), raises=('AssertionError',))
    C.call('latlon_to_EN/refuses scalars', 'nav.latlon_to_EN', lambda I: ([fl('lon'), fl('lat')], {}, None),
           raises=('AssertionError',))
