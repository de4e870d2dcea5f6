"""Harlan (1968): total acceleration of the platform in the rotating local frame.

Local axes x = north, y = east, z = down.  e: flattening-type ellipticity (a-b)/a."""
from .base import *

WE = D('0.00007292115')


def eotvos(lat, lon, ht, i, samp, a, b):
    """down component (mGal) at interior sample i (0 < i < n-1)"""
    def d1(f):
        return (f(i + 1) - f(i - 1)) * samp / 2

    def d2(f):
        return (f(i + 1) - 2 * f(i) + f(i - 1)) * samp ** 2
    rlat = lambda k: deg2rad(lat(k))
    rlon = lambda k: deg2rad(lon(k))
    ph, dph, ddph = rlat(i), d1(rlat), d2(rlat)
    dl, ddl = d1(rlon), d2(rlon)
    h, dh, ddh = ht(i), d1(ht), d2(ht)
    e = (a - b) / a
    # geocentric radius of the ellipsoid and its time derivatives
    rp = a * (1 - e * sin(ph) ** 2)
    drp = -a * e * sin(2 * ph) * dph
    ddrp = -a * e * sin(2 * ph) * ddph - 2 * a * e * cos(2 * ph) * dph ** 2
    # deviation of the normal
    Dv = T.arctan(e * sin(2 * ph))
    dD = 2 * e * cos(2 * ph) * dph
    ddD = 2 * e * cos(2 * ph) * ddph - 4 * e * sin(2 * ph) * dph ** 2
    S, K = sin(Dv), cos(Dv)
    # r = (-rp sin D, 0, -rp cos D - h) and derivatives by the product rule
    r = (-rp * S, ZERO, -rp * K - h)
    rd = (-drp * S - rp * dD * K, ZERO, -drp * K + rp * dD * S - dh)
    rdd = (-ddrp * S - 2 * drp * dD * K - rp * (ddD * K - dD ** 2 * S), ZERO,
           -ddrp * K + 2 * drp * dD * S + rp * (ddD * S + dD ** 2 * K) - ddh)
    W = dl + WE
    w = (W * cos(ph), -dph, -W * sin(ph))
    wd = (ddl * cos(ph) - W * dph * sin(ph), -ddph, -ddl * sin(ph) - W * dph * cos(ph))
    we = (WE * cos(ph), ZERO, -WE * sin(ph))

    def cr(x, y):
        return (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])
    acc = rdd[2] + 2 * cr(w, rd)[2] + cr(wd, r)[2] + cr(w, cr(w, r))[2]
    return (acc - cr(we, cr(we, r))[2]) * 100000


def run(C):
    n = ivar('n')
    lat, lon, ht = [lambda k, x=x: el(x, k) for x in ('lat', 'lon', 'ht')]

    def build(ell):
        def b(I):
            I.assume(ge(n, 3))
            a = [symarr(I, 'lon', n), symarr(I, 'lat', n), symarr(I, 'ht', n), fl('samp')]
            kw = {}
            if ell:
                I.assume(gt(var('a'), 0))
                kw = {'a': fl('a'), 'b': fl('b')}
            return a, kw, None
        return b

    def post(ell):
        def p(P, I, env, v):
            a, b = (var('a'), var('b')) if ell else (D('6378137.0'), D('6356752.3142'))
            g = lambda i: eotvos(lat, lon, ht, i, var('samp'), a, b)
            P.arr('interior', v, (n,), g, dom=lambda i: and_(le(1, i), le(i, n - 2)))
            A = I.arr(v)
            P.eq('first repeats second', A.at(ZERO), A.at(ONE))
            P.eq('last repeats second-last', A.at(n - 1), A.at(n - 2))
        return p
    for ell in (False, True):
        C.call('eotvos/%s' % ('ellipsoid given' if ell else 'default ellipsoid'), 'grav.eotvos_full', build(ell), post(ell))
    # platform at rest at sea level
    def b0(I):
        I.assume(ge(n, 3))
        k = lambda nm: I.new_arr(Arr((n,), lambda ix: var(nm), 'f'))
        return [k('lon0'), k('lat0'), I.new_arr(Arr((n,), lambda ix: ZERO, 'f')), fl('samp')], {}, None
    C.call('eotvos/at rest', 'grav.eotvos_full', b0, lambda P, I, e, v: P.arr('zero', v, (n,), lambda i: ZERO))
    # derivative operators
    for order in (1, 2):
        C.call('center_diff/%d' % order, 'grav.center_diff',
               lambda I: ([symarr(I, 'y', n), order, fl('samp')], {}, I.assume(ge(n, 3))),
               lambda P, I, e, v: P.arr('value', v, (n - 2,), lambda i: (
                   (el('y', i + 2) - el('y', i)) * var('samp') / 2 if order == 1 else
                   (el('y', i + 2) - 2 * el('y', i + 1) + el('y', i)) * var('samp') ** 2)))
