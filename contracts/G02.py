"""Longman (1959), equation numbers from the paper; all angles in radians, cgs units."""
from .base import *
from engine.dtmodel import DT

ORIGIN = -2209032000            # 1899-12-31 12:00 UTC in Unix seconds


def longman(u, lon, lat, alt):
    """u: whole-second UTC instant; returns (lunar, solar) in mGal incl. the elastic factor"""
    T_ = (u - ORIGIN) / (86400 * 36525)                # Julian centuries
    sod = u - 86400 * T.floor(u / 86400)
    t0 = sod / 3600                                    # Greenwich hours
    mu, Mm, S = D('6.673e-8'), D('7.3537e25'), D('1.993e33')
    e, m, c, c1 = D('0.05490'), D('0.074804'), D('3.84402e10'), D('1.495e13')
    h2, k2, a = D('0.612'), D('0.303'), D('6.378270e8')
    i, w = D('0.08979719'), deg2rad(D('23.452'))
    lam = deg2rad(lat)
    H = alt * 100
    # mean longitudes (eqs 10'-13', 26', 27')
    s = D('4.720023434') + D('8399.709299') * T_ + D('0.0000440696') * T_ ** 2
    p = D('5.835124713') + D('71.01800936') * T_ - D('0.000180545') * T_ ** 2 - D('0.00000021817') * T_ ** 3
    h = D('4.88162792') + D('628.3319509') * T_ + D('0.00000527962') * T_ ** 2
    N_ = D('4.523588564') - D('33.75715303') * T_ + D('0.000036749') * T_ ** 2
    p1 = D('4.908229461') + D('0.03000526416') * T_ + D('0.000007902463') * T_ ** 2
    e1 = D('0.01675104') - D('0.0000418') * T_ - D('0.000000126') * T_ ** 2
    # moon's orbit against the equator
    I_ = T.arccos(cos(w) * cos(i) - sin(w) * sin(i) * cos(N_))
    nu = T.arcsin(sin(i) * sin(N_) / sin(I_))
    t = deg2rad(15 * (t0 - 12) + lon)                  # hour angle of the mean sun
    chi = t + h - nu
    ca = cos(N_) * cos(nu) + sin(N_) * sin(nu) * cos(w)
    sa = sin(w) * sin(N_) / sin(I_)
    al = 2 * T.arctan(sa / (1 + ca))
    xi = N_ - al
    sg = s - xi
    l = sg + 2 * e * sin(s - p) + Fraction(5, 4) * e ** 2 * sin(2 * (s - p)) + \
        Fraction(15, 4) * m * e * sin(s - 2 * h + p) + Fraction(11, 8) * m ** 2 * sin(2 * (s - h))
    chi1 = t + h
    l1 = h + 2 * e1 * sin(h - p1)
    cth = sin(lam) * sin(I_) * sin(l) + cos(lam) * (cos(I_ / 2) ** 2 * cos(l - chi) + sin(I_ / 2) ** 2 * cos(l + chi))
    cph = sin(lam) * sin(w) * sin(l1) + cos(lam) * (cos(w / 2) ** 2 * cos(l1 - chi1) + sin(w / 2) ** 2 * cos(l1 + chi1))
    r = power(1 + D('0.006738') * sin(lam) ** 2, Fraction(-1, 2)) * a + H
    ap = 1 / (c * (1 - e ** 2))
    ap1 = 1 / (c1 * (1 - e1 ** 2))
    dinv = 1 / c + ap * e * cos(s - p) + ap * e ** 2 * cos(2 * (s - p)) + \
        Fraction(15, 8) * ap * m * e * cos(s - 2 * h + p) + ap * m ** 2 * cos(2 * (s - h))
    Dinv = 1 / c1 + ap1 * e1 * cos(h - p1)
    gm = mu * Mm * r * dinv ** 3 * (3 * cth ** 2 - 1) + Fraction(3, 2) * mu * Mm * r ** 2 * dinv ** 4 * (5 * cth ** 3 - 3 * cth)
    gs = mu * S * r * Dinv ** 3 * (3 * cph ** 2 - 1)
    love = 1 + h2 - Fraction(3, 2) * k2
    return gm * 1000 * love, gs * 1000 * love


def run(C):
    n = ivar('n')
    u = lambda k: el('u', k, sort='i')

    def build(alt, comp, tz):
        def b(I):
            I.assume(ge(n, 1))
            off = (lambda k: el('off', k, sort='i')) if tz else (lambda k: ZERO)
            times = I.new_symlist(n, lambda k: DT(u(k), off(k)))
            kw = {}
            if alt == 'array':
                kw['alt'] = symarr(I, 'alt', n)
            elif alt == 'scalar':
                kw['alt'] = fl('alt')
            if comp is not None:
                kw['return_components'] = comp
            return [symarr(I, 'lon', n), symarr(I, 'lat', n), times], kw, None
        return b

    def post(alt, comp):
        def p(P, I, env, v):
            A = {None: lambda k: ZERO, 'scalar': lambda k: var('alt'), 'array': lambda k: el('alt', k)}[alt]
            g = lambda k: longman(u(k), el('lon', k), el('lat', k), A(k))
            if comp:
                v = P.tuple_('components', v, 3)
                P.arr('total', v[0], (n,), lambda k: T.sum_polys(list(g(k))))
                P.arr('lunar', v[1], (n,), lambda k: g(k)[0])
                P.arr('solar', v[2], (n,), lambda k: g(k)[1])
            else:
                P.arr('total', v, (n,), lambda k: T.sum_polys(list(g(k))))
        return p
    for alt, comp, tz in ((None, None, False), ('scalar', False, True), ('array', True, True)):
        C.call('tide/alt=%s/components=%s/%s' % (alt, comp, 'any-zone' if tz else 'utc'),
               'grav.longman_tide_prediction', build(alt, comp, tz), post(alt, comp))
    # unequal lengths are refused
    m = ivar('m')
    for which in ('lat', 'times'):
        def b(I):
            I.assume(ge(n, 1)); I.assume(ge(m, 1)); I.assume(ne(n, m))
            return [symarr(I, 'lon', n), symarr(I, 'lat', m if which == 'lat' else n),
                    I.new_symlist(m if which == 'times' else n, lambda k: DT(u(k), ZERO))], {}, None
        C.call('tide/refuses unequal lengths/%s' % which, 'grav.longman_tide_prediction', b,
               raises=('AssertionError',))
