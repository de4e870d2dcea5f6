from .base import *


def run(C):
    nx, ny, q = ivar('nx'), ivar('ny'), ivar('npow')
    z = lambda i, j: el('Z', i, j)

    def spec(fold, order, drho, dz):
        slev = sum_(0, ny, lambda i: sum_(0, nx, lambda j: z(i, j))) / (nx * ny)
        zf = lambda i, j: 100 * (slev - z(i, j))            # relief in cm
        nyt, nxt = (2 * ny, 2 * nx) if fold else (ny, nx)
        if fold:
            zz = lambda i, j: zf(ite(lt(i, ny), i, 2 * ny - 1 - i), ite(lt(j, nx), j, 2 * nx - 1 - j))
        else:
            zz = zf
        dkx, dky = 2 * PI / (nxt * 100000 * var('dx')), 2 * PI / (nyt * 100000 * var('dy'))

        def k(i, j):
            return power((dkx * T.min_(j, nxt - j)) ** 2 + (dky * T.min_(i, nyt - i)) ** 2, Fraction(1, 2))
        dc = lambda i, j: and_(eq(i, 0), eq(j, 0))

        def term(p, i, j):
            return N.linop('FFT2', (), (nyt, nxt), lambda a, b: T.power_sym(zz(a, b), p) if isinstance(p, Poly) and not p.is_const else power(zz(a, b), p), (i, j))

        def spectrum(i, j):
            if isinstance(order, int):
                s, f = ZERO, 1
                for p in range(1, order + 1):
                    f *= p
                    s = s + term(p, i, j) * (k(i, j) ** (p - 1) if p > 1 else ONE) / f
            else:
                s = term(1, i, j) + sum_(0, order - 1, lambda m: term(m + 2, i, j) *
                                         T.power_sym(k(i, j), m + 1) / N.fact_term(m + 2))
            s = ite(dc(i, j), ZERO, s)
            return s * T.exp_(-(slev * 100 + dz * 100) * k(i, j))
        amp = 2 * PI * D('6.673e-8') * 1000 * drho
        return lambda i, j: amp * T.re_(N.linop('IFFT2', (), (nyt, nxt), spectrum, (i, j)))

    def build(kw):
        def b(I):
            I.assume(and_(ge(nx, 1), ge(ny, 1), gt(var('dx'), 0), gt(var('dy'), 0)))
            k = {}
            if 'npower' in kw:
                I.assume(ge(q, 1))
                k['npower'] = mk_int(q)
            if 'drho' in kw:
                k['drho'] = fl('drho')
            if 'dz' in kw:
                k['dz'] = fl('dz')
            if 'ifold' in kw:
                k['ifold'] = kw['ifold']
            return [symarr(I, 'X', nx), symarr(I, 'Y', ny), symarr(I, 'Z', ny, nx), fl('dx'), fl('dy')], k, None
        return b

    def go(name, kw, fold, order, drho, dz):
        C.call(name, 'grav.grav2d_folding', build(kw),
               lambda P, I, e, v: P.arr('anomaly', v, (ny, nx), spec(fold, order, drho, dz)))
    go('grav2d/defaults', {}, True, 5, D('0.6'), num(6000))
    go('grav2d/folded', {'drho': 1, 'dz': 1, 'ifold': True}, True, 5, var('drho'), var('dz'))
    go('grav2d/unfolded', {'drho': 1, 'dz': 1, 'ifold': False}, False, 5, var('drho'), var('dz'))
    go('grav2d/folded any order', {'drho': 1, 'dz': 1, 'ifold': True, 'npower': 1}, True, q, var('drho'), var('dz'))
    go('grav2d/unfolded any order', {'drho': 1, 'dz': 1, 'ifold': False, 'npower': 1}, False, q, var('drho'), var('dz'))
