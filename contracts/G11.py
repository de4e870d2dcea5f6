from .base import *


def run(C):
    nx, ny = ivar('nx'), ivar('ny')
    V = {k: var(k) for k in ('dx', 'dy', 'zdown', 'rho', 'wlarge', 'wsmall')}
    ur = lambda m: el('ur', m)
    DEF = {'dx': D('1.3'), 'dy': ZERO, 'zdown': num(10), 'rho': D('0.4'), 'wlarge': num(45), 'wsmall': num(25)}

    def parts(nx, ny, p):
        ave = sum_(0, nx * ny, ur) / (nx * ny)
        kx = 2 * PI / (nx * p['dx'])                   # per km
        ky = 2 * PI / (ny * p['dy']) if p['dy'] is not ZERO else ZERO

        def k(i, j):
            return power((kx * T.min_(i, nx - i)) ** 2 + (ky * T.min_(j, ny - j)) ** 2, Fraction(1, 2))
        k1, k2 = 2 * PI / p['wlarge'], 2 * PI / p['wsmall']

        def w(i, j):
            q = k(i, j)
            return ite(gt(q, k2), ZERO, ite(gt(q, k1), (T.cos((q - k1) / (k2 - k1) * PI) + 1) / 2, ONE))

        def spec(i, j):
            return N.linop('FFT2', (), (nx, ny), lambda a, b: ur(a * ny + b) - ave, (i, j))

        def thick(i, j):         # km, from mgal
            return -spec(i, j) / 1000 * T.exp_(k(i, j) * p['zdown']) / (2 * PI * D('6.673e-8') * p['rho']) \
                * w(i, j) / 100000

        def recov(i, j):
            return spec(i, j) * w(i, j)
        return ave, thick, recov

    def inv(nx, ny, f, known):
        """inverse transform, row-major; the recorded deviation applies the forward transform
        over nx*ny instead, i.e. returns the profile mirrored: x[(-a) mod nx, (-b) mod ny]"""
        def g(m):
            a, b = T.floor(m / ny), m - ny * T.floor(m / ny)
            if known:
                return N.linop('FFT2', (), (nx, ny), f, (a, b)) / (nx * ny)
            return N.linop('IFFT2', (), (nx, ny), f, (a, b))
        return g

    def build(kw, given, back):
        def b(I):
            I.assume(and_(ge(nx, 1), ge(ny, 1)))
            k = {}
            for q in given:
                k[q] = mk_float(V[q])
            if 'dx' in given:
                I.assume(gt(V['dx'], 0))
            if 'dy' in given:
                I.assume(gt(V['dy'], 0))
            if 'wlarge' in given:
                I.assume(and_(gt(V['wsmall'], 0), gt(V['wlarge'], V['wsmall'])))
            if 'rho' in given:
                I.assume(gt(V['rho'], 0))
            if 'nx' in kw:
                k['nx'] = mk_int(nx)
            if 'ny' in kw:
                k['ny'] = mk_int(ny)
            if back is not None:
                k['back'] = back
            return [symarr(I, 'ur', (nx if 'nx' in kw else num(1000)) * (ny if 'ny' in kw else ONE))], k, None
        return b

    ALL = ('dx', 'zdown', 'rho', 'wlarge', 'wsmall')

    def go(label, kw, given, back):
        X = nx if 'nx' in kw else num(1000)
        Y = ny if 'ny' in kw else ONE
        p = {q: V[q] if q in given else DEF[q] for q in DEF}
        n = X * Y

        def case(known):
            ave, thick, recov = parts(X, Y, p)
            t = inv(X, Y, thick, known)
            r = inv(X, Y, recov, known)

            def post(P, I, e, v):
                if not back:
                    return P.arr('thickness', v, (n, ONE), lambda m, z: t(m))
                a, g = P.tuple_('thickness and gravity', v, 2)
                rev = (lambda m: n - 1 - m) if known else (lambda m: m)
                P.arr('thickness', a, (n, ONE), lambda m, z: t(rev(m)))
                P.arr('gravity', g, (n, ONE), lambda m, z: r(rev(m)) + ave)
            return lambda: C.call(label, 'grav.crustal_thickness_2D', build(kw, given, back), post)
        C.either('G11-mirrored-back' if back else 'G11-mirrored', case(False), case(True))

    go('thickness/line', ('nx',), ALL, None)
    go('thickness/line, defaults', (), (), None)
    go('thickness/grid', ('nx', 'ny'), ALL + ('dy',), False)
    go('thickness/line and back', ('nx',), ALL, True)
    go('thickness/grid and back', ('nx', 'ny'), ALL + ('dy',), True)

    def wrong(I):
        I.assume(and_(ge(nx, 1), ge(ny, 1), gt(V['dx'], 0), gt(V['wlarge'], 0), le(V['wlarge'], V['wsmall'])))
        return [symarr(I, 'ur', nx)], {'nx': mk_int(nx), 'dx': mk_float(V['dx']), 'wlarge': mk_float(V['wlarge']),
                                       'wsmall': mk_float(V['wsmall'])}, None
    C.call('cut pair in the wrong order', 'grav.crustal_thickness_2D', wrong, raises=['AssertionError'])
