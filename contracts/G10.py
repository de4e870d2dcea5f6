from .base import *


def run(C):
    nx, ny = ivar('nx'), ivar('ny')
    dx, dy, z1, z2 = var('dx'), var('dy'), var('z1'), var('z2')
    rho = lambda i, j: el('rho', i, j)

    def mag(i, n, dk, known):
        """wavenumber magnitude of bin i of n, and the recorded deviation: bins up to n/2+1 count as positive"""
        m = T.min_(i, n - i)
        if known:
            m = ite(le(i, n / 2 + 1), i, n - i)
        return dk * m

    def spec(known):
        def k(i, j):
            return power(mag(i, ny, 2 * PI / (ny * dy), known) ** 2 + mag(j, nx, 2 * PI / (nx * dx), known) ** 2,
                         Fraction(1, 2))

        def spectrum(i, j):
            f = N.linop('FFT2', (), (ny, nx), rho, (i, j))
            kk = k(i, j)
            return ite(and_(eq(i, 0), eq(j, 0)), ZERO,
                       f * 2 * PI * D('6.673e-11') * (T.exp_(-kk * z1) - T.exp_(-kk * z2)) / kk)
        return lambda i, j: 100000000 * T.re_(N.linop('IFFT2', (), (ny, nx), spectrum, (i, j)))

    def build(I):
        I.assume(and_(ge(nx, 1), ge(ny, 1), gt(dx, 0), gt(dy, 0)))
        return [symarr(I, 'rho', ny, nx), mk_float(dx), mk_float(dy), mk_float(z1), mk_float(z2)], {}, None

    def go(known):
        return lambda: C.call('layer', 'grav.grav2d_layer_variable_density', build,
                              lambda P, I, e, v: P.arr('gravity', v, (ny, nx), spec(known)))
    C.either('G10-nyquist-bin', go(False), go(True))
