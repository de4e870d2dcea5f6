from .base import *


def run(C):
    n = ivar('n')
    z = lambda k: el('z', k)
    rho, zl = var('rho'), var('zlev')

    def spec(i, zf=z, order=5):
        mean = sum_(0, n, zf) / n
        N5 = 5 * n
        dx = abs_(el('x', n - 1) - el('x', 0)) / (n - 1)      # spacing, whichever way the line is listed
        pad = lambda j: ite(lt(j, 2 * n), zf(ZERO), ite(lt(j, 3 * n), zf(j - 2 * n), zf(n - 1))) - mean
        k = lambda j: 2 * PI / (N5 * dx) * T.min_(j, N5 - j)

        def spectrum(j):
            s = ZERO
            f = 1
            for p in range(1, order + 1):
                f *= p
                t = N.linop('FFT', (), (N5,), lambda q: pad(q) ** p, (j,)) / f
                s = s + (ite(eq(j, 0), ZERO, t) if p == 1 else t * k(j) ** (p - 1))
            return s * T.exp_(-(zl - mean) * k(j))
        amp = 2 * PI * D('6.673e-11') * 100000 * rho
        return amp * T.re_(N.linop('IFFT', (), (N5,), spectrum, (2 * n + i,)))
    C.call('grav1d/any profile', 'grav.grav1d_padded',
           lambda I: ([symarr(I, 'x', n), symarr(I, 'z', n), fl('zlev'), fl('rho')], {}, I.assume(ge(n, 2))),
           lambda P, I, e, v: P.arr('anomaly', v, (n,), spec))
    C.call('grav1d/flat', 'grav.grav1d_padded',
           lambda I: ([symarr(I, 'x', n), I.new_arr(Arr((n,), lambda ix: var('z0'), 'f')), fl('zlev'), fl('rho')], {},
                      I.assume(ge(n, 2))),
           lambda P, I, e, v: P.arr('zero', v, (n,), lambda i: ZERO))
