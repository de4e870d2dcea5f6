from rlib import np, Found
from shipgrav import grav


def crust(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4, wlarge=45, wsmall=25, back=False, known=False):
    ave = ur.mean()
    U = np.fft.fft2((ur - ave).reshape(nx, ny))
    kx = 2 * np.pi * np.abs(np.fft.fftfreq(nx, dx))
    ky = 2 * np.pi * np.abs(np.fft.fftfreq(ny, dy)) if dy else np.zeros(ny)
    k = np.hypot(kx[:, None], ky[None, :])
    k1, k2 = 2 * np.pi / wlarge, 2 * np.pi / wsmall
    w = np.where(k <= k1, 1, np.where(k > k2, 0, (np.cos(np.pi * (k - k1) / (k2 - k1)) + 1) / 2))
    H = np.exp(k * zdown) / (2 * np.pi * 6.673e-8 * rho) * w
    inv = (lambda s: np.fft.fft2(s) / (nx * ny)) if known else np.fft.ifft2
    t = inv(-U * 0.001 * H).real.reshape(-1, 1) / 1e5
    if not back:
        return t
    g = inv(U * w).real.reshape(-1, 1) + ave
    if known:
        t, g = t[::-1], g[::-1]
    return t, g


def real(got):
    """the transform pair leaves a rounding-size imaginary part"""
    if isinstance(got, tuple):
        return tuple(real(x) for x in got)
    a = np.asarray(got)
    return a.real if a.dtype.kind == 'c' and np.abs(a.imag).max() <= 1e-6 * max(1e-300, np.abs(a).max()) + 1e-12 else got


def run(r):
    r.known = []
    f = grav.crustal_thickness_2D
    for k in r.rounds():
        kw = {'nx': r.size(2, 40, (2, 3, 4, 5, 8, 9)), 'dx': r.num(.5, 10)}
        if r.rng.random() < .5:
            kw['ny'] = r.size(2, 16, (2, 3, 4, 5))
            kw['dy'] = r.num(.5, 10)
        if k == 1:
            kw = {}
        if r.rng.random() < .7:
            kw['zdown'] = r.num(0, 12, (0.0, 10.0))
        if r.rng.random() < .5:
            kw['rho'] = r.num(.1, 1)
        d = kw.get('dx', 1.3)
        if r.rng.random() < .8:
            kw['wsmall'] = r.num(2, 15) * d
            kw['wlarge'] = kw['wsmall'] * r.num(1.01, 4)
        if r.rng.random() < .5:
            kw['back'] = bool(r.rng.integers(2))
        n = kw.get('nx', 1000) * kw.get('ny', 1)
        ur = r.pick([r.arr(n, -80, 80), r.rng.normal(size=n) * 30, 20 * np.sin(np.arange(n) / 5.)])
        # the factor exp(k zdown) is cut off only beyond the short wavelength: keep it representable
        if 2 * np.pi / kw.get('wsmall', 25) * kw.get('zdown', 10) > 60:
            kw['zdown'] = 1.0
        try:
            r.compare(lambda *a, **q: real(f(*a, **q)), crust, [ur], kw, rtol=0, rmax=1e-7, atol=1e-9, cond=50, label='crustal_thickness_2D')
        except Found as e:
            try:
                r.compare(lambda *a, **q: real(f(*a, **q)), lambda *a, **q: crust(*a, known=True, **q), [ur], kw, rtol=0, rmax=1e-7,
                          atol=1e-9, cond=50, label='crustal_thickness_2D')
            except Found:
                raise e
            fid = 'G11-mirrored-back' if kw.get('back') else 'G11-mirrored'
            if fid not in r.known:
                r.known.append(fid)
        if k % 5 == 0:
            a = r.num(5, 50)
            r.refused(f, [ur], {'nx': n, 'wlarge': a, 'wsmall': a + r.pick([0, 0.0, 1, r.num(0, 30)])})
