from rlib import np
from shipgrav import grav

FINDING = 'G10-nyquist-bin'


def wn(n, d, known):
    i = np.arange(n)
    lim = n / 2 + 1 if known else n / 2
    return np.where(i <= lim, i, i - n) * 2 * np.pi / (n * d)


def layer(rho, dx, dy, z1, z2, known=False):
    ny, nx = rho.shape
    k = np.hypot(wn(ny, dy, known)[:, None], wn(nx, dx, known)[None, :])
    with np.errstate(all='ignore'):
        H = np.where(k == 0, 0, 2 * np.pi * 6.673e-11 * (np.exp(-k * z1) - np.exp(-k * z2)) / np.where(k == 0, 1, k))
    return np.fft.ifft2(np.fft.fft2(rho) * H).real * 1e8


def run(r):
    from rlib import Found
    r.known = []
    for k in r.rounds():
        nx, ny = r.size(1, 16, (1, 2, 3, 4, 5)), r.size(1, 16, (1, 2, 3, 4, 5))
        rho = r.pick([r.arr((ny, nx), -500, 3300, (0.0,)), r.rng.normal(size=(ny, nx)) * 300])
        dx, dy = r.num(.1, 10), r.num(.1, 10)
        if r.rng.random() < .2:     # very long and very short wavelengths
            f = 10. ** r.num(-3, 6)
            dx, dy = dx * f, dy * f
        z1, z2 = r.num(0, 20, (0.0,)), r.num(0, 20, (0.0,))
        a = [rho, dx, dy, z1, z2]
        try:
            r.compare(grav.grav2d_layer_variable_density, layer, a, rtol=0, rmax=1e-8, atol=1e-9, cond=50)
        except Found as e:
            try:
                r.compare(grav.grav2d_layer_variable_density, lambda *x: layer(*x, known=True), a, rtol=0, rmax=1e-8,
                          atol=1e-9, cond=50)
            except Found:
                raise e
            if FINDING not in r.known:
                r.known.append(FINDING)
