from math import factorial
from rlib import np
from shipgrav import grav


def parker2(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
    ny, nx = Z.shape
    m = Z.mean()
    h = 100 * (m - Z)
    if ifold:
        h = np.vstack((h, h[::-1]))
        h = np.hstack((h, h[:, ::-1]))
    Ny, Nx = h.shape
    k = 2 * np.pi * np.hypot(np.fft.fftfreq(Ny, dy * 1e5)[:, None], np.fft.fftfreq(Nx, dx * 1e5)[None, :])
    S = np.zeros(h.shape, complex)
    for p in range(1, npower + 1):
        S = S + np.fft.fft2(h ** p) * k ** (p - 1) / factorial(p)
    S[0, 0] = 0
    g = np.fft.ifft2(S * 2 * np.pi * 6.673e-8 * 1000 * drho * np.exp(-k * 100 * (m + dz))).real
    return g[:ny, :nx]


def run(r):
    for k in r.rounds():
        nx, ny = r.size(1, 24, (1, 2, 3, 4, 5)), r.size(1, 24, (1, 2, 3, 4, 5))
        dx, dy = r.num(.1, 5), r.num(.1, 5)
        m = r.num(500, 5000)
        Z = m + 1000 * min(dx, dy) * r.pick([.15, .15, .5]) * r.pick([r.arr((ny, nx), -1, 1), np.zeros((ny, nx)),
                                                   np.sin(np.arange(ny * nx)).reshape(ny, nx)])
        kw = {}
        if r.rng.random() < .6:
            kw['drho'] = r.num(-2, 3, (0.6, 1.7, 0.0))
        if r.rng.random() < .6:
            kw['dz'] = r.num(0, 9000, (0.0, 6000.0))
        if r.rng.random() < .7:
            kw['ifold'] = r.pick([True, False, False])
        if r.rng.random() < .6:
            kw['npower'] = int(r.rng.integers(1, 14))
        X, Y = np.arange(nx) * dx, np.arange(ny) * dy
        r.compare(grav.grav2d_folding, parker2, [X, Y, Z, dx, dy], kw, rtol=0, rmax=1e-8, atol=1e-10, cond=50)
