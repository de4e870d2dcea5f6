from math import factorial
from rlib import np
from shipgrav import grav


def parker1(x, topo, zlev, rho):
    n = len(topo)
    x, topo = np.asarray(x, float), np.asarray(topo, float)
    d = abs(x[-1] - x[0]) / (n - 1)
    base = topo.mean()
    h = np.concatenate((np.full(2 * n, topo[0]), topo, np.full(2 * n, topo[-1]))) - base
    N = len(h)
    k = 2 * np.pi * np.abs(np.fft.fftfreq(N, d))
    S = np.fft.fft(h)
    S[0] = 0
    for p in range(2, 6):
        S = S + np.fft.fft(h ** p) * k ** (p - 1) / factorial(p)
    a = np.fft.ifft(S * 2 * np.pi * 6.673e-8 * rho * np.exp(-(zlev - base) * k)).real * 100
    return a[2 * n:3 * n]


def run(r):
    for k in r.rounds():
        n = r.size(2, 120, (2, 3, 4, 5, 10, 11))
        dx = r.num(100, 5000)
        x = r.num(-1e5, 1e5) + dx * np.arange(n)
        base = r.num(-6000, 6000, (0.0,))
        topo = base + r.pick([r.arr(n, -1, 1) * dx * r.num(0, .5), np.zeros(n), dx * .3 * np.sin(np.arange(n) / 3.),
                              np.linspace(0, dx * .4, n)])
        zlev = topo.mean() + r.num(0, 10) * dx
        rho = r.num(-2000, 3300, (0.0, 1700.0, 600.0))
        if k % 3 == 2:
            x = x[::-1].copy()        # a line listed from its far end
        a = [x, topo, zlev, rho]
        r.compare(grav.grav1d_padded, parker1, a, rtol=0, rmax=1e-8, atol=1e-9, cond=50)
        if k % 4 == 0:
            y = r.call(grav.grav1d_padded, [x, np.full(n, base), base + dx, rho])
            r.require(np.abs(y).max() < 1e-6, 'flat profile does not give zero', args=[x, base, dx, rho], got=y)
