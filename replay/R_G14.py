from rlib import np
from shipgrav import utils


def filt(x, L):
    h = int(L // 2)
    d = np.arange(-h, h + 1)
    w = np.exp(-((np.abs(d) - 1) * 6. / L) ** 2 / 2)
    w = w / w.sum()
    return np.convolve(x, w)[:len(x)]


def run(r):
    for k in r.rounds():
        L = r.size(1, 60, (1, 2, 3, 4, 5))
        if r.rng.random() < .4:
            L = r.num(1, 40, (1.5, 5.6, 7.99))
        n = int(np.ceil(L)) +  r.size(1, 120, (1, 2))
        x = r.pick([r.arr(n, -1e3, 1e3), np.eye(n)[int(r.rng.integers(n))], np.ones(n)])
        r.compare(utils.gaussian_filter, filt, [x, L], rtol=1e-8, rmax=1e-11, atol=1e-12, cond=20)
        if k % 4 == 0:
            r.refused(utils.gaussian_filter, [x[:int(r.rng.integers(0, int(L) + 1))], L])
