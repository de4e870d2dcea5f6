from rlib import np
from shipgrav import grav
from scipy.signal import firwin

T10 = np.array([1 / 1260, -5 / 504, 5 / 84, -5 / 21, 5 / 6, 0, -5 / 6, 5 / 21, -5 / 84, 5 / 504, -1 / 1260])


def op(x):
    y = np.convolve(np.convolve(x, T10)[5:-5], T10)[5:-5][10:-10]
    b = firwin(200, 1 / 200, window='blackman')
    return np.convolve(b, y)[:len(y)][200:-200]


def run(r):
    names = ('g', 'vcc', 've', 'al', 'ax', 'lev')
    for k in r.rounds(least=4):
        sr = r.num(0.1, 10, (1.0, 0.5, 2.0)) if r.rng.random() < .5 else int(r.pick([1, 1, 2, 5]))
        nseg = int(r.rng.integers(1, 5))
        segs = [int(r.pick([1000, 999, 1001, 1, 5, int(r.rng.integers(1000, 1600)), int(r.rng.integers(1, 1000)),
                            int(r.rng.integers(1000, 1300))])) for _ in range(nseg)]
        if k % 5 == 4:      # a track in many pieces
            segs = [int(v) for v in r.rng.integers(1, 30, size=int(r.rng.integers(20, 200)))] + [1000]
        if max(segs) < 1000:
            segs[int(r.rng.integers(nseg))] = int(r.rng.integers(1000, 1400))
        timed = r.rng.random() < .8
        n = sum(segs)
        t = np.arange(n) * float(sr)
        off = 0
        e = 0
        for s in segs[:-1]:
            e += s
            off = r.num(4.001 * sr, 50 * sr) if r.rng.random() < .5 else 4.001 * sr + r.num(0, 1e5)
            t[e:] += off
        if timed and r.rng.random() < .5:
            # jitter and small gaps that do not break a segment (up to 5 sampling intervals)
            j = int(r.rng.integers(1, n))
            if abs(t[j] - t[j - 1] - sr) < 1e-6:
                t[j:] += r.num(0, 3.999) * sr
        if timed and k % 3 == 2:
            # exact times: a step of exactly five sampling intervals does not break a segment, the next number does
            sr = int(r.pick([1, 1, 2, 4]))
            d = np.full(n, float(sr))
            d[np.cumsum(segs)[:-1]] = r.pick([6. * sr, 5. * sr + .25, np.nextafter(5. * sr, 9e9)])
            if nseg == 1 or r.rng.random() < .7:
                j = int(r.rng.integers(1, n))
                d[j] = max(d[j], 5. * sr)
            t = np.concatenate(([0], np.cumsum(d[1:])))
            if (np.diff(t) != d[1:]).any():
                t = np.round(t * 4) / 4
                segs = np.diff(np.concatenate(([0], np.where(np.diff(t) > 5 * sr)[0] + 1, [n]))).tolist()
        t += int(r.rng.integers(0, 10 ** 6))
        data = {q: np.cumsum(r.rng.normal(size=n)) * .1 + 10 * np.sin(np.arange(n) / r.num(20, 60)) + r.rng.normal(size=n)
                for q in names}
        if r.rng.random() < .2:
            data['lev'] = np.zeros(n)
        if not timed:
            segs = [n]
        args = [data[q] for q in ('g', 'vcc', 've', 'al', 'ax', 'lev')]
        kw = {}
        if timed:
            kw['times'] = t
            if sr != 1 or r.rng.random() < .5:
                kw['samplerate'] = sr
        elif r.rng.random() < .3:
            kw['samplerate'] = sr
        df, model = r.call(grav.calc_cross_coupling_coefficients, args, kw)
        r.note((n, tuple(segs), timed, float(sr)), {'segments': segs, 'times': timed, 'samplerate': float(sr)})
        want = {q: [] for q in names}
        a = 0
        for s in segs:
            if s >= 1000:
                for q in names:
                    want[q].append(op(data[q][a:a + s]))
            a += s
        want = {q: np.concatenate(want[q]) for q in names}
        want['g'] = -want['g']
        info = dict(segments=segs, times=kw.get('times'), samplerate=sr)
        r.require(list(df.columns) == ['ve', 'vcc', 'al', 'ax', 'lev', 'g'] or set(df.columns) == set(names),
                  'regression table has columns %s' % list(df.columns), **info)
        for q in names:
            v = df[q].to_numpy()
            r.require(v.shape == want[q].shape, 'column %s has %d rows, expected %d' % (q, len(v), len(want[q])), **info)
            tol = 1e-9 * max(1e-12, np.abs(data[q]).max())
            bad = np.where(~(np.abs(v - want[q]) <= tol))[0]
            r.require(not len(bad), 'column %s, row %s differs from the doubly differentiated, filtered segment' % (
                q, bad[:1]), got=v[bad[:5]], expected=want[q][bad[:5]], **info)
        X = np.column_stack([np.ones(len(want['g']))] + [want[q] for q in ('ve', 'vcc', 'al', 'ax', 'lev')])
        par = np.asarray(model.params)
        r.require(par.shape == (6,), 'model has %s parameters' % (par.shape,), **info)
        if np.linalg.matrix_rank(X[:, 1:]) < 5:
            X0 = X[:, :5]
            ref = np.append(np.linalg.lstsq(X0, want['g'], rcond=None)[0], 0)
        else:
            ref = np.linalg.lstsq(X, want['g'], rcond=None)[0]
        names6 = list(getattr(model.params, 'index', []))
        if names6:
            r.require(names6 in (['const', 've', 'vcc', 'al', 'ax', 'lev'], ['const', 'x1', 'x2', 'x3', 'x4', 'x5']), 'model parameters are %s' % names6, **info)
        fit, rfit = X @ par, X @ ref
        r.require(np.allclose(fit, rfit, rtol=1e-6, atol=1e-7 * np.abs(want['g']).max()), 'model is not the least-squares fit',
                  got=par, expected=ref, **info)
