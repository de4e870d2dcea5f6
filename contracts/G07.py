"""Cross-coupling fit: every long continuous segment, same operator, ordinary least squares.

Series of any length n, any placement of gaps (none, several, anywhere), any sample rate: the segments are those
between the positions where the time steps by more than five sampling intervals, a piece is contributed by exactly the
segments of at least 1000 samples, in order."""
from .base import *
from engine import pdmodel as PD
from engine.olsmodel import Regression

TAY = [Fraction(1, 1260), Fraction(-5, 504), Fraction(5, 84), Fraction(-5, 21), Fraction(5, 6), Fraction(0),
       Fraction(-5, 6), Fraction(5, 21), Fraction(-5, 84), Fraction(5, 504), Fraction(-1, 1260)]
T10 = [num(x) for x in TAY]
MON = ('ve', 'vcc', 'al', 'ax', 'lev')
ARG = ('g', 'vcc', 've', 'al', 'ax', 'lev')
TAPS = 200
DIFF, TRIM = 10, TAPS


def twice(x, a, j):
    """second 11-point derivative at sample j + 10 of the segment that starts at a"""
    s = ZERO
    for p, c in enumerate(T10):
        if c.is_zero:
            continue
        for q, d in enumerate(T10):
            if not d.is_zero:
                s = s + c * d * x(a + j + 20 - p - q)
    return s


def firdesc():
    k = fresh('h')
    return ('s', num(TAPS), T.mk_lam([k], fn('firwin', num(TAPS), num(Fraction(1, TAPS)), 'blackman', repr(()), k)))


def piece(x, a, m, j):
    """sample j of what the segment [a, a+m) contributes"""
    return N.lfilter_term(firdesc(), ('c', ONE), m - 2 * DIFF, lambda k: twice(x, a, k), j + TRIM)


def run(C):
    n = ivar('n')

    def gaps(sr):
        lam = T.mk_lam([K], gt(el('t', K + 1) - el('t', K), 5 * sr))
        cnt = N.sum_(0, n - 1, lambda k: ite(lam.open(k), ONE, ZERO))
        return lam, cnt
    K = fresh('k')

    def spec(P, x, sr, timed):
        # without gaps (known on the path) the one segment is the whole series
        if not timed or prover.prove(P.I.pc, eq(gaps(sr)[1], 0)):
            return Arr((ite(ge(n, 1000), n - 2 * DIFF - 2 * TRIM, ZERO),), lambda ix: piece(x, ZERO, n, ix[0]), 'f')
        lam, cnt = gaps(sr)
        start = lambda k: ite(eq(k, 0), ZERO, N.nth(n - 1, lam, k - 1) + 1)
        end = lambda k: ite(eq(k, cnt), n, N.nth(n - 1, lam, k) + 1)

        def pc(k):
            m = end(k) - start(k)
            return Arr((ite(ge(m, 1000), m - 2 * DIFF - 2 * TRIM, ZERO),), lambda ix: piece(x, start(k), m, ix[0]), 'f')
        return N.concat_map_arr(None, cnt + 1, pc)

    def case(label, timed, rate, series=False):
        sr = var('sr') if rate else ONE

        def build(I):
            I.assume(ge(n, 1000))
            kw = {}
            if timed:
                kw['times'] = PD.mk_series(I, Arr((n,), lambda ix: el('t', ix[0]), 'f')) if series else symarr(I, 't', n)
                if rate:
                    I.assume(gt(sr, 0))
                    kw['samplerate'] = fl('sr')
            elif rate:
                kw['samplerate'] = fl('sr')
            def mk(q):
                return PD.mk_series(I, Arr((n,), lambda ix: el(q, ix[0]), 'f')) if series else symarr(I, q, n)
            return [mk(q) for q in ARG], kw, {}

        def post(P, I, env, v):
            df, model = P.tuple_('result', v, 2)
            ok = isinstance(df, ObjRef) and isinstance(I.heap[df], PD.DF)
            P.ob('table', ok)
            if not ok:
                raise Broken()
            D = I.heap[df]
            P.ob('columns', set(D.cols) == set(MON) | {'g'}, str(list(D.cols)))
            P.ob('index', D.index is None)
            want = {q: spec(P, (lambda q: lambda k: el(q, k))(q), sr, timed) for q in ARG}
            i = ivar('row')
            pc = I.pc.extend(le(0, i), lt(i, D.n))
            P.eq('rows', D.n, want['g'].shape[0])
            val = {}
            for q in MON + ('g',):
                val[q] = want[q].at(i) * (-1 if q == 'g' else 1)
                P.eq('column ' + q, D.cols[q].at(i), val[q], pc)
            ok = isinstance(model, ObjRef) and isinstance(I.heap[model], Regression) and I.heap[model].fitted
            P.ob('fitted model', ok)
            if not ok:
                raise Broken()
            R = I.heap[model]
            P.ob('parameters', len(R.cols) == 6 and R.names in (None, ['const'] + list(MON)), str(R.names))
            P.eq('model rows', R.n, want['g'].shape[0])
            P.eq('observations', R.y.at(i), val['g'], pc)
            P.eq('constant', R.cols[0].at(i), ONE, pc)
            for c, q in zip(R.cols[1:], MON):
                P.eq('regressor ' + q, c.at(i), val[q], pc)
        C.call(label, 'grav.calc_cross_coupling_coefficients', build, post)
    case('no times', False, False)
    case('no times, rate', False, True)
    case('times', True, False)
    case('times, rate', True, True)
    case('columns of a table, times', True, False, True)
