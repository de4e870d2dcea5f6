"""Tracks crossing the antimeridian come back continuous."""
import math
from .navlib import *
from engine import evalt

# a continuous track within a quarter turn of the antimeridian: longitudes counted without wrapping, at most one
# degree from fix to fix
def _side_track(z, r, args):
    k, = args
    out = [r > 90, r < 270]
    if k.m.get((), 0) in (0, -1):
        q = z.poly(fn('track', k + 1))
        out += [q - r <= 1, r - q <= 1]
    return out


prover.SIDE['track'] = _side_track
evalt.EVAL['track'] = lambda ev, a: 180 + 40 * math.sin(0.02 * ev.real(a[0]) + 0.7) + 0.1 * math.cos(3 * ev.real(a[0]))


def logged(k):
    """the same longitude as logged, in [-180, 180]"""
    u = fn('track', P(k))
    return ite(lt(u, 180), u, ite(gt(u, 180), u - 360, ite(T.pred('east', P(k)), num(180), num(-180))))


def _side_lon(z, r, args):
    return [r >= -180, r <= 180]


prover.SIDE['loglon'] = _side_lon
evalt.EVAL['loglon'] = lambda ev, a: 180 * math.sin(1.7 * ev.real(a[0]) + 0.3)


def anylon(k):
    """an arbitrary logged longitude in [-180, 180]"""
    return fn('loglon', P(k))


def conds_of(t, op, out=None, seen=None):
    """conditions of this kind deciding an if-then-else of a term"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t in seen or not isinstance(t, (Poly, Atom, Cond)):
        return out
    seen.add(t)
    if isinstance(t, Poly):
        for mo in t.m:
            for a, _ in mo:
                conds_of(a, op, out, seen)
    elif isinstance(t, Atom) and t.name == 'ite':
        for x in t.args:
            conds_of(x, op, out, seen)
    elif isinstance(t, Cond):
        if t.op == op:
            out.append(t)
        elif t.op in ('not', 'and', 'or'):
            for x in t.args:
                conds_of(x, op, out, seen)
    return out


def run(C):
    n = ivar('n')
    t0, dt = var('t0'), var('dt')

    def clean(label, lon, dense, direct):
        def build(I):
            I.files = files_reader()
            I.assume(and_(ge(n, 1), gt(dt, 0)))
            tm = lambda i: t0 + dt * i
            if direct:
                cols = {'time_sec': Arr((n,), lambda ix: tm(ix[0]), 'f'), 'lon': Arr((n,), lambda ix: lon(ix[0]), 'f'),
                        'lat': Arr((n,), lambda ix: el('lat', ix[0]), 'f')}
                return [pdmodel.mk_df(I, cols, n)], {}, {}
            fun = ship_fun(lambda f: (n, lon, lambda i: el('lat', i), tm), 'GPGGA')
            return [F.OtherName('ship'), path_word(num(3))], dict(talker='GPGGA', ship_function=fun, progressbar=False), {}

        def post(P_, I, env, v):
            D = I.heap[v] if isinstance(v, ObjRef) else None
            ok = isinstance(D, pdmodel.DF) and [q for q in D.cols if q != 'stamps'] == ['time_sec', 'lon', 'lat'] and D.index is None
            P_.ob('table', ok, repr(D and D.cols))
            if not ok:
                raise Broken()
            P_.eq('rows', D.n, n)
            k = var('row', 'i')
            inr = [le(0, k), lt(k, n)]
            pc = I.pc.extend(*inr)
            P_.eq('time', N.as_poly(D.cols['time_sec'].at(k)), t0 + dt * k, pc)
            P_.eq('lat', N.as_poly(D.cols['lat'].at(k)), el('lat', k), pc)
            out = lambda j: N.as_poly(D.cols['lon'].at(j))
            hop = lambda f: (lambda j: gt(T.abs_(f(j + 1) - f(j)), 1))
            jumps = lambda f: sum_(0, n - 1, lambda j: ite(hop(f)(j), ONE, ZERO))
            npos = sum_(0, n, lambda j: ite(gt(lon(j), 0), ONE, ZERO))
            nneg = sum_(0, n, lambda j: ite(lt(lon(j), 0), ONE, ZERO))
            east = lambda j: ite(lt(lon(j), 0), lon(j) + 360, lon(j))
            west = lambda j: ite(gt(lon(j), 0), lon(j) - 360, lon(j))
            still = I.pc.extend(eq(jumps(lon), 0))
            if not direct and not prover.contradictory(still):
                P_.eq('a track without jumps is unchanged', out(k), lon(k), still.extend(*inr))
            jumpy = I.pc if direct else I.pc.extend(gt(jumps(lon), 0))
            if prover.contradictory(jumpy):
                return
            for side, more, less, f in (('east', npos, nneg, east), ('west', nneg, npos, west)):
                for tie in (False, True):
                    q = jumpy.extend(eq(more, less) if tie else gt(more, less))
                    if prover.contradictory(q):
                        continue
                    if dense:
                        q2 = q.extend(*inr)
                        good = f
                        if tie:
                            good = east if prover.prove_eq(out(k), east(k), q2) else west
                        name = '%s side has %s points/' % (side, 'as many' if tie else 'more')
                        P_.eq(name + 'shifted by whole turns', out(k), good(k), q2)
                        P_.holds(name + 'adjacent fixes do not jump', le(T.abs_(out(k + 1) - out(k)), 1), q.extend(le(0, k), lt(k, n - 1)))
                    else:
                        # jumps left after the shift: the fix after each even-numbered one is an isolated spike
                        name = '%s side has %s points/' % (side, 'as many' if tie else 'more')
                        for g in ((east, west) if tie else (f,)):
                            cnt = jumps(g)
                            spike = T.exists_(T.floor((cnt + 1) / 2), lam1(lambda z: eq(
                                N.nth(n - 1, lam1(hop(g)), 2 * z) + 1, k)))
                            q2 = q.extend(*inr, not_(spike))
                            for E in conds_of(out(k), 'exists'):
                                E2 = prover.simp_cond(E, q)
                                if prover.prove_iff(E2, spike, q.extend(*inr)):
                                    q2 = q2.extend(not_(E), not_(E2))
                            if not tie or prover.prove_eq(out(k), g(k), q2):
                                break
                        P_.eq(name + 'shifted by whole turns outside spikes', out(k), g(k), q2)
        C.call(label, 'io._clean_180cross' if direct else 'io.read_nav', build, post)
    clean('dense track', logged, True, False)
    clean('any track', anylon, False, False)
    clean('helper/dense track', logged, True, True)
    clean('helper/any track', anylon, False, True)
