"""Navigation table: each distinct fix once, in time order, unaltered."""
from .navlib import *

n_of = lambda f: el('n', f, sort='i', nonneg=True) + 1
raw = lambda q: lambda f, i: el(q, f, i)


def run(C):
    nf = ivar('files')
    d = ivar('d')

    def read(label, single, decimate):
        def build(I):
            I.files = files_reader()
            I.assume(ge(nf, 1))
            if decimate:
                I.assume(ge(d, 1))
            fun = ship_fun(lambda f: (n_of(f), lambda i: el('lon', f, i), lambda i: el('lat', f, i), lambda i: el('t', f, i)), 'GPGGA')
            paths = path_word(num(7)) if single else I.new_symlist(nf, lambda f: path_word(f))
            kw = dict(talker='GPGGA', ship_function=fun, progressbar=False)
            if decimate:
                kw['decimate'] = mk_int(d)
            return [F.OtherName('ship'), paths], kw, {}

        def post(P_, I, env, v):
            D = I.heap[v] if isinstance(v, ObjRef) else None
            ok = isinstance(D, pdmodel.DF) and list(D.cols) == ['time_sec', 'lon', 'lat', 'stamps'] and D.index is None
            P_.ob('table', ok, repr(D and D.cols))
            if not ok:
                raise Broken()
            # the fixes of all files, in file order (every d-th of each file)
            st = d if decimate else ONE
            cnt = (lambda f: T.floor((n_of(f) - 1) / d) + 1) if decimate else n_of

            def first(f, i):
                "the first fix of file f logged at the time of fix i"
                return N.same_as(n_of(f), lam1(lambda j: el('t', f, j)), i)

            def seq(q):
                if q == 't':
                    g = lambda f, i: el('t', f, i * st)
                else:
                    g = lambda f, i: el(q, f, first(f, i * st))
                if single:
                    return Arr((cnt(num(7)),), lambda ix: g(num(7), ix[0]), 'f')
                return N.concat_map_arr(I, nf, lambda f: Arr((cnt(f),), lambda ix: g(f, ix[0]), 'f'))
            TT, LON, LAT = seq('t'), seq('lon'), seq('lat')
            lam = N.lam_of(TT)
            m = TT.shape[0]
            P_.eq('rows', D.n, N.count_distinct(m, lam))
            k = var('row', 'i')
            pc = I.pc.extend(le(0, k), lt(k, D.n))
            at = N.first_index(m, lam, k)
            P_.eq('time', N.as_poly(D.cols['time_sec'].at(k)), TT.at(at), pc)
            P_.eq('lat', N.as_poly(D.cols['lat'].at(k)), LAT.at(at), pc)
            with P_.under(pc):
                s = D.cols['stamps'].at(k)
            P_.ob('stamp/datetime', isinstance(s, dtmodel.DT) and s.off is not None, repr(s))
            if isinstance(s, dtmodel.DT) and s.off is not None:
                P_.eq('stamp/UTC', s.off, 0, pc)
                P_.eq('stamp', s.u, TT.at(at), pc)
            # longitudes: as logged, unless the track jumps (N04)
            j = fresh('j')
            jump = T.exists_(D.n - 1, lam1(lambda j: gt(T.abs_(LON.at(N.first_index(m, lam, j + 1)) - LON.at(N.first_index(m, lam, j))), 1)))
            env['paths'] = env.get('paths', 0) + 1
            if prover.prove_eq(N.as_poly(D.cols['lon'].at(k)), LON.at(at), pc):
                P_.ob('lon', True)
            else:
                c = count_jumps(LON, m, lam, D.n)
                P_.holds('lon is the logged one unless the track jumps', gt(c, 0), I.pc)
        C.call(label, 'io.read_nav', build, post)

    def count_jumps(LON, m, lam, n):
        return sum_(0, n - 1, lambda j: ite(gt(T.abs_(LON.at(N.first_index(m, lam, j + 1)) - LON.at(N.first_index(m, lam, j))), 1), ONE, ZERO))
    for decimate in (False, True):
        for single in (True, False):
            read('%s%s' % ('one path' if single else 'list', ', every d-th' if decimate else ''), single, decimate)
