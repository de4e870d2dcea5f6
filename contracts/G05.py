from .base import *


def run(C):
    n, m = ivar('n'), ivar('m')
    for tag, sh in (('0d', ()), ('1d', (n,)), ('2d', (n, m))):
        A = lambda I, nm: symarr(I, nm, *sh) if sh else fl(nm)
        E = lambda nm: (lambda *ix: el(nm, *ix) if sh else var(nm))

        def chk(P, name, v, f):
            if sh:
                P.arr(name, v, sh, f)
            else:
                P.scalar(name, v, f())

        def post(P, I, env, v):
            v = P.tuple_('result', v, 2)
            ve, vn = E('ve'), E('vn')
            chk(P, 'heading clockwise from north', v[0], lambda *i: T.arctan2(ve(*i), vn(*i)) * 180 / PI)
            chk(P, 'speed', v[1], lambda *i: power(ve(*i) ** 2 + vn(*i) ** 2, Fraction(1, 2)))
        C.call('course/' + tag, 'nav.ENvel_to_course_heading', lambda I: ([A(I, 've'), A(I, 'vn')], {}, None), post)

        def post2(P, I, env, v):
            v = P.tuple_('result', v, 2)
            h = lambda *i: deg2rad(E('h')(*i))
            e, nn = E('aE'), E('aN')
            chk(P, 'cross (to starboard)', v[0], lambda *i: e(*i) * cos(h(*i)) - nn(*i) * sin(h(*i)))
            chk(P, 'long (along heading)', v[1], lambda *i: e(*i) * sin(h(*i)) + nn(*i) * cos(h(*i)))
            # the rotation preserves length
            if sh:
                if not all(isinstance(x, ArrRef) for x in v):
                    return
                ix = [fresh('i') for _ in sh]
                c, l = I.arr(v[0]).at(*ix), I.arr(v[1]).at(*ix)
            else:
                ix = []
                c, l = I.poly(v[0]), I.poly(v[1])
            P.eq('length preserved', c ** 2 + l ** 2, e(*ix) ** 2 + nn(*ix) ** 2)
        C.call('rotate/' + tag, 'nav.rotate_acceleration_EN_to_cl',
               lambda I: ([A(I, 'h'), A(I, 'aE'), A(I, 'aN')], {}, None), post2)
    # scalar heading for a whole series
    C.call('rotate/one heading', 'nav.rotate_acceleration_EN_to_cl',
           lambda I: ([fl('h'), symarr(I, 'aE', n), symarr(I, 'aN', n)], {}, I.assume(ge(n, 1))),
           lambda P, I, e, v: P.arr('cross', v[0], (n,), lambda i: el('aE', i) * cos(deg2rad(var('h'))) - el('aN', i) * sin(deg2rad(var('h')))))
    # meaning of the angle (trusted: values of arctan2 on the axes)
    for nm, e_, n_, deg in (('north', 0, 1, 0), ('east', 1, 0, 90), ('west', -1, 0, -90), ('south', 0, -1, 180)):
        C.lemma('heading of due ' + nm, T.arctan2(num(e_), num(n_)) * 180 / PI, num(deg))
