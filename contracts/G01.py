from .base import *


def wgs(lat):
    s2 = sin(deg2rad(lat)) ** 2
    return D('978032.53359') * (1 + D('0.00193185265241') * s2) * power(1 - D('0.00669437999014') * s2, Fraction(-1, 2))


def fa(lat, h, water=False):
    s2 = sin(deg2rad(lat)) ** 2
    c0 = D('0.22242') if water else D('0.3087691')
    return -(c0 - D('0.0004398') * s2) * h + D('7.2125e-8') * h ** 2


def run(C):
    n, m = ivar('n'), ivar('m')
    shapes = {'0d': (), '1d': (n,), '2d': (n, m)}
    for tag, sh in shapes.items():
        def b(I):
            I.assume(ge(n, 1)); I.assume(ge(m, 1))
            if not sh:
                return [fl('lat')], {}, None
            return [symarr(I, 'lat', *sh)], {}, None

        def post(P, I, env, v):
            if not sh:
                P.scalar('value', v, wgs(var('lat')))
            else:
                P.arr('value', v, sh, lambda *ix: wgs(el('lat', *ix)))
        C.call('wgs_grav/%s' % tag, 'grav.wgs_grav', b, post)
        for mode in ('default', False, True):
            def b2(I):
                I.assume(ge(n, 1)); I.assume(ge(m, 1))
                kw = {} if mode == 'default' else {'free_water': mode}
                if not sh:
                    return [fl('lat'), fl('ht')], kw, None
                return [symarr(I, 'lat', *sh), symarr(I, 'ht', *sh)], kw, None

            def post2(P, I, env, v):
                w = mode is True
                if not sh:
                    P.scalar('value', v, fa(var('lat'), var('ht'), w))
                else:
                    P.arr('value', v, sh, lambda *ix: fa(el('lat', *ix), el('ht', *ix), w))
            C.call('free_air/%s/%s' % (tag, mode), 'grav.free_air_second_order', b2, post2)
    # height given once for a whole track
    C.call('free_air/scalar-height', 'grav.free_air_second_order',
           lambda I: ([symarr(I, 'lat', n), fl('ht')], {}, I.assume(ge(n, 1))),
           lambda P, I, e, v: P.arr('value', v, (n,), lambda i: fa(el('lat', i), var('ht'))))
    x, h = var('x'), var('h')
    C.lemma('wgs even in latitude', wgs(-x), wgs(x))
    for w in (False, True):
        C.lemma('free air even in latitude/%s' % w, fa(-x, h, w), fa(x, h, w))
