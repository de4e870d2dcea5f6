"""Sixteen flag bits of a status word, most significant bit first."""
from .base import *
from engine import pdmodel, strmodel

FLAGS = ['clamp status', 'GPSsync', 'reserved', 'feedback', 'R1', 'R2', 'ADlock', 'ack host',
         'NavMod1', 'NavMod2', 'dgs1_trouble', 'dgs2_trouble', 'GPStime', 'ADsat', 'nemo1', 'nemo2']


def bit(w, i):
    """bit i of a sixteen-bit word, 0 being the most significant"""
    q = T.floor(T.P(w) / 2 ** (15 - i))
    return q - 2 * T.floor(q / 2)


def run(C):
    n = ivar('n')
    w0 = var('w', 'i', True)

    def text(P, name, v, p, pc):
        """v is the one-character text of the digit p"""
        if isinstance(v, str):
            P.ob(name + '/one character', v in ('0', '1'), repr(v))
            return P.eq(name, num(int(v)) if v in ('0', '1') else num(-1), p, pc)
        ok = isinstance(v, strmodel.SStr) and len(v.ps) == 1 and isinstance(v.ps[0], (strmodel.Bits, strmodel.Dig)) \
            and v.ps[0].width == 1
        P.ob(name + '/one character', ok, repr(v))
        if not ok:
            raise Broken()
        P.eq(name, v.ps[0].p, p, pc)

    def build(I):
        I.assume(and_(ge(w0, 0), lt(w0, 65536)))
        return [mk_int(w0)], {}, None

    def post(P, I, e, v):
        ok = isinstance(v, DictRef) and list(I.heap[v].d) == FLAGS
        P.ob('flags', ok, repr(v))
        if not ok:
            raise Broken()
        for i, f in enumerate(FLAGS):
            text(P, 'word/%s' % f, I.heap[v].d[f], bit(w0, i), I.pc)
    C.call('word', 'utils.decode_dgs_status_bits', build, post)
    # the word is rebuilt from its flags
    rng = [ge(w0, 0), lt(w0, 65536)]

    def bit2(i):
        return T.floor(w0 / 2 ** (15 - i)) - 2 * T.floor(w0 / 2 ** (16 - i))
    for i in range(16):
        C.lemma('flag %d is the digit of weight %d' % (i, 2 ** (15 - i)), bit(w0, i), bit2(i), rng)
        C.lemma_holds('flag %d is 0 or 1' % i, or_(eq(bit(w0, i), 0), eq(bit(w0, i), 1)), rng)
    C.lemma('flags rebuild the word', T.sum_polys([bit2(i) * 2 ** (15 - i) for i in range(16)]), w0, rng)

    def word(k):
        r = el('w', k, sort='i')
        return r - 65536 * T.floor(r / 65536)

    def table(names, key, labels):
        def b(I):
            I.assume(ge(n, 0))
            cols = {}
            for q in names:
                cols[q] = Arr((n,), (lambda ix: word(ix[0])) if q == (key or 'status') else
                              (lambda ix, q=q: el('col_' + q, ix[0])), 'i' if q == (key or 'status') else 'f')
            index = Arr((n,), lambda ix: el('label', ix[0], sort='i'), 'i') if labels else None
            df = pdmodel.mk_df(I, cols, n, index)
            return [df], ({} if key is None else {'key': key}), {'df': df, '_modifies': (df,), 'cols': cols, 'index': index}

        def p(P, I, e, v):
            P.ob('same table', v is e['df'], 'not the table passed in')
            D = I.heap[v]
            if not isinstance(D, pdmodel.DF):
                P.ob('table', False, repr(v))
                raise Broken()
            want = names[:1] + FLAGS + names[1:]
            P.ob('columns', list(D.cols) == want, '%s' % list(D.cols))
            P.ob('row labels', D.index is e['index'], 'row labels changed')
            if list(D.cols) != want:
                raise Broken()
            P.eq('rows', D.n, n)
            k = var('k', 'i')
            pc = I.pc.extend(le(0, k), lt(k, n))
            for i, f in enumerate(FLAGS):
                text(P, 'column/%s' % f, D.cols[f].at(k), bit(word(k), i), pc)
            for q in names:
                P.eq('kept/%s' % q, N.as_poly(D.cols[q].at(k)), N.as_poly(e['cols'][q].at(k)), pc)
        return b, p
    for label, names, key, labels in (('status first', ['status', 'grav'], None, False),
                                      ('only column', ['status'], None, False),
                                      ('other column', ['grav', 'word', 'lat'], 'word', False),
                                      ('named column beside a status column', ['status', 'word', 'lat'], 'word', False),
                                      ('labelled rows', ['grav', 'status', 'lat'], 'status', True)):
        b, p = table(names, key, labels)
        C.call('table/' + label, 'utils.decode_dgs_status_bits', b, p)
    # other inputs are refused
    for label, v in (('real', lambda I: fl('x')), ('text', lambda I: '5'), ('none', lambda I: None), ('bool', lambda I: True),
                     ('list', lambda I: I.new_list([1, 2])), ('tuple', lambda I: (1,)),
                     ('array', lambda I: symarr(I, 'x', n, dtype='i')), ('numpy integer', lambda I: NpInt(var('q', 'i'))),
                     ('series', lambda I: pdmodel.mk_series(I, Arr((n,), lambda ix: el('x', ix[0], sort='i'), 'i')))):
        C.call('refuses/' + label, 'utils.decode_dgs_status_bits', lambda I, v=v: ([v(I)], {}, I.assume(ge(n, 0))),
               raises=['AssertionError'])


class NpInt(Num):
    """numpy.int64: a number whose type is not int"""
    __slots__ = ()

    def __init__(self, p):
        super().__init__(p, 'int')

    def typeval(self):
        return TypeVal('int64')
