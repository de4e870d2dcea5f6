"""Feed extraction: one row per sentence of the feed, its fields under the names of the format, in any file.

The data file has any number of lines.  Line j is a sentence of the feed (any text before it, every field an arbitrary
value of its kind) or any other text in which the sentence does not begin; lines end in \\n or \\r\\n, the last one perhaps
in nothing.  The feed descriptions are the ones in FORMATS."""
from .fmtlib import *

YAML, DATA = ONE_FILE, num(8)
NUM, INT, TEXT, MIXED = 'number or blank', 'integer', 'text', 'number or text'

# (feeds and their formats, the fields described, tag asked for, kind of each of its fields)
IXBLUE = {
    'PHZDA': '${:.2}ZDA,{GPSTime:g},{GPSDay:d},{GPSMonth:d},{GPSYear:d},{LocalHours:od},{LocalZone:od}*{CheckSum:x}',
    'HEHDT': '${:.2}HDT,{HeadingTrue:og},T*{CheckSum:x}',
    'PASHR': '$PASHR,{GPSTime:g},{HeadingTrue:g},T,{Pitch:g},{Roll:g},{Heave:g},{AccuracyPitch:g},{AccuracyRoll:g},{AccuracyHeave:g},'
             '{FlagAccuracyHeading:d},{FlagIMU:d}*{Checksum:x}'}
FIELDS = {'GPSTime': {'units': '', 'description': 'UTC of position fix'}, 'Pitch': {'units': 'degrees'}, 'Roll': {'units': 'degrees', 'sign': 1},
          'HeadingTrue': {'description': 'True heading'}, 'GPSYear': {}, 'a': {'units': 'm'}}
FORMATS = [
    (IXBLUE, 'PASHR', [NUM, NUM, TEXT, NUM, NUM, NUM, NUM, NUM, NUM, INT, 'sum']),
    (IXBLUE, 'HEHDT', [NUM, 'sum']),
    (IXBLUE, 'PHZDA', [NUM, INT, INT, INT, INT, 'sum']),
    ({'GPROT': '$GPROT,{a:g}'}, 'GPROT', [NUM]),
    ({'GPROT': '$GPROT,{a}'}, 'GPROT', [TEXT]),
    ({'OTHER': '$OTHER,{b:g},{c:g}', 'XYZ': '$XYZ,{a:g},{b:w},{c:d},{d:g}'}, 'XYZ', [NUM, TEXT, INT, NUM]),
    ({'A': '$A,{a:w},{b:w},{c:g},{d:g},{e:g}'}, 'A', [TEXT, MIXED, NUM, MIXED, INT]),
]


def names(fmt):
    return fmt.replace('{', '').replace('}', '').split(',')[1:]


def feed(j):
    return T.pred('feed', P(j))


def blank(k, j):
    return T.pred('blank%d' % k, P(j))


def letters(name, j):
    return S.Run('word', fn(name, P(j), sort='i'), frozenset('GHJKLMPQRSUVWXZghjklmpqrsuvwxz'), 1)


def text_of(kind, k, j):
    j = P(j)
    if kind == NUM:
        return [S.Choice(blank(k, j), (), (real('f%d' % k, j),))]
    if kind == INT:
        return [integer('f%d' % k, j)]
    if kind == TEXT:
        return [letters('f%d' % k, j)]
    if kind == MIXED:
        return [S.Choice(blank(k, j), (letters('g%d' % k, j),), (real('f%d' % k, j),))]
    return [S.Choice(blank(k, j), (), (integer('f%d' % k, j),)), '*', S.Run('word', fn('sum%d' % k, j, sort='i'), S.DIGITS | frozenset('ABCDEF'), 1)]


def before(j, which):
    if which == 'nothing':
        return []
    return [*When(ZERO, j, has=T.pred('hasfrac', P(j)), q='log').ymd('-'), 'T', *When(ZERO, j, has=T.pred('hasfrac', P(j)), q='log').hms(), 'Z ',
            S.Run('word', fn('before', P(j), sort='i'), S.PRINT - {'$'}, 0)]


def sentence(j, tag, kinds, which):
    return [*before(j, which), '$', tag, ',', *seq(',', *[text_of(kd, k, j) for k, kd in enumerate(kinds)])]


def data(tag, kinds, which):
    def line(j):
        other = S.Run('word', fn('other', P(j), sort='i'), S.PRINT | {'\t'}, 0, lacks=('$%s,' % tag,))
        return S.mk([S.Choice(feed(j), sentence(j, tag, kinds, which), (other,))])

    def eol(j):
        nl = S.Choice(T.pred('crlf', num(0)), ('\r\n',), ('\n',))
        return [S.Choice(and_(eq(P(j), rows(DATA) - 1), T.pred('cut', num(0))), (), (nl,))]
    return F.Text(rows(DATA), line, name=DATA, eol=eol)


def files(doc, tag, kinds, which):
    def go(I, path, mode):
        f = path_no(path)
        if f is not None and prover.prove_eq(f, YAML, I.pc):
            t = F.Text(rows(YAML), lambda j: S.mk([S.Run('word', fn('yaml', P(j), sort='i'), S.PRINT, 0)]), name=YAML)
            t.yaml = doc
            return F.text_file(I, path, mode, t)
        if f is not None and prover.prove_eq(f, DATA, I.pc):
            return F.text_file(I, path, mode, data(tag, kinds, which))
        raise Unsupported('unexpected path %r' % (path,))
    return go


def count_rows():
    return sum_(0, rows(DATA), lambda j: ite(feed(j), ONE, ZERO))


def at(i):
    return N.nth(rows(DATA), lam1(lambda z: feed(z)), i)


def check(P_, I, v, tag, fmt, kinds, which):
    df, info = P_.tuple_('result', v, 2)
    D = I.heap[df] if isinstance(df, ObjRef) else None
    ok = isinstance(D, pdmodel.DF)
    P_.ob('table', ok, repr(df))
    if not ok:
        raise Broken()
    cols = names(fmt)
    P_.ob('columns', list(D.cols) == cols + ['mystery'], 'columns %s, the format says %s' % (list(D.cols), cols))
    if list(D.cols) != cols + ['mystery']:
        raise Broken()
    P_.eq('a row per sentence', D.n, count_rows())
    i = var('row', 'i')
    j = at(i)
    pc0 = I.pc
    base = pc0.extend(le(0, i), lt(i, D.n), le(0, j), lt(j, rows(DATA)), feed(j))
    try:
        for k, q in enumerate(cols + ['mystery']):
            kd = kinds[k] if k < len(kinds) else 'before'
            for c in ((TRUE,) if kd in (INT, TEXT, 'before') else (blank(k, j), not_(blank(k, j)))):
                I.pc = base.extend(c)
                tag_ = q + ('' if c is TRUE else '/blank' if c is blank(k, j) else '/filled in')
                if prover.contradictory(I.pc):
                    continue
                outs = I.explore(lambda: D.cols[q].at(i))
                for kd_, x, pc, st, w in outs:
                    if kd_ != 'normal':
                        P_.ob(tag_, False, repr((kd_, x)))
                        continue
                    want = S.mk(before(j, which) if kd == 'before' else text_of(kd, k, j))
                    want = S.mk(simplify(S.pieces(want), pc))
                    value(P_, I, tag_, x, want, pc)
    finally:
        I.pc = pc0
    d = I.heap[info].d if isinstance(info, DictRef) else None
    P_.ob('field info is a dictionary', d is not None, repr(info))
    if d is not None:
        want = {c: FIELDS[c.split(':')[0]] for c in cols if c.split(':')[0] in FIELDS}
        got = {c: plain(I, x) for c, x in d.items()}
        P_.ob('field info', got == want, '%r instead of %r' % (got, want))


def plain(I, x):
    if isinstance(x, DictRef):
        return {k: plain(I, y) for k, y in I.heap[x].d.items()}
    if I.is_number(x) and I.poly(x).is_const:
        return I.poly(x).const
    return x


def simplify(ps, pc):
    out = []
    for x in ps:
        if isinstance(x, S.Choice):
            d = prover.decide(pc, x.c)
            if d is not None:
                out.extend(simplify(x.a if d else x.b, pc))
                continue
        out.append(x)
    return tuple(out)


def value(P_, I, name, x, want, pc):
    """the number the text spells, nothing for an empty text, else the text itself"""
    if want == '':
        ok = simplify(S.pieces(x), pc) == () if S.is_string(x) else prover.prove_eq(x if isinstance(x, Poly) else I.poly(x), NAN, pc)
        P_.ob(name, ok, repr(x))
        return
    ps = S.pieces(want)
    v = ps[0].p if len(ps) == 1 and isinstance(ps[0], S.Run) and ps[0].kind in ('int', 'real') else None
    if v is not None:
        if S.is_string(x):
            P_.ob(name, False, 'left as text: %r' % (x,))
        else:
            P_.eq(name, N.as_poly(x) if isinstance(x, Poly) else I.poly(x), v, pc)
        return
    if not S.is_string(x):
        P_.ob(name, False, 'text turned into %r' % (x,))
        return
    P_.holds(name, S.equal(x, want), pc)


def run(C):
    for fm, tag, kinds in FORMATS:
        doc = {'Device': {'category': 'device_type', 'format': fm, 'fields': FIELDS}}
        for which in ('nothing', 'a log stamp'):
            for given in (tag, '$' + tag):
                if given != tag and which == 'nothing' and len(kinds) > 2:
                    continue
                label = '%s (%d fields), given as %s, after %s' % (tag, len(kinds), given, which)

                def build(I, doc=doc, tag=tag, kinds=kinds, which=which, given=given):
                    I.files = files(doc, tag, kinds, which)
                    I.assume(T.exists_(rows(DATA), feed))
                    return [path_word(YAML), path_word(DATA), given], {}, {}
                C.call(label, 'io.read_other_stuff', build, lambda P_, I, env, v, tag=tag, fm=fm, kinds=kinds, which=which:
                       check(P_, I, v, tag, fm[tag], kinds, which))

        # refused: a tag that is not in the data, a tag that is not described
        def build(I, doc=doc, tag=tag, kinds=kinds):
            I.files = files(doc, tag, kinds, 'a log stamp')
            I.assume(not_(T.exists_(rows(DATA), feed)))
            return [path_word(YAML), path_word(DATA), tag], {}, {}
        C.call('%s (%d fields) not in the data' % (tag, len(kinds)), 'io.read_other_stuff', build, None, raises=['AssertionError', 'KeyError', 'ValueError'])

        for missing in ('QQQ', '$QQQ', tag.lower(), tag[1:] or 'Q', '$$' + tag):
            def build(I, doc=doc, tag=tag, kinds=kinds, missing=missing):
                I.files = files(doc, tag, kinds, 'a log stamp')
                return [path_word(YAML), path_word(DATA), missing], {}, {}
            C.call('%s is not described, %s (%d fields)' % (missing, tag, len(kinds)), 'io.read_other_stuff', build, None,
                   raises=['AssertionError', 'KeyError', 'ValueError'])
