"""Trusted models of the text-table readers: pandas.read_csv / read_fwf / to_datetime / to_numeric, datetime.strptime.

A file has n lines of structured symbolic text (filemodel.Text).  A generic line is split into fields; the column type
is inferred from the shape of the field's text, which every row shares.  Whatever is not the same function of the text
for every row is Unsupported."""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover
from .values import *
from . import npmodel as N
from . import strmodel as S
from . import loops
from . import pdmodel
from .pdmodel import mk_df, mk_series, Series, DF
from .dtmodel import DT, civil

MODELS = {}
NA = ['', '#N/A', '#N/A N/A', '#NA', '-1.#IND', '-1.#QNAN', '-NaN', '-nan', '1.#IND', '1.#QNAN', '<NA>', 'N/A', 'NA', 'NULL',
      'NaN', 'None', 'n/a', 'nan', 'null']
BOOLS = ['True', 'TRUE', 'true', 'False', 'FALSE', 'false']
INFS = ['inf', '-inf', 'Inf', 'Infinity', '+inf', '-Inf', '-Infinity', 'infinity', 'INF']


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ---------------------------------------------------------------- helpers

def generic(I, n, at, f):
    """j -> f(at(j)) for a pure f without case distinctions left open"""
    r = loops.sym_map(I, SymIter(P(n), lambda j: at(P(j))), f)
    L = I.heap[r]
    return L.at


def settle(I, ps, k):
    """decide the choices of a generic row that do not depend on the row"""
    ka = T.single_atom(k)
    out = []
    for x in ps:
        if isinstance(x, S.Choice):
            if ka not in x.c.fv:
                out.extend(settle(I, x.a if I.decide(x.c) else x.b, k))
                continue
            x = S.Choice(x.c, settle(I, x.a, k), settle(I, x.b, k))
        out.append(x)
    return S.norm(out)


def line_alts(ps):
    """alternatives of a whole line"""
    if len(ps) == 1 and isinstance(ps[0], S.Choice):
        x = ps[0]
        return [(and_(x.c, c), q) for c, q in line_alts(S.norm(x.a))] + [(and_(not_(x.c), c), q) for c, q in line_alts(S.norm(x.b))]
    return [(TRUE, ps)]


def is_blank(I, v):
    """blanks only"""
    return all(S.chars_of(x) <= frozenset(' ') for x in S.pieces(v))


def trim(I, v):
    """text without leading and trailing blanks"""
    ps = list(S.pieces(v))
    for end in (0, -1):
        while ps:
            x = ps[end]
            if S.chars_of(x) <= frozenset(' '):
                del ps[end]
            elif isinstance(x, str):
                y = x.lstrip(' ') if end == 0 else x.rstrip(' ')
                ps[end] = y
                if y:
                    break
                del ps[end]
            elif ' ' in x.chars:
                raise Unsupported('blanks may occur in %r' % (x,))
            else:
                break
    return S.mk(ps)


def opts(kw, known, what):
    bad = set(kw) - set(known)
    if bad:
        raise Unsupported('%s option %s' % (what, sorted(bad)[0]))


# ---------------------------------------------------------------- rows of a file

class Rows:
    """the kept lines of a file: n rows, row(j) the pieces of row j, line(j) its line number"""

    def __init__(self, n, row):
        self.n, self.row = P(n), row


def rows_of(I, text, skiprows, comment, what):
    """drop the first lines, the blank lines and the comment lines"""
    s = P(skiprows)
    if not prover.prove(I.pc, le(s, text.n)):
        if I.decide(lt(text.n, s)):
            raise PyRaise('EmptyDataError', 'No columns to parse from file')
    m = text.n - s
    k = fresh('r', nonneg=True)
    ka = T.single_atom(k)
    ps = S.pieces(text.line(k + s))
    ps = settle(I, ps, k)
    inr = I.pc.extend(le(0, k), lt(k, m))
    kept, drop = [], []
    for c, q in line_alts(ps):
        d = prover.decide(inr, c)
        if d is False:
            continue
        if d is True:
            c = TRUE
        blank = not q
        if comment is not None and q:
            x = q[0]
            if isinstance(x, str):
                blank = x[0] == comment
            elif comment in x.chars:
                raise Unsupported('%r may begin a line of %r' % (comment, q))
            if not blank and S.may_contain(q, comment) != 'no':
                raise Unsupported('%r may occur in %r' % (comment, q))
        if not blank and sum(S.least(x) for x in q) == 0:
            raise Unsupported('line that may be blank: %r' % (q,))
        (drop if blank else kept).append((c, q))
    if not kept:
        raise PyRaise('EmptyDataError', 'No columns to parse from file')
    if len(kept) > 1:
        raise Unsupported('%s: lines of several kinds: %r' % (what, [q for _, q in kept]))
    q = kept[0][1]
    for x in q:
        if '"' in S.chars_of(x):
            raise Unsupported('quotes in %r' % (x,))
    if not drop:
        return Rows(m, lambda j: S.sub_pieces(q, {ka: P(j)}))
    keep = not_(or_(*[c for c, _ in drop]))
    M = Arr((m,), lambda ix: T.subst(keep, {ka: ix[0]}), 'b')
    W = N.mask_where(M)
    return Rows(W.shape[0], lambda j: S.sub_pieces(q, {ka: N.as_poly(W.at(P(j)))}))


def fields_of(I, R, splitter):
    """list of functions row -> text of the field"""
    at = generic(I, R.n, lambda j: S.mk(R.row(j)), lambda s: tuple(splitter(s)))
    k = fresh('r', nonneg=True)
    pc0 = I.pc
    I.pc = pc0.extend(le(0, k), lt(k, R.n))
    try:
        m = len(at(k))
    finally:
        I.pc = pc0
    return m, lambda q, j: at(j)[q]


# ---------------------------------------------------------------- columns

def column_of(I, n, at, forced=None):
    """column of the texts at(j): numbers where every text is a numeral, text where none can be"""
    k = fresh('r', nonneg=True)
    ka = T.single_atom(k)
    pc0 = I.pc
    I.pc = pc0.extend(le(0, k), lt(k, n))
    try:
        raw = at(k)
        kind, v = infer(I, raw, forced)
    finally:
        I.pc = pc0
    if kind == 'O':
        return Arr((n,), lambda ix: subst_val(v, {ka: ix[0]}), 'O')
    if kind == 'na':
        return Arr((n,), lambda ix: NAN, 'f')
    info = {}
    if kind == 'i':
        t = trim(I, raw)
        info = {'text': lambda j: subst_val(t, {ka: P(j)})}
    return Arr((n,), lambda ix: T.subst(v, {ka: ix[0]}), kind, info)


def infer(I, raw, forced=None):
    ps = S.pieces(raw)
    if forced == 'str':
        return 'O', raw
    alts = S.expand(ps)
    kinds = []
    for c, q in alts:
        d = prover.decide(I.pc, c)
        if d is False:
            continue
        try:
            t = trim(I, S.mk(q))
        except Unsupported:
            # blanks at an end do not matter for what is text anyway
            if any(isinstance(x, str) and not set(x) <= S.NUMERAL | S.SPACE and all(w.find(y) < 0 for w in NA + BOOLS + INFS for y in x.split()[:1])
                   for x in q):
                kinds.append((c, 'O', S.mk(q)))
                continue
            raise
        kinds.append((c,) + classify(I, t, S.mk(q)))
    ks = {x[1] for x in kinds}
    if ks == {'O'}:
        return 'O', raw
    if 'O' in ks:
        raise Unsupported('column of mixed numbers and text: %r' % (raw,))
    if ks == {'na'}:
        return 'na', None
    dt = 'i' if ks == {'i'} else 'f'
    v = None
    for c, kd, x in reversed(kinds):
        x = NAN if kd == 'na' else x
        v = x if v is None else ite(c, x, v)
    return dt, v


def classify(I, t, full):
    ps = S.pieces(t)
    if t == '':
        return 'na', None
    if isinstance(t, str):
        if t in NA:
            return 'na', None
        if re.fullmatch(r'[+-]?\d+', t):
            return 'i', num(int(t))
        if re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', t):
            return 'f', num(dec(t))
        if t in BOOLS or t in INFS:
            raise Unsupported('column of %r' % t)
        return 'O', full
    try:
        v = S.to_int(I, t)
        return 'i', I.poly(v)
    except (Unsupported, PyRaise):
        pass
    sign = 1
    qs = ps
    if isinstance(qs[0], str) and qs[0][0] in '+-':
        sign = -1 if qs[0][0] == '-' else 1
        qs = S.norm((qs[0][1:],) + qs[1:])
    v = S.float_value(qs)
    if v is not None:
        return 'f', sign * v
    # text for certain?
    if any(isinstance(x, str) and not set(x) <= S.NUMERAL for x in ps) or \
            any(not isinstance(x, str) and x.least > 0 and x.chars.isdisjoint(S.NUMERAL) for x in ps):
        if all(S.eq_lit(ps, w) is FALSE for w in NA + BOOLS + INFS):
            return 'O', full
    raise Unsupported('column type of %r' % (t,))


# ---------------------------------------------------------------- read_csv / read_fwf

CSV = {'sep', 'delimiter', 'header', 'names', 'usecols', 'converters', 'parse_dates', 'skiprows', 'comment', 'dtype', 'engine',
       'skipinitialspace', 'low_memory', 'index_col', 'encoding', 'skip_blank_lines', 'na_filter', 'date_format', 'filepath_or_buffer',
       'memory_map', 'encoding_errors', 'lineterminator'}


def open_text(I, path):
    if hasattr(path, 'is_file'):
        return path.text
    f = I.filemodel.open_(I, [path, 'r'], {})
    if f.text is None:
        raise Unsupported('table from %r' % (path,))
    return f.text


def const_int(I, v):
    p = I.poly(v)
    if not p.is_const:
        raise Unsupported('symbolic option')
    return int(p.const)


def listed(I, v):
    if v is None:
        return None
    items = I.concrete_items(v)
    if items is None:
        raise Unsupported('option list %r' % (v,))
    return [x if isinstance(x, str) else const_int(I, x) for x in items]


@model('pandas.read_csv', 'pandas.read_table')
def read_csv(I, args, kw):
    if len(args) > 1:
        kw = dict(kw, sep=args[1])
    opts(kw, CSV, 'read_csv')
    path = args[0] if args else kw['filepath_or_buffer']
    sep = kw.get('delimiter', kw.get('sep', ','))
    if kw.get('skip_blank_lines', True) is not True or kw.get('index_col', False) not in (False, None) or kw.get('na_filter', True) is not True \
            or kw.get('skipinitialspace', False) is not False or kw.get('lineterminator') is not None:
        raise Unsupported('read_csv option')
    text = open_text(I, path)
    skip = const_int(I, kw.get('skiprows') or 0)
    R = rows_of(I, text, skip, kw.get('comment'), 'read_csv')
    if sep is None or sep in (r'\s+',):
        m, at = fields_of(I, R, lambda s: I.heap[S.split(I, as_sstr(s))].items)
    else:
        if not isinstance(sep, str) or len(sep) != 1:
            raise Unsupported('separator %r' % (sep,))
        m, at = fields_of(I, R, lambda s: split_row(I, s, sep))
    return table(I, R, m, at, kw)


def as_sstr(s):
    return s if isinstance(s, S.SStr) else S.SStr((s,))


def split_row(I, s, sep):
    if isinstance(s, str):
        return s.split(sep)
    return I.heap[S.split(I, s, sep)].items


@model('pandas.read_fwf')
def read_fwf(I, args, kw):
    opts(kw, {'names', 'usecols', 'converters', 'header', 'filepath_or_buffer', 'skiprows', 'comment', 'dtype', 'parse_dates', 'infer_nrows'}, 'read_fwf')
    path = args[0] if args else kw['filepath_or_buffer']
    text = open_text(I, path)
    R = rows_of(I, text, const_int(I, kw.get('skiprows') or 0), kw.get('comment'), 'read_fwf')

    def split(s):
        if S.total_width(S.pieces(s)) is None:
            raise Unsupported('fixed-width columns of text of varying width %r' % (s,))
        return I.heap[S.split(I, as_sstr(s))].items
    m, at = fields_of(I, R, split)
    return table(I, R, m, at, kw)


def table(I, R, m, at, kw):
    names = listed(I, kw.get('names'))
    if names is None:
        if kw.get('header', 'infer') is None:
            names = list(range(m))
        else:
            raise Unsupported('column names from the file')
    elif kw.get('header', 'infer') is not None and kw.get('header', 'infer') != 'infer':
        raise Unsupported('header option')
    if len(set(names)) != len(names):
        raise PyRaise('ValueError', 'Duplicate names are not allowed.')
    use = listed(I, kw.get('usecols'))
    if use is None:
        if len(names) < m:
            raise Unsupported('fewer names than fields: the first fields become the index')
        pairs = [(q, j) for j, q in enumerate(names)]
    elif all(isinstance(x, str) for x in use):
        if len(names) < m:
            raise Unsupported('fewer names than fields')
        for x in use:
            if x not in names:
                raise PyRaise('ValueError', 'Usecols do not match columns')
        pairs = [(q, j) for j, q in enumerate(names) if q in use]
    else:
        cols = sorted(set(use))
        if cols[-1] >= m:
            raise PyRaise('ParserError', 'Defining usecols with out-of-bounds indices')
        if len(names) == len(cols):
            pairs = list(zip(names, cols))
        elif len(names) >= m:
            pairs = [(names[j], j) for j in cols]
        else:
            raise PyRaise('ValueError', 'Number of passed names did not match number of header fields in the file')
    conv = {}
    if kw.get('converters') is not None:
        for q, f in I.heap[kw['converters']].d.items():
            conv[q] = f
    forced = {}
    dt = kw.get('dtype')
    if dt is not None:
        if isinstance(dt, DictRef):
            forced = {q: dtype_name(I, x) for q, x in I.heap[dt].d.items()}
        else:
            forced = {q: dtype_name(I, dt) for q, _ in pairs}
    cols = {}
    n = R.n
    for pos, (q, j) in enumerate(pairs):
        f = conv.get(q, conv.get(pos, conv.get(j)) if pos == j else conv.get(q))
        if j >= m:
            cols[q] = Arr((n,), lambda ix: NAN, 'f')
        elif f is not None:
            r = loops.sym_map(I, SymIter(n, lambda k, j=j: at(j, P(k))), lambda s, f=f: I.call(f, [s], {}))
            A = N.to_arr(I, r)
            if A.dtype == 'O':
                cols[q] = object_or_text(I, A)
            else:
                cols[q] = Arr((n,), A._fn, A.dtype)
        else:
            cols[q] = column_of(I, n, lambda k, j=j: at(j, P(k)), forced.get(q))
            if forced.get(q) not in (None, 'str'):
                cols[q] = I.arr(N.astype(I, cols[q], forced[q])) if cols[q].dtype != forced[q][0] else cols[q]
    pd_ = kw.get('parse_dates')
    if pd_ is not None and pd_ is not False:
        if pd_ is True:
            raise Unsupported('parse_dates=True')
        for x in listed(I, pd_):
            q = pairs[x][0] if isinstance(x, int) else x
            if q not in cols:
                raise PyRaise('ValueError', 'Missing column provided to parse_dates')
            try:
                cols[q] = times_of(I, cols[q], kw.get('date_format'), False)
            except PyRaise:
                pass
    return mk_df(I, cols, n)


def dtype_name(I, x):
    if isinstance(x, str):
        return {'str': 'str', 'object': 'str', 'float': 'float', 'float64': 'float', 'int': 'int', 'int64': 'int'}.get(x) or _no(x)
    n = getattr(x, 'name', None)
    return {'str': 'str', 'float': 'float', 'int': 'int', 'object': 'str'}.get(n) or _no(x)


def _no(x):
    raise Unsupported('dtype %r' % (x,))


def object_or_text(I, A):
    """converter results: a column of what they are (texts are not converted again)"""
    return Arr(A.shape, lambda ix: A.at(*ix), 'O')


# ---------------------------------------------------------------- times

class Reader:
    """consumes text pieces from the left"""

    def __init__(self, I, ps):
        self.I, self.ps = I, list(ps)

    def lit(self, ch):
        while self.ps and isinstance(self.ps[0], S.Choice):
            self.ps[:1] = list(S.resolve(self.I, (self.ps[0],)))
        if not self.ps:
            return False
        x = self.ps[0]
        if isinstance(x, str):
            if x[0] != ch:
                return False
            self.ps[0] = x[1:]
            if not x[1:]:
                del self.ps[0]
            return True
        if ch not in x.chars and x.least > 0:
            return False
        raise Unsupported('time text %r where %r is expected' % (x, ch))

    def digits(self, n):
        """integer of the next n digits; None when they are not digits"""
        v, w = ZERO, 0
        while w < n:
            while self.ps and isinstance(self.ps[0], S.Choice):
                self.ps[:1] = list(S.resolve(self.I, (self.ps[0],)))
            if not self.ps:
                return (v, w) if w else (None, 0)
            x = self.ps[0]
            if isinstance(x, str):
                if not (x[0].isdigit() and x[0] in '0123456789'):
                    return (v, w) if w else (None, 0)
                v = v * 10 + int(x[0])
                w += 1
                self.ps[0] = x[1:]
                if not x[1:]:
                    del self.ps[0]
            elif isinstance(x, S.Dig):
                k = min(n - w, x.width)
                if k == x.width:
                    v = v * 10 ** k + x.p
                    del self.ps[0]
                else:
                    h = x.cut(0, k)
                    v = v * 10 ** k + h.p
                    self.ps[0] = x.cut(k, x.width)
                w += k
            else:
                if not isinstance(x, str) and x.chars.isdisjoint(S.DIGITS) and x.least > 0:
                    return (v, w) if w else (None, 0)
                raise Unsupported('time text %r where digits are expected' % (x,))
        return v, w

    def fraction(self, most):
        """value of the following digits as a fraction; (value, seen)"""
        got = []
        while self.ps:
            x = self.ps[0]
            if isinstance(x, S.Choice):
                self.ps[:1] = list(S.resolve(self.I, (x,)))
                continue
            if isinstance(x, str):
                j = 0
                while j < len(x) and x[j] in '0123456789':
                    j += 1
                if j:
                    got.append(x[:j])
                if j < len(x):
                    self.ps[0] = x[j:]
                    break
                del self.ps[0]
            elif isinstance(x, S.Dig) or (isinstance(x, S.Run) and x.kind == 'frac'):
                got.append(x)
                del self.ps[0]
            elif x.chars.isdisjoint(S.DIGITS) and x.least > 0:
                break
            else:
                raise Unsupported('time text %r where digits are expected' % (x,))
        if not got:
            return None
        w = S.total_width(got)
        if w is not None and w > most:
            raise PyRaise('ValueError', 'unconverted data remains')
        v = S.frac_value(S.norm(got))
        if v is None:
            raise Unsupported('fraction %r' % (got,))
        return v


LIMITS = {'m': (1, 12), 'd': (1, 31), 'H': (0, 23), 'M': (0, 59), 'S': (0, 59), 'j': (1, 366), 'Y': (1, 9999)}
WIDTH = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'j': 3, 'y': 2}


def parse_fmt(I, ps, fmt, pandas=False):
    """time parts of a text by a strptime template; ValueError when it does not match"""
    R = Reader(I, ps)
    out = {}
    k = 0

    def bad(why):
        raise PyRaise('ValueError', 'time data does not match format %r: %s' % (fmt, why))
    while k < len(fmt):
        ch = fmt[k]
        if ch == '%':
            d = fmt[k + 1]
            k += 2
            if d == '%':
                if not R.lit('%'):
                    bad('%')
            elif d in WIDTH:
                v, w = R.digits(WIDTH[d])
                if v is None or (d in 'Yy' and w != WIDTH[d]):
                    bad(d)
                if d == 'y':
                    v = v + ite(lt(v, 69), num(2000), num(1900))
                    d = 'Y'
                lo, hi = LIMITS[d]
                if d == 'S' and not pandas:
                    hi = 61
                if not I.decide(and_(le(lo, v), le(v, hi))):
                    bad(d)
                if d == 'S' and hi == 61 and not prover.prove(I.pc, le(v, 59)):
                    raise Unsupported('leap second')
                if d in out:
                    bad('repeated')
                out[d] = v
            elif d == 'f':
                v = R.fraction(9 if pandas else 6)
                if v is None:
                    bad('f')
                out['f'] = v
            elif d == 'z':
                if not R.lit('Z'):
                    raise Unsupported('UTC offset in %r' % (R.ps,))
                out['off'] = ZERO
            elif d == 'T':
                fmt = fmt[:k] + '%H:%M:%S' + fmt[k:]
            else:
                raise Unsupported('time directive %%%s' % d)
            continue
        k += 1
        if not R.lit(ch):
            bad('%r' % ch)
    left = S.resolve(I, R.ps)
    if left:
        if sum(S.least(x) for x in left) == 0:
            raise Unsupported('text after the time: %r' % (left,))
        bad('unconverted data remains')
    return out


def make_dt(out, off=None):
    if 'Y' not in out:
        if 'm' in out or 'd' in out or 'j' in out:
            out = dict(out, Y=num(1900))
        else:
            out = dict(out, Y=num(1900))
    off = out.get('off', off)
    if 'j' in out and 'm' not in out and 'd' not in out:
        day = civil(out['Y'], 1, 1) + out['j'] - 1
    elif 'j' in out:
        raise Unsupported('day of year with month')
    else:
        day = civil(out['Y'], out.get('m', ONE), out.get('d', ONE))
    loc = day * 86400 + out.get('H', ZERO) * 3600 + out.get('M', ZERO) * 60 + out.get('S', ZERO) + out.get('f', ZERO)
    return DT(loc, None) if off is None else DT(loc - P(off), off)


def strptime(I, args, kw):
    s, fmt = args
    if not isinstance(fmt, str):
        raise Unsupported('symbolic time template')
    if not S.is_string(s):
        raise PyRaise('TypeError', 'strptime() argument 1 must be str')
    return make_dt(parse_fmt(I, S.pieces(s), fmt))


S.strptime = strptime

DATES = ['%Y-%m-%d', '%Y/%m/%d', '%m/%d/%Y', '%m-%d-%Y']


def guess(I, ps):
    """the template pandas infers from one text"""
    for d in DATES:
        for body in ('', ' %H:%M:%S', 'T%H:%M:%S', ' %H:%M:%S.%f', 'T%H:%M:%S.%f'):
            for z in ('', '%z'):
                f = d + body + z
                if shape_ok(ps, f):
                    return f
    raise PyRaise('ValueError', 'time format not recognised')


def shape_ok(ps, fmt):
    """do the pieces have the shape of the template? (digits and literals only)"""
    R = Reader(None, ps)
    k = 0
    try:
        while k < len(fmt):
            ch = fmt[k]
            if ch == '%':
                d = fmt[k + 1]
                k += 2
                if d == 'f':
                    if R.fraction(9) is None:
                        return False
                elif d == 'z':
                    if not R.lit('Z'):
                        return False
                else:
                    v, w = R.digits(WIDTH[d])
                    if v is None or w != WIDTH[d]:
                        return False
                continue
            k += 1
            if not R.lit(ch):
                return False
    except (Unsupported, PyRaise, AttributeError):
        return False
    return not R.ps


def times_of(I, A, fmt, utc):
    """array of datetimes from an array of texts (or datetimes)"""
    n = A.shape[0]
    k = fresh('r', nonneg=True)
    if A.dtype == 'i':
        if fmt is None:
            raise Unsupported('times from numbers without a format')
        t = A.info.get('text')
        if t is None:
            raise Unsupported('times from computed integers')
        pc0 = I.pc
        I.pc = pc0.extend(le(0, k), lt(k, n))
        try:
            plain_int(I, t(k))
        finally:
            I.pc = pc0
        src = lambda j: t(P(j))
    elif A.dtype == 'O':
        src = lambda j: A.at(P(j))
    else:
        raise Unsupported('times from %s columns' % A.dtype)
    pc0 = I.pc
    I.pc = pc0.extend(le(0, k), lt(k, n))
    x = src(k)
    I.pc = pc0
    if isinstance(x, DT):
        if utc and x.off is None:
            f = lambda v: DT(v.u, ZERO)
        elif utc:
            f = lambda v: DT(v.u, ZERO)
        else:
            f = lambda v: v
        return Arr((n,), lambda ix: f(A.at(*ix)), 'O')
    if not S.is_string(x):
        raise Unsupported('times from %r' % (x,))
    # choices that do not depend on the row hold for the whole column; the others would be mixed formats
    ps = settle(I, S.pieces(x), k)
    if any(isinstance(y, S.Choice) for y in ps):
        raise Unsupported('times in several formats: %r' % (ps,))
    ka = T.single_atom(k)
    if fmt is None:
        fm = guess(I, ps)
    elif fmt in ('ISO8601', 'mixed'):
        fm = guess(I, ps)
        if not fm.startswith('%Y-'):
            if fmt == 'mixed' or not fm.startswith('%Y/'):
                raise PyRaise('ValueError', 'not ISO8601')
    elif isinstance(fmt, str):
        fm = fmt
    else:
        raise Unsupported('time format %r' % (fmt,))
    at = generic(I, n, lambda j: S.mk(S.sub_pieces(ps, {ka: P(j)})),
                 lambda s: make_dt(parse_fmt(I, S.pieces(s), fm, True), ZERO if utc else None))
    r = Arr((n,), lambda ix: at(ix[0]), 'O')
    return r


def plain_int(I, t):
    """is the text what str() of its integer value gives?"""
    ps = S.pieces(t)
    if isinstance(t, str):
        if str(int(t)) != t:
            raise Unsupported('number with leading zeros')
        return
    x = ps[0]
    if isinstance(x, str):
        if x[0] in '123456789':
            return
    elif isinstance(x, S.Dig) and prover.prove(I.pc, le(10 ** (x.width - 1), x.p)):
        return
    elif isinstance(x, S.Run) and x.kind == 'int' and len(ps) == 1:
        return
    raise Unsupported('number that may have leading zeros: %r' % (t,))


PARTS = {'year': 'Y', 'years': 'Y', 'month': 'm', 'months': 'm', 'day': 'd', 'days': 'd', 'hour': 'H', 'hours': 'H', 'h': 'H',
         'minute': 'M', 'minutes': 'M', 'second': 'S', 'seconds': 'S', 's': 'S'}


@model('pandas.to_datetime')
def to_datetime(I, args, kw):
    opts(kw, {'utc', 'format', 'errors', 'arg', 'cache'}, 'to_datetime')
    v = args[0] if args else kw['arg']
    if len(args) > 1 or kw.get('errors', 'raise') != 'raise':
        raise Unsupported('to_datetime errors option')
    utc = kw.get('utc', False) is True
    fmt = kw.get('format')
    if isinstance(v, ObjRef) and isinstance(I.heap[v], DF):
        D = I.heap[v]
        parts = {}
        for q, A in D.cols.items():
            if q.lower() not in PARTS:
                raise PyRaise('ValueError', 'extra keys have been passed to the datetime assemblage')
            if A.dtype not in 'if':
                raise Unsupported('time parts that are not numbers')
            parts[PARTS[q.lower()]] = A
        for q in 'Ymd':
            if q not in parts:
                raise PyRaise('ValueError', 'to assemble mappings requires at least that [year, month, day] be specified')

        def el(ix):
            g = {q: N.as_poly(A.at(*ix)) for q, A in parts.items()}
            return make_dt(g, ZERO if utc else None)
        return mk_series(I, Arr((D.n,), el, 'O'), D.index, None)
    if isinstance(v, ObjRef) and isinstance(I.heap[v], Series):
        s = I.heap[v]
        return mk_series(I, times_of(I, s.A, fmt, utc), s.index, s.name)
    if S.is_string(v):
        f = fmt if fmt not in (None, 'ISO8601', 'mixed') else guess(I, S.resolve(I, S.pieces(v)))
        return make_dt(parse_fmt(I, S.pieces(v), f, True), ZERO if utc else None)
    if isinstance(v, DT):
        return DT(v.u, ZERO) if utc else v
    A = N.to_arr(I, v)
    if A.ndim != 1:
        raise Unsupported('to_datetime')
    return I.new_arr(times_of(I, A, fmt, utc))


# ---------------------------------------------------------------- numbers

@model('pandas.to_numeric')
def to_numeric(I, args, kw):
    opts(kw, {'errors', 'arg'}, 'to_numeric')
    v = args[0] if args else kw['arg']
    errors = kw.get('errors', 'raise')
    if errors not in ('raise', 'coerce'):
        raise Unsupported('to_numeric errors')
    if isinstance(v, ObjRef) and isinstance(I.heap[v], Series):
        s = I.heap[v]
        return mk_series(I, numbers_of(I, s.A, errors), s.index, s.name)
    if S.is_string(v) or hasattr(v, 'is_str'):
        return scalar_number(I, v, errors)
    if I.is_number(v):
        return v
    A = N.to_arr(I, v)
    return I.new_arr(numbers_of(I, A, errors))


def scalar_number(I, v, errors):
    if isinstance(v, str):
        try:
            kind, p = classify(I, v.strip(), v)
        except Unsupported:
            raise
    else:
        try:
            kind, p = infer(I, v)
        except Unsupported:
            # numbers in some rows, text in others: one case at a time
            w = S.mk(S.resolve(I, S.pieces(v)))
            if S.pieces(w) == S.pieces(v):
                raise
            return scalar_number(I, w, errors)
    if kind in 'if':
        return mk_num(p, 'int' if kind == 'i' else 'float')
    if kind == 'na':
        if errors == 'raise' and trim(I, v) != '':
            raise Unsupported('to_numeric of %r' % (v,))
        return mk_float(NAN)
    if errors == 'coerce':
        return mk_float(NAN)
    raise PyRaise('ValueError', 'Unable to parse string')


def numbers_of(I, A, errors):
    if A.dtype in 'ifb':
        return A
    n = A.shape[0]
    if n.is_const and n.is_zero:
        return Arr((n,), lambda ix: NAN, 'f')

    def one(x):
        if isinstance(x, (Poly, Num)) or I.is_number(x):
            return x if not isinstance(x, Poly) else mk_float(x)
        return scalar_number(I, x, errors)
    r = loops.sym_map(I, SymIter(n, lambda j: A.at(P(j))), one)
    B = N.to_arr(I, r)
    return Arr((n,), B._fn, B.dtype)


def register(mods, models):
    models.update(MODELS)
