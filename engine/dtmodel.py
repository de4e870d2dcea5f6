"""Trusted model of datetime / timedelta / timezone (and pandas.Timestamp scalars).

An aware datetime is the exact UTC instant u (seconds since 1970-01-01) with a UTC
offset; a naive one is a wall-clock instant.  The proleptic Gregorian calendar is the
uninterpreted day number civil(y, m, d) with uninterpreted inverses, computed when concrete."""
import datetime as _dt
from .terms import *
from . import terms as T
from . import prover
from .values import *

EPOCH = _dt.date(1970, 1, 1).toordinal()


def civil(y, m, d):
    y, m, d = P(y), P(m), P(d)
    if y.is_const and m.is_const and d.is_const:
        try:
            return num(_dt.date(int(y.const), int(m.const), int(d.const)).toordinal() - EPOCH)
        except ValueError:
            raise PyRaise('ValueError', 'date out of range')
    if y.is_const and m.is_const:
        # days of one month are consecutive
        return num(_dt.date(int(y.const), int(m.const), 1).toordinal() - EPOCH) + d - 1
    return fn('civil', y, m, ONE, sort='i') + d - 1


def from_days(day, what):
    if day.is_const:
        x = _dt.date.fromordinal(int(day.const) + EPOCH)
        return num({'year': x.year, 'month': x.month, 'day': x.day, 'yday': x.timetuple().tm_yday}[what])
    return fn('civ_' + what, day, sort='i')


class TZ:
    def __init__(self, off):
        self.off = P(off)

    def compare(self, I, op, o, refl):
        if isinstance(o, TZ) and op in ('Eq', 'NotEq'):
            c = eq(self.off, o.off)
            return mk_bool(c if op == 'Eq' else not_(c))
        if op in ('Eq', 'NotEq'):
            return op == 'NotEq'

    def truth(self, I):
        return True

    def getattr(self, I, name):
        if name == 'utcoffset':
            return Builtin('tz.utcoffset', lambda I, a, k: TD(self.off))
        raise Unsupported('tz.%s' % name)


UTC = TZ(0)


class TD:
    """time difference in exact seconds"""

    def __init__(self, s):
        self.s = P(s)

    def subst(self, mp):
        return TD(T.subst(self.s, mp))

    def fvs(self):
        return self.s.fv

    def typeval(self):
        return TypeVal('timedelta')

    def truth(self, I):
        return mk_bool(ne(self.s, 0))

    def parts(self):
        d = T.floor(self.s / 86400)
        r = self.s - 86400 * d
        sec = T.floor(r)
        return d, sec, T.floor((r - sec) * 1000000)

    def getattr(self, I, name):
        d, s, us = self.parts()
        if name == 'days':
            return mk_int(d)
        if name == 'seconds':
            return mk_int(s)
        if name == 'microseconds':
            return mk_int(us)
        if name == 'total_seconds':
            return Builtin('timedelta.total_seconds', lambda I, a, k: mk_float(self.s))
        raise Unsupported('timedelta.%s' % name)

    def binop(self, I, op, o, refl):
        if isinstance(o, TD):
            if op == 'Add':
                return TD(self.s + o.s)
            if op == 'Sub':
                return TD(o.s - self.s) if refl else TD(self.s - o.s)
            if op == 'Div' and not refl:
                return mk_float(self.s / o.s)
            if op == 'FloorDiv' and not refl:
                return mk_int(T.floor(self.s / o.s))
            if op == 'Mod' and not refl:
                return TD(T.mod(self.s, o.s))
        if I.is_number(o):
            p = I.poly(o)
            if op == 'Mult':
                return TD(self.s * p)
            if op == 'Div' and not refl:
                return TD(self.s / p)
        return None

    def unary(self, I, op):
        if op == 'USub':
            return TD(neg(self.s))
        raise Unsupported('unary %s on timedelta' % op)

    def abs_(self, I):
        return TD(T.abs_(self.s))

    def compare(self, I, op, o, refl):
        if isinstance(o, TD):
            a, b = (o.s, self.s) if refl else (self.s, o.s)
            return mk_bool(I.CMP[op](a, b))
        if op in ('Eq', 'NotEq'):
            return op == 'NotEq'


class DT:
    def __init__(self, u, off=None):
        self.u = P(u)
        self.off = None if off is None else P(off)

    @staticmethod
    def make(y, m, d, H=ZERO, M=ZERO, S=ZERO, off=None):
        loc = civil(y, m, d) * 86400 + P(H) * 3600 + P(M) * 60 + P(S)
        if off is None:
            return DT(loc, None)
        return DT(loc - P(off), off)

    def __repr__(self):
        return 'DT(%r, off=%r)' % (self.u, self.off)

    @property
    def aware(self):
        return self.off is not None

    @property
    def local(self):
        return self.u if self.off is None else self.u + self.off

    def day(self):
        return T.floor(self.local / 86400)

    def sod(self):
        return self.local - 86400 * self.day()

    def subst(self, mp):
        return DT(T.subst(self.u, mp), None if self.off is None else T.subst(self.off, mp))

    def fvs(self):
        return self.u.fv | (self.off.fv if self.off is not None else frozenset())

    def merge(self, c, o):
        if isinstance(o, DT) and self.aware == o.aware:
            return DT(ite(c, self.u, o.u), None if self.off is None else ite(c, self.off, o.off))

    def truth(self, I):
        return True

    def typeval(self):
        return TypeVal('datetime')

    def getattr(self, I, name):
        if name in ('hour', 'minute', 'second', 'microsecond', 'nanosecond'):
            r = self.sod()
            h = T.floor(r / 3600)
            r = r - 3600 * h
            if name == 'hour':
                return mk_int(h)
            m = T.floor(r / 60)
            r = r - 60 * m
            if name == 'minute':
                return mk_int(m)
            s = T.floor(r)
            if name == 'second':
                return mk_int(s)
            us = T.floor((r - s) * 1000000)
            if name == 'microsecond':
                return mk_int(us)
            return mk_int(T.floor((r - s) * 10**9 - us * 1000))
        if name in ('year', 'month', 'day'):
            return mk_int(from_days(self.day(), name))
        if name in ('dayofyear', 'day_of_year'):
            return mk_int(from_days(self.day(), 'yday'))
        if name in ('tzinfo', 'tz'):
            return None if self.off is None else TZ(self.off)
        f = DT_METHODS.get(name)
        if f is None:
            raise Unsupported('datetime.%s' % name)
        return BoundMethod(self, Builtin('datetime.' + name, f))

    def binop(self, I, op, o, refl):
        if isinstance(o, TD):
            if op == 'Add':
                return DT(self.u + o.s, self.off)
            if op == 'Sub' and not refl:
                return DT(self.u - o.s, self.off)
        if isinstance(o, DT) and op == 'Sub':
            if self.aware != o.aware:
                raise PyRaise('TypeError', "can't subtract offset-naive and offset-aware datetimes")
            return TD(o.u - self.u) if refl else TD(self.u - o.u)
        return None

    def compare(self, I, op, o, refl):
        if isinstance(o, DT):
            if self.aware != o.aware:
                if op in ('Eq', 'NotEq'):
                    return op == 'NotEq'
                raise PyRaise('TypeError', "can't compare offset-naive and offset-aware datetimes")
            a, b = (o.u, self.u) if refl else (self.u, o.u)
            return mk_bool(I.CMP[op](a, b))
        if op in ('Eq', 'NotEq'):
            return op == 'NotEq'


def off_of(I, tz):
    if tz is None:
        return None
    if isinstance(tz, TZ):
        return tz.off
    if isinstance(tz, str) and tz.lower() in ('utc', 'gmt', 'z', 'zulu', 'etc/utc'):
        return ZERO
    raise Unsupported('time zone %r' % (tz,))


def _astimezone(I, args, kw):
    s = args[0]
    tz = kw.get('tz', args[1] if len(args) > 1 else None)
    if tz is None or not s.aware:
        raise Unsupported('conversion to or from the system time zone')
    return DT(s.u, off_of(I, tz))


def _tz_convert(I, args, kw):
    s = args[0]
    tz = kw.get('tz', args[1] if len(args) > 1 else None)
    if not s.aware:
        raise PyRaise('TypeError', 'cannot convert tz-naive timestamp')
    if tz is None:
        return DT(s.u, None)
    return DT(s.u, off_of(I, tz))


def _tz_localize(I, args, kw):
    s = args[0]
    tz = kw.get('tz', args[1] if len(args) > 1 else None)
    if s.aware and tz is not None:
        raise PyRaise('TypeError', 'already tz-aware')
    if tz is None:
        return DT(s.local, None)
    o = off_of(I, tz)
    return DT(s.u - o, o)


def _replace(I, args, kw):
    s = args[0]
    kw = dict(kw)
    off = s.off
    loc = s.local
    if 'tzinfo' in kw:
        off = off_of(I, kw.pop('tzinfo'))
    day, sod = T.floor(loc / 86400), None
    if set(kw) & {'year', 'month', 'day'}:
        y = I.poly(kw.pop('year')) if 'year' in kw else from_days(day, 'year')
        m = I.poly(kw.pop('month')) if 'month' in kw else from_days(day, 'month')
        d = I.poly(kw.pop('day')) if 'day' in kw else from_days(day, 'day')
        day2 = civil(y, m, d)
    else:
        day2 = day
    if kw:
        g = lambda n: I.poly(kw.pop(n)) if n in kw else I.poly(s.getattr(I, n))
        us = g('microsecond')
        sod = g('hour') * 3600 + g('minute') * 60 + g('second') + us / 1000000
    else:
        sod = loc - 86400 * day
    if kw:
        raise Unsupported('datetime.replace options')
    loc = day2 * 86400 + sod
    return DT(loc if off is None else loc - off, off)


def _timestamp(I, args, kw):
    s = args[0]
    if not s.aware:
        raise Unsupported('timestamp() of a naive datetime (system time zone)')
    return mk_float(s.u)


def _timetuple(I, args, kw):
    s = args[0]
    return TimeTuple(s)


class TimeTuple:
    def __init__(self, s):
        self.s = s

    def getattr(self, I, name):
        m = {'tm_yday': 'dayofyear', 'tm_year': 'year', 'tm_mon': 'month', 'tm_mday': 'day',
             'tm_hour': 'hour', 'tm_min': 'minute', 'tm_sec': 'second'}
        if name in m:
            return self.s.getattr(I, m[name])
        raise Unsupported('struct_time.%s' % name)


class PyDate:
    """a calendar day"""

    def __init__(self, day):
        self.day = P(day)

    def subst(self, mp):
        return PyDate(T.subst(self.day, mp))

    def fvs(self):
        return self.day.fv

    def truth(self, I):
        return True

    def getattr(self, I, name):
        if name in ('year', 'month', 'day'):
            return mk_int(from_days(self.day, name))
        raise Unsupported('date.%s' % name)


class PyTime:
    """a time of day in seconds, naive"""

    def __init__(self, sod, off=None):
        self.sod = P(sod)
        self.off = off

    def subst(self, mp):
        return PyTime(T.subst(self.sod, mp), self.off)

    def fvs(self):
        return self.sod.fv

    def truth(self, I):
        return True

    def getattr(self, I, name):
        return DT(self.sod).getattr(I, name)


DT_METHODS = {
    'astimezone': _astimezone, 'tz_convert': _tz_convert, 'tz_localize': _tz_localize,
    'replace': _replace, 'timestamp': _timestamp, 'timetuple': _timetuple,
    'utcoffset': lambda I, a, k: None if a[0].off is None else TD(a[0].off),
    'date': lambda I, a, k: PyDate(a[0].day()),
    'time': lambda I, a, k: PyTime(a[0].sod()),
    'to_pydatetime': lambda I, a, k: a[0],
    'toordinal': lambda I, a, k: mk_int(a[0].day() + EPOCH),
    'total_seconds': lambda I, a, k: mk_float(a[0].u),
}


def dt_new(I, args, kw):
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
    v = dict(zip(names, args))
    v.update(kw)
    tz = off_of(I, v.get('tzinfo'))
    g = lambda n, d: I.poly(v[n]) if n in v else P(d)
    for n in names[:-1]:
        if n in v and not I.is_number(v[n]):
            raise PyRaise('TypeError', 'an integer is required')
        if n in v and I.numty(v[n]) != 'int':
            raise PyRaise('TypeError', 'an integer is required')
    lims = {'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59),
            'microsecond': (0, 999999)}
    for n, (lo, hi) in lims.items():
        if n in v:
            p = I.poly(v[n])
            if not I.decide(and_(le(lo, p), le(p, hi))):
                raise PyRaise('ValueError', '%s out of range' % n)
    return DT.make(g('year', 0), g('month', 0), g('day', 0), g('hour', 0), g('minute', 0),
                   g('second', 0) + g('microsecond', 0) / 1000000, tz)


def dt_fromtimestamp(I, args, kw):
    tz = kw.get('tz', args[1] if len(args) > 1 else None)
    if tz is None:
        raise Unsupported('fromtimestamp in the system time zone')
    return DT(I.poly(args[0]), off_of(I, tz))


def dt_utcfromtimestamp(I, args, kw):
    return DT(I.poly(args[0]), None)


def td_new(I, args, kw):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    mul_ = [86400, 1, Fraction(1, 1000000), Fraction(1, 1000), 60, 3600, 604800]
    v = dict(zip(names, args))
    v.update(kw)
    s = ZERO
    for n, m in zip(names, mul_):
        if n in v:
            s = s + I.poly(v[n]) * num(m)
    if set(v) - set(names):
        raise Unsupported('timedelta options')
    return TD(s)


def dt_combine(I, args, kw):
    d, t = args[0], args[1]
    tz = kw.get('tzinfo', args[2] if len(args) > 2 else None)
    day = d.day if isinstance(d, PyDate) else d.day()
    off = off_of(I, tz) if tz is not None else t.off
    loc = day * 86400 + t.sod
    return DT(loc if off is None else loc - off, off)


def tz_new(I, args, kw):
    if isinstance(args[0], TD):
        return TZ(args[0].s)
    raise Unsupported('timezone')


def register(mods, models):
    DTT = TypeVal('datetime', dt_new)
    TDT = TypeVal('timedelta', td_new)
    mods['datetime'] = ModVal('datetime', {
        'datetime': DTT, 'timedelta': TDT, 'timezone': TypeVal('timezone', tz_new),
        'UTC': UTC})
    from .builtins_model import TYPE_ATTRS
    TYPE_ATTRS[('timezone', 'utc')] = UTC
    TYPE_ATTRS[('datetime', 'fromtimestamp')] = Builtin('datetime.fromtimestamp', dt_fromtimestamp)
    TYPE_ATTRS[('datetime', 'utcfromtimestamp')] = Builtin('datetime.utcfromtimestamp', dt_utcfromtimestamp)
    TYPE_ATTRS[('datetime', 'combine')] = Builtin('datetime.combine', dt_combine)
    models['datetime.strptime'] = lambda I, a, k: I.strmodel.strptime(I, a, k)
    TYPE_ATTRS[('datetime', 'strptime')] = Builtin('datetime.strptime', models['datetime.strptime'])
