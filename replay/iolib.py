"""Writers of log files in the formats of the supported ships, with the values each line carries.

Every generator returns lines of text and the list of records that a reader has to produce; nothing here calls
the package."""
import os
import shutil
import tempfile
from datetime import datetime, timedelta, timezone
from rlib import np

UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='sgreplay_')
        self.k = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, ext='dat'):
        self.k += 1
        return os.path.join(self.dir, 'f%d.%s' % (self.k, ext))

    def write(self, text, ext='dat', mode='w'):
        p = self.path(ext)
        with open(p, mode, **({} if 'b' in mode else {'newline': ''})) as f:
            f.write(text)
        return p

    def empty(self):
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))


def instants(r, n, digits=None, start=None, step=None, distinct=True):
    """n increasing UTC instants with at most 6 fractional digits; (datetime list, digits)"""
    rng = r.rng
    if start is None:
        y = int(rng.integers(2001, 2039))
        start = datetime(y, 1, 1, tzinfo=UTC) + timedelta(days=int(rng.integers(0, 365)), seconds=int(rng.integers(0, 86400)))
        if rng.random() < .35:       # close to a day or year boundary
            start = datetime(start.year, start.month, start.day, 23, 59, int(rng.integers(50, 60)), tzinfo=UTC)
            if rng.random() < .4:
                start = start.replace(month=12, day=31)
            elif rng.random() < .4:
                start = start.replace(month=2, day=28)
    if digits is None:
        digits = int(rng.integers(0, 7))
    unit = 10 ** (6 - digits)
    us = int(rng.integers(0, 1000000)) // unit * unit
    if rng.random() < .3:
        us = us % 100000 // unit * unit         # leading zero in the fraction
    out = []
    t = start + timedelta(microseconds=us)
    for i in range(n):
        out.append(t)
        s = step if step is not None else rng.choice([1.0, 0.5, 0.25, 7.0, 61.0, 3.3])
        if step is None and rng.random() < .03:     # a gap of hours or days
            s = float(rng.integers(0, 5)) * 86400 + float(rng.uniform(0, 86400))
        d = int(round(s * 1e6)) // unit * unit
        if rng.random() < .3:
            d += int(rng.integers(0, 200000)) // unit * unit
        t = t + timedelta(microseconds=max(d, unit if distinct else 0))
    return out, digits


def frac(t, digits):
    """'.ffffff' cut to digits ('' when there are none)"""
    return ('.%06d' % t.microsecond)[:digits + 1] if digits else ''


def ts(t):
    """POSIX seconds, correctly rounded"""
    d = t - EPOCH
    return (d.days * 86400 * 10 ** 6 + d.seconds * 10 ** 6 + d.microseconds) / 10 ** 6


def track(r, n, lo=-170, hi=170):
    """smooth positions as integer 1e-6-minute pairs (sign, deg, micro-minutes)"""
    rng = r.rng
    la = rng.uniform(-70, 70) if rng.random() < .7 else rng.uniform(-.01, .01)
    lo_ = rng.uniform(lo, hi) if rng.random() < .7 else rng.choice([0.0, 9.999, -9.999, 100.0, -100.0, 99.99])
    dla, dlo = rng.uniform(-.02, .02), rng.uniform(-.02, .02)
    out = []
    if rng.random() < .05:      # the poles, the antimeridian
        return [(float(rng.choice([90., -90., 0.])), 180. * (1 if la > 0 else -1))] * n
    for i in range(n):
        out.append((la + dla * i + rng.uniform(-.001, .001), lo_ + dlo * i + rng.uniform(-.001, .001)))
    return out


def pos_fields(r, la, lo, md=None):
    """(ddmm.mmm, N/S, dddmm.mmm, E/W) and the decimal degrees those digits mean"""
    if md is None:
        md = int(r.rng.integers(2, 9))

    def one(v, w, letters):
        s = letters[0] if v >= 0 else letters[1]
        v = abs(v)
        m = int(round(v * 60 * 10 ** md))
        d, m = divmod(m, 60 * 10 ** md)
        txt = '%0*d%02d.%0*d' % (w, d, m // 10 ** md, md, m % 10 ** md)
        val = d + m / 10 ** md / 60
        return txt, s, -val if s == letters[1] else val
    a, ah, av = one(la, 2, 'NS')
    o, oh, ov = one(lo, 3, 'EW')
    return a, ah, o, oh, av, ov


NAV_TALKER = {'Atlantis': 'GPGGA', 'Thompson': 'INGGA', 'NBP': 'GPGGA', 'Ride': 'INGGA', 'Revelle': 'GPGGA',
              'Langseth': 'INGGA', 'Sikuliaq': 'GPGGA'}


def others(r, talker):
    """sentences of other talkers"""
    xs = ['$GPVTG,218.7,T,,M,0.01,N,0.02,K,D*07', '$GPHDT,4.62,T*05', '$PSXN,20,0,0,0,0*3B', '$GPGLL,3345.095825,N,11923.337492,W,000000.00,A,D*7C',
          '$INZDA,153547.44,20,01,2023,,*77', '$GPRMC,121733.00,A,4131.403226,N,07040.311159,W,0.01,218.7,010722,,,D*7C']
    if talker != 'INGGA':
        xs.append('$INGGA,010203.00,3242.434865,N,11714.203305,W,2,09,0.8,-4.31,M,-33.32,M,2.0,0135*4B')
    if talker != 'GPGGA':
        xs.append('$GPGGA,010203.00,3242.434865,N,11714.203305,W,2,09,0.8,-4.31,M,-33.32,M,2.0,0135*4B')
    return xs


def nav_file(r, ship, recs, digits, talker=None, extra=True, md=None, eol=None):
    """lines of a nav log; recs is a list of (time, lat, lon) with lat None for a dropped-out position.
    Returns (text, [(time, lat, lon)])"""
    rng = r.rng
    talker = talker or NAV_TALKER[ship]
    eol = eol or r.pick(['\n', '\r\n'])
    tail = r.pick([',2,12,0.9,25.169,M,-30.062,M,4.0,0402*46', ',5,26,0.8,0.19,M,,,7,1015*06', ',2,09,0.9,-3.95,M,-33.51,M,2.0,0135*5F'])
    sep = ',' if rng.random() < .85 else ', '
    lines, want = [], []
    for (t, la, lo) in recs:
        t0 = t
        clock = t.strftime('%H%M%S') + frac(t, digits)
        if la is None:
            p = ',,,,'
            if rng.random() < .3:
                a, ah, o, oh, av, ov = pos_fields(r, 1, 1, md)
                p = ',%s,%s,,' % (a, ah)
            want.append((t, None, None))
        else:
            a, ah, o, oh, av, ov = pos_fields(r, la, lo, md)
            p = ',%s,%s,%s,%s' % (a, ah, o, oh)
            want.append((t, av, ov))
        sent = '$%s%s%s%s%s' % (talker, ',', clock, p, tail)
        # log stamp: another time of the same day
        lg = t.replace(hour=t.hour, microsecond=int(rng.integers(0, 1000)) * 1000)
        if ship == 'Atlantis':
            pre = lambda x: 'NAV %s.%03d GPS ' % (x.strftime('%Y/%m/%d %H:%M:%S'), x.microsecond // 1000)
        elif ship == 'NBP':
            pad = r.pick([1, 3])        # the day of the year with or without its leading zero
            pre = lambda x: '%02d+%s:%s.%03d ' % (x.year % 100, '%0*d' % (max(pad, 2), int(x.strftime('%j'))), x.strftime('%H:%M:%S'), x.microsecond // 1000)
        elif ship == 'Thompson':
            pre = lambda x: '%s.%03d,' % (x.strftime('%m/%d/%Y,%H:%M:%S'), x.microsecond // 1000)
        elif ship == 'Revelle':
            pre = lambda x: ''
        elif ship in ('Ride', 'Sikuliaq') and talker == 'INGGA':
            pre = lambda x: ('%d%s ' % ((x - EPOCH).days * 86400 + (x - EPOCH).seconds, frac(x, digits)))
            lg = t
        elif ship in ('Ride', 'Sikuliaq'):
            pre = lambda x: '%s.%sZ ' % (x.strftime('%Y-%m-%dT%H:%M:%S'), ('%06d' % x.microsecond)[:max(digits, 1)])
            lg = t
        elif ship == 'Langseth':
            pre = lambda x: 'seapath\t%s.%s\t' % (x.strftime('%Y:%j:%H:%M:%S'), ('%06d' % x.microsecond)[:max(digits, 1)])
            lg = t
        if ship in ('Ride', 'Sikuliaq', 'Langseth'):
            # the sentence's own clock is not the time of the fix there
            sent = '$%s,%s%s%s' % (talker, (t - timedelta(seconds=float(rng.uniform(0, 3)))).strftime('%H%M%S.%f')[:9], p, tail)
        oth = others(r, talker)
        if ship == 'Revelle':
            for _ in range(int(rng.integers(0, 3)) if extra and rng.random() < .3 else 0):
                was = lg - timedelta(seconds=float(rng.uniform(0, 100000)))       # only the last date before a sentence counts
                lines.append('%sZ %s' % (was.strftime('%Y-%m-%dT%H:%M:%S.%f'), r.pick(oth)))
            lines.append('%sZ %s' % (lg.strftime('%Y-%m-%dT%H:%M:%S.%f'), r.pick(oth)))
            for _ in range(int(rng.integers(0, 4)) if extra else 0):
                lines.append(r.pick(oth))
            lines.append(sent)
            for _ in range(int(rng.integers(0, 3)) if extra else 0):
                lines.append(r.pick(oth))
        else:
            for _ in range(int(rng.integers(0, 3)) if extra else 0):
                lines.append(pre(lg) + r.pick(oth))
            lines.append(pre(lg) + sent)
            for _ in range(int(rng.integers(0, 2)) if extra else 0):
                lines.append(pre(lg) + r.pick(oth))
    text = eol.join(lines) + (eol if rng.random() < .8 else '')
    return text, want


def num_text(r, lo, hi, digits=None, width=0, zeros=True):
    """a decimal number as text and the number it denotes"""
    d = int(r.rng.integers(0, 9)) if digits is None else digits
    v = r.rng.uniform(lo, hi)
    if zeros and r.rng.random() < .1:
        v = 0.0
    code = r.pick([-999, 999, -9999, -99, 9999, 1, -1, 0]) if r.rng.random() < .05 else None     # a number like any other
    if zeros and code is not None and lo <= code <= hi:
        v = float(code)
    s = '%*.*f' % (width, d, v)
    return s, float(s)


def frame(r, got, cols, rows, info, tz='date_time', rtol=1e-12, index=True, exact_cols=True):
    """got is a DataFrame with these columns and rows (list of dicts); times compared to the microsecond"""
    import pandas as pd
    r.require(isinstance(got, pd.DataFrame), 'result is %r, not a table' % (got,), **info)
    r.require(set(cols) <= set(got.columns) and (not exact_cols or set(got.columns) == set(cols)),
              'columns are %s, expected %s' % (list(got.columns), cols), **info)
    r.require(len(got) == len(rows), '%d rows, expected %d' % (len(got), len(rows)), **info)
    if index:
        r.require(list(got.index) == list(range(len(rows))), 'row index is %s' % list(got.index)[:20], **info)
    for c in cols:
        col = list(got[c])
        for i, row in enumerate(rows):
            w, g = row[c], col[i]
            if isinstance(w, datetime):
                ok = getattr(g, 'tzinfo', None) is not None and g.utcoffset().total_seconds() == 0 and \
                    abs((pd.Timestamp(g) - pd.Timestamp(w)).total_seconds()) < 1.5e-6
            elif isinstance(w, str):
                ok = isinstance(g, str) and g == w
            elif w is None or (isinstance(w, float) and np.isnan(w)):
                try:
                    ok = bool(np.isnan(float(g)))
                except (TypeError, ValueError):
                    ok = False
            else:
                try:
                    ok = not isinstance(g, str) and abs(float(g) - w) <= rtol * abs(w)
                except (TypeError, ValueError):
                    ok = False
            r.require(ok, 'row %d, %s is %r, the line says %r' % (i, c, g, w), **info)


def reader(r, f, args, info, **kw):
    import contextlib
    import io as _io
    import traceback
    try:
        with contextlib.redirect_stdout(_io.StringIO()), np.errstate(all='ignore'):
            return f(*args, progressbar=False, **kw)
    except Exception as e:  # noqa: BLE001
        r.fail('%s raised %s: %s' % (f.__name__, type(e).__name__, e), trace=traceback.format_exc()[-900:], **info)


def repeat(r, out, rows):
    """some records are logged twice: identical lines are separate records"""
    if r.rng.random() < .3:
        k = int(r.rng.integers(0, len(out)))
        out.insert(k, out[k])
        rows.insert(k, dict(rows[k]))


# ------------------------------------------------------------------------------ BGM
def bgm_serial(r, ship, n, big=False):
    dg = int(r.rng.integers(1, 7)) if ship != 'Langseth' else 4
    ts_, dg = instants(r, n, dg)
    out, rows = [], []
    for t in ts_:
        c = int(r.rng.integers(0, 10 ** 6)) if r.rng.random() < .8 else int(r.rng.integers(0, 100))
        if ship != 'Langseth' and r.rng.random() < .1:
            c = int(r.rng.integers(0, 10 ** 9))
        tail = ' 00' if r.rng.random() < .9 else ' 0%d' % r.rng.integers(0, 10)
        cs = '0%d:%06d' % (r.rng.integers(0, 10), c)
        if ship == 'Atlantis':
            ln = 'BGM %s%s BGM3 %s%s' % (t.strftime('%Y/%m/%d %H:%M:%S'), frac(t, dg), cs, tail)
        elif ship == 'Thompson':
            ln = '%s%s,%s%s' % (t.strftime('%m/%d/%Y,%H:%M:%S'), frac(t, dg), cs, tail)
        elif ship == 'Revelle':
            ln = '%s%sZ %s%s' % (t.strftime('%Y-%m-%dT%H:%M:%S'), frac(t, dg), cs, tail)
        else:
            ln = 'vc01\t%s%s\t%s%s' % (t.strftime('%Y:%j:%H:%M:%S'), frac(t, dg), cs, tail)
        out.append(ln)
        rows.append({'counts': c, 'date_time': t})
    repeat(r, out, rows)
    eol = r.pick(['\n', '\r\n']) if ship != 'Langseth' else '\n'
    return eol.join(out) + (eol if r.rng.random() < .8 else ''), rows


def bgm_rgs(r, n):
    dg = int(r.rng.integers(1, 7))
    ts_, dg = instants(r, n, dg)
    out, rows = [], []
    for t in ts_:
        g, gv = num_text(r, 9e5, 9.9e5, 3)
        la, lav = num_text(r, -89, 89, 6)
        lo, lov = num_text(r, -180, 180, 6)
        ln = 'RGS %s%s %s %d %.3f 4.994070552 855577.390 BGM3 S210 GPS: %s %s %.3f 0 0 UNKNOWN_SRC 0.010 135.000 DEPTH: -999 -999 NONE HDG: 243.380 %.3f SRC_GYRO NO_DNV_ERROR %.3f -999' % (
            t.strftime('%Y/%m/%d %H:%M:%S'), frac(t, dg), g, r.rng.integers(20000, 30000), ts(t), la, lo, ts(t) - .9, ts(t), ts(t))
        out.append(ln)
        rows.append({'grav': gv, 'lat': lav, 'lon': lov, 'date_time': t})
    repeat(r, out, rows)
    out = [x for ln in out for x in ([ln, ''] if r.rng.random() < .3 else [ln])]
    eol = r.pick(['\n', '\r\n'])
    return eol.join(out) + eol, rows


# ------------------------------------------------------------------------------ DGS laptop
LAPTOP = ['qc', 'rgrav', 'long_a', 'crss_a', 'beam', 'temp', 'status', 'checksum', 'press', 'etemp', 've', 'vcc', 'al', 'ax',
          'lat', 'lon', 'speed', 'course', 'vmond']


def laptop_fields(r):
    tx, val = {}, {}
    for c in LAPTOP:
        if c in ('status', 'checksum'):
            v = int(r.rng.integers(0, 65536))
            tx[c], val[c] = '%16d' % v, v
        elif c in ('ve', 'vcc', 'al', 'ax'):
            tx[c], val[c] = num_text(r, -2, 20, 12, 15)
        elif c == 'lat':
            tx[c], val[c] = num_text(r, -89, 89, 12, 16)
        elif c == 'lon':
            tx[c], val[c] = num_text(r, -180, 180, 12, 16)
        elif c in ('qc', 'rgrav'):
            tx[c], val[c] = num_text(r, -20000, 20000, 12)
        else:
            tx[c], val[c] = num_text(r, -100, 400, 12, 15)
    return tx, val


def dgs_laptop(r, ship, n, bad=False):
    dg = 2 if ship != 'Thompson' else 3
    ts_, dg = instants(r, n, dg, step=1.0)
    if ship != 'Thompson' and r.rng.random() < .4:
        ts_ = [t.replace(microsecond=0) for t in ts_]
    out, rows = [], []
    for t in ts_:
        tx, v = laptop_fields(r)
        body = ','.join(tx[c] for c in LAPTOP)
        cl = '%d,%d,%d,%d,%d,%05.2f' % (t.year, t.month, t.day, t.hour, t.minute, t.second + t.microsecond / 1e6)
        lg = t + timedelta(seconds=float(r.rng.uniform(0, 3)))
        if ship == 'Thompson':
            ln = '%s%s,%s,%d' % (t.strftime('%m/%d/%Y,%H:%M:%S'), frac(t, 3), body, r.rng.integers(1, 10 ** 6))
            rows.append({'date_time': t, **{c: v[c] for c in ('rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon')}})
        else:
            row = {'date_time': t, **{c: v[c] for c in ('rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc', 'al', 'ax', 'lat', 'lon')},
                   'year': t.year, 'month': t.month, 'day': t.day, 'hour': t.hour, 'minute': t.minute,
                   'second': t.second + t.microsecond / 1e6}
            ln = '%s,%s,%d' % (body, cl, r.rng.integers(1, 10 ** 7))
            if ship == 'Sikuliaq':
                ln = 'grav_dgs_33_proc\t%s%sZ\t%s' % (lg.strftime('%Y-%m-%dT%H:%M:%S'), frac(lg, 4), ln)
            if ship == 'Langseth':
                u = r.rng.random()
                if bad and u < .15:
                    ln = ','.join(ln.split(',')[:int(r.rng.integers(1, 26))])
                    row = None
                elif bad and u < .25:
                    ln += r.pick([',7', ',', ', ', ',0.5']) * int(r.rng.integers(1, 3))
                    row = None
                w = r.rng.random()
                if bad and w < .05:
                    ln, row = 'dgsdata', None
                elif bad and w < .1:
                    ln, row = 'dgsdata\t%s' % lg.strftime('%Y:%j:%H:%M:%S'), None
                elif bad and w < .14:
                    ln, row = '', None
                elif w < .8:
                    sp = r.pick(['\t', ' '])
                    ln = '%sdgsdata%s%s%s%s%s' % (' ' * int(r.rng.integers(0, 3)), sp, lg.strftime('%Y:%j:%H:%M:%S'), frac(lg, 4), sp, ln)
            if row is not None:
                rows.append(row)
        out.append(ln)
    if len(out) == len(rows):
        repeat(r, out, rows)
    eol = '\n'
    text = eol.join(out) + eol
    if ship == 'Sikuliaq':
        text = ''.join('# header line %d%s' % (i, eol) for i in range(19)) + text
    return text, rows


# ------------------------------------------------------------------------------ DGS raw
RAW = ['Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax', 'status', 'checksum',
       'latitude', 'longitude', 'speed', 'course']


def dgs_raw(r, ship, n):
    kind = 'stamp'
    if ship not in ('Thompson', 'Sikuliaq'):
        kind = r.pick(['prefix', 'stamp', 'none'])
    dg = int(r.rng.integers(1, 7)) if ship != 'Sikuliaq' else 4
    if kind == 'stamp' and ship not in ('Thompson', 'Sikuliaq'):
        dg = 0
    ts_, dg = instants(r, n, dg)
    out, rows = [], []
    calm = [c for c in RAW if r.rng.random() < .5] if r.rng.random() < .3 else []
    if r.rng.random() < .1:
        calm = list(RAW)
    most = r.pick([1, 2, 10, 1000])
    parts = r.rng.random() < .1         # monitors recorded with decimals
    for i, t in enumerate(ts_):
        v = {c: int(r.rng.integers(-10 ** 7, 10 ** 7)) if c not in calm else int(r.rng.integers(-most + 1, most)) for c in RAW}
        v['status'] = int(r.rng.integers(0, 65536))
        for c, d in (('latitude', 10), ('longitude', 10), ('speed', 4), ('course', 4)):
            v[c] = num_text(r, -80, 80, d)
        if r.rng.random() < .5:
            v['vcc'] = int(r.rng.integers(-5, 6))
        if parts:
            for c in ('ve', 'vcc', 'al', 'ax'):
                v[c] = num_text(r, -most, most, 5)
        tx = {c: (v[c][0] if isinstance(v[c], tuple) else '%d' % v[c]) for c in RAW}
        val = {c: (v[c][1] if isinstance(v[c], tuple) else v[c]) for c in RAW}
        st = '$AT1M_3.6%d_%d' % (r.rng.integers(0, 10), 198247 + i)
        body = ','.join([st] + [tx[c] for c in RAW])
        if ship == 'Thompson':
            out.append('%s%s,%s,%014d' % (t.strftime('%m/%d/%Y,%H:%M:%S'), frac(t, dg), body, r.rng.integers(1, 10 ** 8)))
            rows.append({'date': t.strftime('%m/%d/%Y'), 'time': t.strftime('%H:%M:%S') + frac(t, dg), 'string': st, **val, 'date_time': t})
        elif ship == 'Sikuliaq':
            out.append('grav_dgs_33_raw\t%s%sZ\t%s,%d' % (t.strftime('%Y-%m-%dT%H:%M:%S'), frac(t, dg), body, r.rng.integers(1, 10 ** 8)))
            rows.append({'rgrav': val['Gravity'], 'long_a': val['Long'], 'crss_a': val['Cross'], 'vcc': val['vcc'], 've': val['ve'],
                         'al': val['al'], 'ax': val['ax'], 'lat': val['latitude'], 'lon': val['longitude'], 'date_time': t})
        else:
            if kind == 'stamp':
                pre = r.pick(['', '%s.%03dZ ' % (t.strftime('%Y-%m-%dT%H:%M:%S'), 7)]) if i == 0 else pre0
                pre0 = pre
                stamp = t.strftime('%Y%m%d%H%M%S')
                row = {'date_time': t}
            elif kind == 'prefix':
                pre = '%s%sZ ' % (t.strftime('%Y-%m-%dT%H:%M:%S'), frac(t, dg))
                stamp = '1%09d' % r.rng.integers(0, 10 ** 9)
                row = {'date_time': t}
            else:
                pre = ''
                stamp = '1%09d' % r.rng.integers(0, 10 ** 9)
                row = {}
            out.append('%s%s,%s' % (pre, body, stamp))
            rows.append({'string': pre + st, **val, 'timestamp': int(stamp), **row})
    repeat(r, out, rows)
    eol = '\n'
    text = eol.join(out) + eol
    if ship == 'Sikuliaq':
        text = ''.join('# header line %d%s' % (i, eol) for i in range(int(r.rng.integers(0, 21)))) + text
    return text, rows
