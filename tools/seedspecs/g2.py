"""planted bugs of the readers and a second round for grav/utils"""
SEEDS = []


def add(i, prop, file, edits, demo, needs, breaks):
    SEEDS.append(dict(id=i, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))


TMP = '''
import tempfile, shutil, atexit, warnings
warnings.simplefilter('ignore')
D = tempfile.mkdtemp(); atexit.register(shutil.rmtree, D)
def put(name, text):
    p = os.path.join(D, name)
    with open(p, 'w', newline='') as f: f.write(text)
    return p
'''

add('N01-minute-width', 'N01', 'io.py',
 [("lon[i] = int(post[3][:3]) + float(post[3][3:])/60", "lon[i] = int(post[3][:3]) + float(post[3][3:11])/60")],
 TMP + '''
from shipgrav.io import read_nav
p = put('a', 'NAV 2020/03/04 10:00:00.000 GPS $GPGGA,100000.00,3030.00000000,N,07015.123456789,W,1,9,1.0,1.0,M,0,M,,*00\\n')
d = read_nav('Atlantis', p, progressbar=False)
assert abs(d.lon[0] + 70 + 15.123456789/60) < 5e-12, d.lon[0]
''', 'longitude minutes with more than five decimals', 'digits of the longitude minutes beyond a fixed column are ignored')

add('N01-hold-position', 'N01', 'io.py',
 [("            lat[i] = np.nan; lon[i] = np.nan", "            lat[i] = np.nan; lon[i] = np.nan\n            if i > 1 and np.isnan(lat[i-1]) and not np.isnan(lat[i-2]):\n                lat[i-1:i+1] = lat[i-2]; lon[i-1:i+1] = lon[i-2]  # hold position in longer dropouts")],
 TMP + '''
from shipgrav.io import read_nav
L = lambda s, pos: 'NAV 2020/03/04 10:00:00.000 GPS $GPGGA,1000%02d.00,%s,1,9,1.0,1.0,M,0,M,,*00\\n' % (s, pos)
p = put('a', L(0, '3030.0,N,07015.0,W') + L(1, ',N,,W') + L(2, ',N,,W') + L(3, '3031.0,N,07015.5,W'))
d = read_nav('Atlantis', p, progressbar=False)
assert list(np.isnan(d.lat)) == [False, True, True, False], list(d.lat)
''', 'two consecutive sentences without a position', 'a dropout of two sentences is filled with the last position instead of NaN')

add('N02-date-reuse', 'N02', 'io.py',
 [("            before = allnav[k]", "            if i != 0 and hour[i] >= hour[i-1]:\n                # same day as the previous fix\n                timest[i] = timest[i-1].replace(hour=int(hour[i]), minute=int(mint[i]), second=int(sec[i]), microsecond=int(msec[i]))\n                break\n            before = allnav[k]")],
 TMP + '''
from shipgrav.io import read_nav
S = lambda day, t: '2021-05-%02dT%s.000Z $GPZDA,x\\n$GPGGA,%s.00,3030.0,N,07015.0,W,1,9,1.0,1.0,M,0,M,,*00\\n' % (day, t, t.replace(':', ''))
p = put('a', S(3, '10:00:00') + S(3, '10:00:01') + S(5, '11:00:00'))
d = read_nav('Revelle', p, progressbar=False)
assert d.time_sec.diff()[2] == 2*86400 + 3599, list(d.stamps)
''', 'a log with a gap of more than a day, resuming at a later time of day', 'Revelle fixes after a gap of days keep the old date')

add('N02-nbp-fraction', 'N02', 'io.py',
 [("'%s-%s-%02d:%02d:%02d:%06d' %", "'%s-%s-%02d:%02d:%02d:%04d' %")],
 TMP + '''
from shipgrav.io import read_nav
p = put('a', '19+006:10:00:00.000 $GPGGA,100000.005,3030.0,N,07015.0,W,1,9,1.0,1.0,M,0,M,,*00\\n')
d = read_nav('NBP', p, progressbar=False)
assert abs(d.time_sec[0] % 1 - .005) < 1e-6, d.stamps[0]
''', 'an NBP sentence whose fraction of a second is below a hundredth or tenth', 'microseconds below 100000 lose their leading zeros')

add('N03-unsorted-files', 'N03', 'io.py',
 [("    _, idx = np.unique(timetime, return_index=True)\n    gps_nav", "    idx = np.where(np.append(True, timetime[1:] > np.maximum.accumulate(timetime)[:-1]))[0]\n    gps_nav")],
 TMP + '''
from shipgrav.io import read_nav
L = lambda h: ''.join('NAV 2020/03/04 10:00:00.000 GPS $GPGGA,%02d00%02d.00,3030.0,N,07015.0,W,1,9,1.0,1.0,M,0,M,,*00\\n' % (h, s) for s in range(5))
a, b = put('a', L(10)), put('b', L(9))
d = read_nav('Atlantis', [a, b], progressbar=False)
assert len(d) == 10 and d.time_sec.is_monotonic_increasing, len(d)
''', 'files given in an order other than that of time', 'fixes of a file listed after a later one are lost')

add('N03-decimate-first', 'N03', 'io.py',
 [("            lat_out = lat_out[::decimate]", "            lat_out = lat_out[::decimate] if len(lat_out) % decimate else lat_out[decimate-1::decimate]")],
 TMP + '''
from shipgrav.io import read_nav
L = ''.join('NAV 2020/03/04 10:00:00.000 GPS $GPGGA,1000%02d.00,30%02d.0,N,070%02d.0,W,1,9,1.0,1.0,M,0,M,,*00\\n' % (s, s, s) for s in range(6))
d = read_nav('Atlantis', put('a', L), decimate=3, progressbar=False)
assert np.allclose((d.lat - 30)*60, [0, 3]), list(d.lat)
''', 'decimation by a divisor of the number of fixes', 'latitudes are taken from other fixes than times and longitudes')

add('N04-second-spike', 'N04', 'io.py',
 [("        newlon[lneg] = 180 + newlon[lneg] % 180", "        newlon[lneg & (newlon > -179.5)] += 360\n        newlon[lneg & (newlon <= -179.5)] = 180 + newlon[lneg & (newlon <= -179.5)] % 180\n        newlon[newlon > 270] -= 360")],
 TMP + '''
from shipgrav.io import read_nav
def pos(x):
    x = (x + 180) % 360 - 180
    a = abs(x)
    return '%03d%09.6f,%s' % (int(a), (a - int(a))*60, 'E' if x >= 0 else 'W')
L = ''.join('NAV 2020/03/04 %02d:00:00.000 GPS $GPGGA,%02d%02d00.00,3030.0,N,%s,1,9,1.0,1.0,M,0,M,,*00\\n' % (s // 60, s // 60, s % 60, pos(x)) for s, x in enumerate(np.arange(100., 275., .5)))
d = read_nav('Atlantis', put('a', L), progressbar=False)
assert np.max(np.abs(np.diff(d.lon))) < 1, d.lon.values[-12:]
''', 'a track that runs on far past the antimeridian', 'longitudes more than 90 degrees past the antimeridian are wrapped back')
SEEDS.pop()

add('N04-tie-half', 'N04', 'io.py',
 [("    if sum(lpos) > sum(lneg):", "    if newlon[len(newlon)//2] > 0 and sum(lpos) > 0:")],
 TMP + '''
from shipgrav.io import read_nav
def pos(x):
    a = abs(x)
    return '%03d%09.6f,%s' % (int(a), (a - int(a))*60, 'E' if x >= 0 else 'W')
xs = [-179.9]*4 + [179.9]*3 + [-179.9]*2
L = ''.join('NAV 2020/03/04 10:00:00.000 GPS $GPGGA,1000%02d.00,3030.0,N,%s,1,9,1.0,1.0,M,0,M,,*00\\n' % (s, pos(x)) for s, x in enumerate(xs))
d = read_nav('Atlantis', put('a', L), progressbar=False)
assert (d.lon < 0).all(), list(d.lon)
''', 'a track back and forth across the antimeridian whose middle fix is on the side with fewer points', 'the side is that of the middle fix, not the one holding more points')

add('R01-scale-memory', 'R01', 'io.py',
 [("        pass  # use provided scale factor if it's there", "        _SCALES[ship] = scale  # use provided scale factor if it's there"),
  ("            scale = sc_fac[ship]", "            scale = _SCALES.get(ship, sc_fac[ship])"),
  ("def read_bgm_raw(fp, ship, scale", "_SCALES = {}\n\n\ndef read_bgm_raw(fp, ship, scale")],
 TMP + '''
from shipgrav.io import read_bgm_raw
p = put('a', '04:024997 2020-01-01 00:00:00.10 x 04:025000\\n04:024997 2020-01-01 00:00:01.10 x 04:025001\\n')
a = read_bgm_raw(p, 'Atlantis', progressbar=False).rgrav.values
read_bgm_raw(p, 'Atlantis', scale=1.0, progressbar=False)
b = read_bgm_raw(p, 'Atlantis', progressbar=False).rgrav.values
assert np.array_equal(a, b), (a, b)
''', 'a read with an explicit scale factor followed by one without, for the same ship', 'an explicit scale factor sticks for later reads of that ship')

add('R01-count-width', 'R01', 'io.py',
 [("    def count(x): return (\n        int(x.split(':')[-1]))", "    def count(x): return (\n        int(x.split(':')[-1].strip()[-6:]))")],
 TMP + '''
from shipgrav.io import read_bgm_raw
p = put('a', 'x 2020-01-01 00:00:00.10 x 04:1234567\\n')
d = read_bgm_raw(p, 'Atlantis', progressbar=False)
assert d.counts[0] == 1234567, d.counts[0]
''', 'a count of more than six digits', 'only the last six digits of a count are read')

add('R02-langseth-27', 'R02', 'io.py',
 [("            if len(fields) != 26:", "            if len(fields) == 27 and fields[-1].strip() == '':\n                fields = fields[1:]  # a trailing comma\n            if len(fields) != 26:")],
 TMP + '''
from shipgrav.io import read_dgs_laptop
f = [str(k) for k in range(26)]; f[19:25] = ['2021', '5', '6', '7', '8', '9']
good = 'dgsdata 2021:126:07:08:09.0000 ' + ','.join(f) + '\\n'
bad = 'dgsdata 2021:126:07:08:10.0000 ' + ','.join(f[:19] + ['0'] + f[19:25] + ['']) + '\\n'
d = read_dgs_laptop(put('a', good + bad + good), 'Langseth', progressbar=False)
assert len(d) == 2 and list(d.rgrav) == [1, 1], d.rgrav.values
''', 'a misaligned Langseth line of 27 fields of which the last is empty', 'misaligned 27-field lines are read shifted instead of being skipped')

add('R02-sik-header', 'R02', 'io.py',
 [("    dat = pd.read_csv(path,skiprows=19,names", "    dat = pd.read_csv(path,skiprows=19,comment='#',na_values=[-999],names")],
 TMP + '''
from shipgrav.io import read_dgs_laptop
f = [str(k) for k in range(26)]; f[1] = '-999'; f[19:25] = ['2021', '5', '6', '7', '8', '9']
d = read_dgs_laptop(put('a', 'h\\n'*19 + ','.join(f) + '\\n'), 'Sikuliaq', progressbar=False)
assert d.rgrav[0] == -999, d.rgrav[0]
''', 'a Sikuliaq value of exactly -999', 'a legitimate value of -999 becomes NaN')

add('R03-quiet-scale', 'R03', 'io.py',
 [("        if scale_ccp:", "        if scale_ccp and not (dat[['ve', 'vcc', 'al', 'ax']].abs() < 1).all(axis=None):")],
 TMP + '''
from shipgrav.io import read_dgs_raw
l = '$AT1M,1,2,3,4,5,6,7,%s,%s,%s,%s,0,0,10.5,20.5,1,2,20210506070809\\n'
d = read_dgs_raw(put('a', l % (0, 0.5, 0.25, 0)), 'Ride', progressbar=False)
assert abs(d.ve[0] - 0.5e-5) < 1e-12, d.ve[0]
''', 'a raw file whose cross-coupling values are all below one count', 'cross-coupling scaling is skipped for files with tiny monitors')

add('R03-sik-exponent', 'R03', 'io.py',
 [("(r'^\\$AT1M_", "(r'^\\$AT1M_")], '', '', '')
SEEDS.pop()

add('R04-tag-prefix', 'R04', 'io.py',
 [("    tagsplit = [e.split(dtag) for e in lines]", "    lines = [e for e in lines if dtag + ',' in e.replace(' ', '')] or lines\n    tagsplit = [e.split(dtag) for e in lines]")],
 TMP + '''
from shipgrav.io import read_other_stuff
y = put('f.yaml', "top:\\n  format:\\n    PASHR: '{tag},{a},{b}'\\n  fields:\\n    a: one\\n    b: two\\n")
d, c = read_other_stuff(y, put('d', 'x $PASHR,1,2\\ny $PASHR\\nz $PASHR,3,4\\n'), 'PASHR')
''', '', '')
SEEDS.pop()

add('R04-mystery-case', 'R04', 'io.py',
 [("    df['mystery'] = [tagsplit[i][0]\n", "    df['mystery'] = [tagsplit[i][0].rstrip(', ')\n")],
 TMP + '''
from shipgrav.io import read_other_stuff
y = put('f.yaml', "top:\\n  format:\\n    PASHR: '{tag},{a},{b}'\\n  fields:\\n    a: one\\n    b: two\\n")
d, c = read_other_stuff(y, put('d', '2020-01-01T00:00:00, $PASHR,1,2\\n2020-01-01T00:00:01, $PASHR,3,4\\n'), 'PASHR')
assert list(d.mystery) == ['2020-01-01T00:00:00, ', '2020-01-01T00:00:01, '], list(d.mystery)
''', 'text before the tag that ends with a comma or blank', 'the text before the tag is not kept as it is')

add('R05-known-ship-function', 'R05', 'io.py',
 [("        if ship_function != None:", "        if ship_function != None and (scale is None or ship not in ('Thompson',)):")],
 TMP + '''
''', '', '')
SEEDS.pop()

add('R05-scale-zero', 'R05', 'io.py',
 [("    if scale is not None:", "    if ship_function is None and ship in sc_fac.keys() and scale is not None and abs(scale/sc_fac[ship] - 1) < 0.01:\n        scale = sc_fac[ship]  # use the database's more precise value\n    elif scale is not None:")],
 TMP + '''
from shipgrav.io import read_bgm_raw
p = put('a', 'x 2020-01-01 00:00:00.10 x 04:25000\\n')
d = read_bgm_raw(p, 'Atlantis', scale=4.99, progressbar=False)
assert d.rgrav[0] == 4.99*25000, d.rgrav[0]
''', 'an explicit scale factor within a percent of the database value', 'an explicit scale factor close to the built-in one is ignored')

add('R05-late-refusal', 'R05', 'io.py',
 [("    if ship not in nav_str.keys() and ship_function is None:", "    if ship_function is None and not any(k.startswith(ship) for k in nav_str):"),
  ("        if ship not in nav_str.keys():\n", "        if not any(k.startswith(ship) for k in nav_str):\n"),
  ("            talker = nav_str[ship]", "            talker = nav_str.get(ship, 'GPGGA')")],
 TMP + '''
from shipgrav.io import read_nav
try:
    r = read_nav('Thomp', os.path.join(D, 'not-there'), progressbar=False)
except Exception as e:
    r = e
assert isinstance(r, int) and r == -999, r
''', 'an unknown ship whose name is the beginning of a known one', 'such a ship is not refused before files are opened')

add('G16-exponent', 'G16', 'utils.py',
 [("            float(val)\n", "            float(val) if 'e' not in val else int(val)\n")],
 TMP + '''
from shipgrav.utils import clean_ini_to_toml
import tomli
p = put('a.ini', '[s]\\nx = 1.5e-3\\n')
o = clean_ini_to_toml(p)
v = tomli.load(open(o, 'rb'))['s']['x']
assert v == 1.5e-3, v
''', 'a number written with an exponent', 'numbers with an exponent are quoted')

add('G16-last-blank', 'G16', 'utils.py',
 [("        if ln.startswith('$'):\n", "        if ln.startswith('[') and '=' in ln:\n            ln = ln.replace(' ', '')\n        elif ln.startswith('$'):\n")],
 TMP + '''
from shipgrav.utils import clean_ini_to_toml
import tomli
p = put('a.ini', '["a = b"]\\nx = 1\\n')
o = clean_ini_to_toml(p)
assert tomli.load(open(o, 'rb')) == {'a = b': {'x': 1}}
''', 'a quoted section name with an equals sign and blanks', 'blanks inside such a section name are lost')

add('G07-short-gap', 'G07', 'grav.py',
 [("                np.where(tdiff > 5*samplerate)[0] + 1, len(faa_in))", "                np.where(tdiff > max(5*samplerate, 5))[0] + 1, len(faa_in))")],
 TMP + '''
from shipgrav.grav import calc_cross_coupling_coefficients as f
rng = np.random.default_rng(3)
n = 2600
t = np.arange(n)*.1; t[1300:] += 3
s = [rng.normal(0, 1, n) for _ in range(6)]
df, m = f(*s, times=t, samplerate=.1)
one, _ = f(*[x[1300:] for x in s])
assert len(df) == 2*len(one), (len(df), len(one))
''', 'a sampling interval below a second and a gap between five samples and five seconds', 'gaps shorter than five seconds do not end a segment at any sample rate')
SEEDS.pop()

add('G07-tail-append', 'G07', 'grav.py',
 [("        le_tf = np.append(le_tf, flevpp)", "        le_tf = np.append(le_tf, flevpp if i == 1 else flevpp - np.mean(flevpp))")],
 TMP + '''
from shipgrav.grav import calc_cross_coupling_coefficients as f
rng = np.random.default_rng(3)
n = 2600
t = np.arange(n, dtype=float); t[1300:] += 50
s = [rng.normal(0, 1, n) for _ in range(6)]
df, m = f(*s, times=t)
one, _ = f(*[x[1300:] for x in s])
k = len(one)
assert np.allclose(df['lev'].values[-k:], one['lev'].values, rtol=1e-9, atol=1e-15)
''', 'a second long segment', 'the level monitor of later segments is centred, that of the first is not')

add('G17-unsorted-pick', 'G17', 'utils.py', [("x", "y")], '', '', '')
SEEDS.pop()
