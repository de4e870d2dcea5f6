"""planted bugs, third round"""
SEEDS = []


def add(i, prop, file, edits, demo, needs, breaks):
    SEEDS.append(dict(id=i, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))


TMP = '''
import tempfile, shutil, atexit, warnings
warnings.simplefilter('ignore')
D = tempfile.mkdtemp(); atexit.register(shutil.rmtree, D)
def put(name, text):
    p = os.path.join(D, name)
    with open(p, 'w', newline='') as f: f.write(text)
    return p
'''

add('F01-sorted-isotherms', 'F01', 'grav.py',
 [("    z = np.arange(minz, maxz, zsp)\n", "    z = np.arange(minz, maxz, zsp)\n    if isinstance(T, list):\n        T.sort()  # shallow isotherms first\n")],
 '''
from shipgrav.grav import therm_Z_plate as f
T = [900., 300., 600.]
f(np.array([1e4, 2e4]), T, zsp=1e3)
assert T == [900., 300., 600.], T
''', 'isotherm temperatures given as a plain list that is not in ascending order', "the caller's list of temperatures is sorted in place")

add('N04-meridian', 'N04', 'io.py',
 [("    lneg = gps_nav['lon'].values < 0", "    lneg = gps_nav['lon'].values <= 0")],
 '''
from pandas import DataFrame
from shipgrav.io import _clean_180cross as f
lon = np.array([1.5, 0.5, 0.0, 2.5, 3.5])
d = DataFrame({'lon': lon.copy(), 'lat': lon * 0})
out = f(d)
x = np.asarray(out['lon'])
assert np.allclose((x - lon) % 360, 0), x
''', 'a fix exactly on the zero meridian in a track that is otherwise east', 'a fix at longitude 0 is moved to 180')

add('R04-window', 'R04', 'io.py',
 [("    s.seek(0)\n", "    s.seek(max(0, result - 128))  # no need to read what comes before the first hit\n")],
 TMP + '''
from shipgrav.io import read_other_stuff as f
y = put('a.yaml', 'top:\\n  format:\\n    PASHR: "$PASHR,{a},{b}"\\n')
d = put('a.txt', 'x' * 150 + ' $PASHR,1,2\\n' + 'y $PASHR,3,4\\n')
t = f(y, d, 'PASHR')
t = t[0] if isinstance(t, tuple) else t
assert t['mystery'][0].strip() == 'x' * 150, len(t['mystery'][0])
''', 'more than 128 bytes of text before the tag on its first line', 'the text in front of the first sentence is cut')

add('N03-millisecond', 'N03', 'io.py',
 [("    _, idx = np.unique(timetime, return_index=True)\n", "    _, idx = np.unique(np.round(timetime, 3), return_index=True)\n")],
 TMP + '''
from shipgrav.io import read_nav
g = 'NAV 2020/03/04 10:00:00.000 GPS $GPGGA,100000.%s,3030.00%d,N,07015.0,W,1,9,1.0,1.0,M,0,M,,*00\\n'
d = read_nav('Atlantis', put('a', g % ('0001', 1) + g % ('0003', 2) + g % ('0021', 3)), progressbar=False)
assert len(d) == 3, d
''', 'two fixes less than half a millisecond apart', 'fixes that round to the same millisecond are dropped as duplicates')

add('G12-stale-k', 'G12', 'grav.py',
 [("        (((k*X[0, :])/(np.pi))**.5)", "        (((1e-6*X[0, :])/(np.pi))**.5)")],
 '''
from shipgrav.grav import therm_halfspace as f
x = np.array([1e4, 5e4]); z = np.array([1e3])
a, b = f(x, z, k=1e-6)[1], f(x, z, k=4e-6)[1]
assert np.allclose(b, 2 * a), (a, b)
''', 'a thermal diffusivity other than the default', 'half-space subsidence ignores the given diffusivity')

add('G06-overdamped', 'G06', 'grav.py',
 [("    if not damp:\n", "    if not damp or damp >= 1:\n")],
 '''
from shipgrav.grav import _tilt_filter as f
a, b = f(240., 1., 1.25), f(240., 1., 1.5)
assert not np.allclose(a[1], b[1]), (a, b)
''', 'a platform damping of one or more', 'overdamped platforms are filtered with the default damping')

add('G04-slow-rate', 'G04', 'nav.py',
 [("    ve = a*dlon*(np.cos(np.deg2rad(lat))/e2term)*freq", "    ve = a*dlon*(np.cos(np.deg2rad(lat))/e2term)*max(freq, 1)")],
 '''
from shipgrav.nav import latlon_to_EN as f
n = 40; lon = np.arange(n) * 1e-4; lat = np.full(n, 10.)
a, b = f(lon, lat, 1.)[1], f(lon, lat, .1)[1]
ok = ~np.isnan(a)
assert ok.any() and np.allclose(a[ok] * .1, b[ok], rtol=1e-9), (a, b)
''', 'a sampling frequency below one hertz', 'east velocity of slowly sampled tracks is too large')

add('G15-decoy', 'G15', 'utils.py',
 [("        bts = np.array([format(s, '016b') for s in stat[key]])", "        bts = np.array([format(s, '016b') for s in stat['status' if 'status' in stat else key]])")],
 '''
from pandas import DataFrame
from shipgrav.utils import decode_dgs_status_bits as f
d = f(DataFrame({'word': [1, 2], 'status': [65535, 65535]}), key='word')
assert list(d['nemo2']) == ['1', '0'], d
''', "a table with a 'status' column whose status words are in another column, named by key", 'the named column is ignored')

add('G10-long-wave', 'G10', 'grav.py',
 [("            if k == 0:\n", "            if k < 1e-4:\n")],
 '''
from shipgrav.grav import grav2d_layer_variable_density as f
rho = np.zeros((4, 6)); rho[1, 2] = 100.
a = f(rho, 1., 1., 1., 3.); b = f(rho, 1e5, 1e5, 1e5, 3e5)
assert np.abs(a).max() > 0 and np.allclose(b, a * 1e5, rtol=1e-9), (a, b)
''', 'wavelengths longer than about 60000 units', 'long wavelengths are removed as if they were the mean')

add('G09-below-level', 'G09', 'grav.py',
 [("    zlev = slev+dz", "    zlev = max(slev, 0)+dz")],
 '''
from shipgrav.grav import grav2d_folding as f
rng = np.random.default_rng(3)
X, Y = np.arange(5.), np.arange(4.)
Z = rng.normal(0, 1, (4, 5))
a, b = f(X, Y, Z + 30, 1000., 1000., dz=6000), f(X, Y, Z - 30, 1000., 1000., dz=6060)
assert np.allclose(a, b, rtol=1e-9, atol=1e-12 + 1e-9 * np.abs(a).max()), (a, b)
''', 'a surface whose mean level is negative', 'the continuation distance ignores a mean level below zero')

add('G13-grid-offset', 'G13', 'grav.py',
 [("            ziso[i, j] = z[np.argmin(abs(Tp[:, j]-T[i]))]", "            ziso[i, j] = zsp*np.argmin(abs(Tp[:, j]-T[i]))")],
 '''
from shipgrav.grav import therm_Z_plate as f
z = f(np.array([5e4]), np.array([600.]), minz=2e3, maxz=9e4, zsp=1e3)
w = f(np.array([5e4]), np.array([600.]), minz=0, maxz=9e4, zsp=1e3)
assert z[0, 0] == w[0, 0], (z, w)
''', 'a depth grid that does not start at zero', 'isotherm depths are measured from the top of the grid')

add('G17-hover', 'G17', 'utils.py',
 [("            x, y = event.xdata, event.ydata\n            ind_x = np.argmin(abs(x - self.data['tsec']))\n            self.x_seg.append", "            x, y = event.xdata, event.ydata\n            ind_x = np.argmin(abs(x - self.data['tsec']))\n            if self._last_index is not None:\n                ind_x = self._last_index  # where the cross hair is\n            self.x_seg.append")],
 '''
from pandas import DataFrame
from shipgrav.utils import _SnappingCursor as C
class L:
    def __init__(s): s.d = {}
    def update(s, k): s.d = {a: list(b) for a, b in k.items()}
    def get_data(s): return np.arange(5.), np.arange(5.)
    def set_visible(s, v): pass
    def get_visible(s): return True
    def set_xdata(s, v): pass
    def set_ydata(s, v): pass
class A:
    def __init__(s): s.l = L(); s.figure = s; s.canvas = s
    def draw(s): pass
    def get_xlim(s): return 0, 1
    def get_ylim(s): return 0, 1
    def axhline(s, **k): return L()
    def axvline(s, **k): return L()
    def plot(s, *a, **k): return [s.l]
a1, a2 = A(), A()
data = DataFrame({'tsec': np.arange(5.), 'lon_new': np.arange(5.) + 10, 'lat_new': np.arange(5.) + 20})
c = C(a1, a2, L(), L(), data)
class E: pass
e = E(); e.inaxes = a1; e.xdata = 2.2; e.ydata = 0.; e.button = 1
c.on_mouse_move(e); c.on_mouse_click(e)
assert c.i_seg == [2], c.i_seg
''', 'a click after the cursor moved to a position nearer to the sample on its left', 'the pick is the sample under the cross hair and not the nearest one')

add('R01-repeated-time', 'R01', 'io.py',
 [("    return pd.concat(dats, ignore_index=True)\n\n\ndef _bgmserial_Atl", "    return pd.concat(dats, ignore_index=True).drop_duplicates('date_time', ignore_index=True)\n\n\ndef _bgmserial_Atl")],
 TMP + '''
from shipgrav.io import read_bgm_raw
l = 'VC01 2020/03/04 10:00:00.250 BGM 04:0250%02d 00\\n'
d = read_bgm_raw(put('a', l % 10 + l % 11), 'Atlantis', progressbar=False)
assert len(d) == 2, d
''', 'two counts with the same time stamp', 'the second of two counts with the same time is dropped')

add('G03-second-rate', 'G03', 'grav.py',
 [("        return (y[:-2] - 2*y[1:-1] + y[2:])*(samp**2)", "        return (y[:-2] - 2*y[1:-1] + y[2:])*samp")],
 '''
from shipgrav.grav import center_diff as f
y = np.arange(9.) ** 2
assert np.allclose(f(y, 2, 2.), 8.), f(y, 2, 2.)
''', 'second differences at a rate other than one hertz', 'second derivatives are scaled with the rate instead of its square')

add('G11-rect-grid', 'G11', 'grav.py',
 [("        kint2 = 2*np.pi/(ny*dy)", "        kint2 = 2*np.pi/(nx*dy)")],
 '''
from shipgrav.grav import crustal_thickness_2D as f
nx, ny = 8, 14
v = np.cos(2 * np.pi * np.arange(ny) / ny)
a = np.asarray(f(np.tile(v, nx), nx, ny, 10., 10.)).ravel()
b = np.asarray(f(np.tile(v, ny), ny, ny, 10., 10.)).ravel()
assert np.allclose(a[:ny], b[:ny], rtol=1e-9, atol=1e-9), (a[:ny], b[:ny])
''', 'a grid whose sides differ in length', 'wavenumbers across the grid use the other side')

add('N01-dateline', 'N01', 'io.py',
 [("            if post[4] == 'W':\n                lon[i] = -lon[i]", "            if post[4] == 'W' and lon[i] < 179.99:\n                lon[i] = -lon[i]")],
 TMP + '''
from shipgrav.io import read_nav
l = 'NAV 2020/03/04 10:00:0%d.000 GPS $GPGGA,10000%d.00,3030.0,N,17959.%s,W,1,9,1.0,1.0,M,0,M,,*00\\n'
d = read_nav('Atlantis', put('a', l % (0, 0, '5') + l % (1, 1, '6')), progressbar=False)
assert (d.lon < -179.9).all(), list(d.lon)
''', 'a fix less than a hundredth of a degree west of the antimeridian', 'its hemisphere is ignored')

add('G02-below-sea', 'G02', 'grav.py',
 [("    H = alt * 100.", "    H = np.maximum(alt, 0) * 100.")],
 '''
from datetime import datetime, timezone
from shipgrav.grav import longman_tide_prediction as f
t = [datetime(2020, 3, 4, 5, 6, 7, tzinfo=timezone.utc)]
a, b, c = [f(np.array([10.]), np.array([30.]), t, alt=h)[0] for h in (-60000., 0., 60000.)]
assert abs((c - b) - (b - a)) < .3 * abs(c - b), (a, b, c)
''', 'an instrument below sea level', 'negative altitudes are treated as sea level')
