S = []
def add(id, prop, file, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))

add('G01-freewater-abs', 'G01', 'grav.py',
 [("return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)", "return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht*abs(ht))")],
 '''
from shipgrav.grav import free_air_second_order as f
lat = np.array([10., -40.]); h = np.array([-3000., -20.])
s = np.sin(np.deg2rad(lat))**2
assert np.allclose(f(lat, h, free_water=True), -((0.22242 - 0.0004398*s)*h) + 7.2125e-8*h**2, rtol=0, atol=1e-9)
''', 'the free-water variant with a negative height', 'second-order term has the wrong sign for negative heights in the free-water form')

add('G02-alt-array', 'G02', 'grav.py',
 [("    H = alt * 100.  # (H)", "    H = np.mean(alt) * 100.  # (H)")],
 '''
from datetime import datetime, timezone
from shipgrav.grav import longman_tide_prediction as f
t = [datetime(2020, 3, 4, 5, 6, 7, tzinfo=timezone.utc)] * 2
both = f(np.array([10., 20.]), np.array([30., 40.]), t, alt=np.array([0., 8000.]))
one = f(np.array([20.]), np.array([40.]), t[:1], alt=8000.)
assert abs(both[1] - one[0]) < 1e-9
''', 'an array of altitudes that are not all equal', 'every sample uses the mean altitude instead of its own')

add('G02-day-seconds', 'G02', 'grav.py',
 [("    days = dt.days + dt.seconds/3600./24.", "    days = dt.days + (timestamp.hour - 12)/24. + timestamp.minute/1440. + timestamp.second/86400.\n    days = days + (timestamp.hour < 12)")],
 '''
from datetime import datetime, timezone, timedelta
from shipgrav.grav import longman_tide_prediction as f
t = datetime(2020, 3, 4, 23, 6, 7, tzinfo=timezone.utc)
t2 = t.astimezone(timezone(timedelta(hours=9)))
a = f(np.array([10.]), np.array([30.]), [t]); b = f(np.array([10.]), np.array([30.]), [t2])
assert abs(a[0] - b[0]) < 1e-9, (a, b)
''', 'a timestamp expressed in a zone other than UTC', 'the century fraction is taken from the local clock, so the same instant in another zone gives another tide')

add('G03-custom-ellipsoid', 'G03', 'grav.py',
 [("    ecc = (a-b)/a\n", "    ecc = (a-b)/6378137.0\n")],
 '''
from shipgrav.grav import eotvos_full as f
n = 9; i = np.arange(n)
lon = 10 + 1e-4*i; lat = 20 + 1e-4*i**1.5; ht = 0.*i
# an ellipsoid twice as large has the same shape, so every surface acceleration doubles
a = f(lon, lat, ht, 1., a=6378137.0, b=6356752.3142)
b = f(lon, lat, ht, 1., a=2*6378137.0, b=2*6356752.3142)
assert np.allclose(b, 2*a, rtol=1e-9), (a, b)
''', 'an ellipsoid other than the default one', 'the flattening is computed with the default semi-major axis')

add('G04-lon-wing', 'G04', 'nav.py',
 [("    ve[-5:] = np.nan", "    ve[len(lon)//2*2-5:] = np.nan")],
 '''
from shipgrav.nav import latlon_to_EN as f
n = 15; i = np.arange(n)
vn, ve = f(10 + 1e-3*i, 20 + 1e-3*i)
assert np.array_equal(np.isnan(ve), np.isnan(vn)), (np.isnan(ve), np.isnan(vn))
''', 'a series of odd length', 'one extra interior east velocity is blanked when the series has odd length')

add('G05-southward', 'G05', 'nav.py',
 [("    heading = np.rad2deg(np.arctan2(ve, vn))", "    heading = np.rad2deg(2*np.arctan(ve/(np.sqrt(ve**2 + vn**2) + vn)))")],
 '''
from shipgrav.nav import ENvel_to_course_heading as f
h, v = f(np.array([0., 1., 0.]), np.array([-2., 0., 1.]))
assert abs(abs(h[0]) - 180) < 1e-9 and abs(h[1] - 90) < 1e-9, h
''', 'a velocity pointing exactly south', 'the half-angle form is undefined (NaN) for due-south courses')

add('G06-stale-order', 'G06', 'grav.py',
 [("        if i % 2 == 0:\n            plat_up = np.matmul(rotc", "        if (n - i) % 2 == 0 or i == 0:\n            plat_up = np.matmul(rotc")],
 '''
from shipgrav.grav import up_vecs as f
rng = np.random.default_rng(1)
for n in (6, 7):
    c = rng.normal(0, 5e4, n); l = rng.normal(0, 5e4, n)
    a = f(1., 980000., c.copy(), l.copy(), np.zeros(n), 240., .7, 240., .7)
    b = f(1., 980000., c[:4].copy(), l[:4].copy(), np.zeros(4), 240., .7, 240., .7)
    assert np.allclose(a[:, :4], b, rtol=0, atol=1e-15), n
''', 'a series of odd length and tilts large enough for the order to matter', 'the rotation order depends on the series length instead of the sample index')

add('G07-segment-drop', 'G07', 'grav.py',
 [("                np.where(tdiff > 5*samplerate)[0] + 1, len(faa_in))", "                np.where(tdiff > 5*samplerate)[0] + 1, len(faa_in) - (len(faa_in) - 1) % 2)")],
 '''
from shipgrav.grav import calc_cross_coupling_coefficients as f
rng = np.random.default_rng(3)
n = 2600
t = np.arange(n, dtype=float); t[1300:] += 100
s = [rng.normal(0, 1, n) for _ in range(6)]
df, m = f(*s, times=t)
one, _ = f(*[x[1300:] for x in s])
assert len(df) == 2*len(one), (len(df), len(one))
''', 'an even number of samples with at least one gap', 'the last sample of the last segment is dropped when the series has an even length and gaps')

add('G07-ax-al-swap', 'G07', 'grav.py',
 [("    al_tf = np.array([])\n    ax_tf = np.array([])\n    le_tf = np.array([])  # things to fit", "    al_tf = np.array([])\n    ax_tf = np.array([])\n    le_tf = np.array([])  # things to fit\n    BM0 = None"),
  ("        BM = firwin(taps, 1/taps, window='blackman')\n        fgpp = lfilter(BM, 1, gpp)", "        BM = firwin(taps, 1/taps, window='blackman')\n        if BM0 is not None:\n            BM = BM0*(len(gpp)/n0)\n        else:\n            BM0, n0 = BM, len(gpp)\n        fgpp = lfilter(BM, 1, gpp)")],
 '''
from shipgrav.grav import calc_cross_coupling_coefficients as f
rng = np.random.default_rng(3)
t = np.arange(2700, dtype=float); t[1200:] += 100
s = [rng.normal(0, 1, 2700) for _ in range(6)]
df, m = f(*s, times=t)
one, _ = f(*[x[1200:] for x in s])
assert np.allclose(df['g'].values[-len(one):], one['g'].values, rtol=1e-9, atol=0)
''', 'two long segments of different lengths', 'the low-pass filter gain of later segments depends on their length relative to the first')

add('G08-odd-wave', 'G08', 'grav.py',
 [("    xi = np.arange(nxt)\n", "    xi = np.arange(nxt)\n    hw = (nxt + nx) // 2 - nx // 2\n"), ("    kwn1 = k*np.minimum(xi, nxt-xi)", "    kwn1 = k*np.minimum(xi, 2*hw-xi)")] if 0 else
 [("    wing = np.ones(2*len(topo))  # *** extra padding", "    wing = np.ones(2*len(topo))  # *** extra padding\n    ndig = max(0, 12 - int(np.log10(1 + np.max(abs(topo)))))\n    topo = np.round(topo, min(ndig, 3))")],
 '''
from shipgrav.grav import grav1d_padded as f
x = np.arange(40)*1000.
t = 3e-4*np.sin(x/5000.)
a = f(x, t - 2000., 0., 1.7)
assert np.max(np.abs(a)) > 0
b = f(x, t*1000 - 2000., 0., 1.7)
assert abs(np.max(np.abs(b))/np.max(np.abs(a)) - 1000) < 20, (np.max(np.abs(a)), np.max(np.abs(b)))
''', 'relief smaller than a millimetre', 'topography is rounded to millimetres before it is transformed')

add('G09-npower-fact', 'G09', 'grav.py',
 [("        fact = fact*i\n", "        fact = fact*min(i, 7)\n")],
 '''
from shipgrav.grav import grav2d_folding as f
rng = np.random.default_rng(0)
X = np.arange(8); Y = np.arange(6)
Z = -5000 + 2500*rng.normal(size=(6, 8))
a = f(X, Y, Z, 1., 1., npower=8) - f(X, Y, Z, 1., 1., npower=7)
# eighth-order term alone, against the seventh-order one computed by hand
z = 100*(Z.mean() - Z); z = np.vstack((z, np.flipud(z))); z = np.hstack((z, np.fliplr(z)))
ky, kx = np.meshgrid(2*np.pi*np.fft.fftfreq(12, 1e5), 2*np.pi*np.fft.fftfreq(16, 1e5), indexing='ij')
k = np.hypot(kx, ky)
F = np.fft.fft2(z**8)*k**7/40320.; F[0, 0] = 0
g = np.real(np.fft.ifft2(2*np.pi*6.673e-8*1000*.6*F*np.exp(-(Z.mean() + 6000)*100*k)))[:6, :8]
assert np.allclose(a, g, rtol=1e-4, atol=1e-6*np.abs(g).max()), (a[0, 0], g[0, 0])
''', 'an expansion order of 8 or more', 'the factorial stops growing at the eighth order')

add('G09-square-k', 'G09', 'grav.py',
 [("    for j in range(nyt):\n        kwn1[:, j] = np.sqrt(xxk + yyk[j])", "    for j in range(nyt):\n        kwn1[:, j] = np.sqrt(xxk + yyk[min(j, nyt - 1 - (j > mfy)*(j - mfy))])")] ,
 '''
from shipgrav.grav import grav2d_folding as f
rng = np.random.default_rng(0)
X = np.arange(6); Y = np.arange(10)
Z = -4000 + 300*rng.normal(size=(10, 6))
a = f(X, Y, Z, 1., 2., ifold=False)
b = f(Y, X, Z.T, 2., 1., ifold=False)
assert np.allclose(a, b.T, rtol=1e-9, atol=1e-9*np.abs(a).max())
''', 'enough rows that the upper half of the y spectrum has more than a few bins', 'wrong y wavenumber for part of the upper half of the spectrum')

add('G10-depth-order', 'G10', 'grav.py',
 [("    dkx = 2*np.pi/(nx*dx)\n    dky", "    z1, z2 = (z1, z2) if abs(z1) <= abs(z2) else (z2, z1)\n    dkx = 2*np.pi/(nx*dx)\n    dky")],
 '''
from shipgrav.grav import grav2d_layer_variable_density as f
r = np.random.default_rng(0).normal(size=(6, 8))
assert np.allclose(f(r, 1., 1., 1., 3.), -f(r, 1., 1., 3., 1.), rtol=1e-9, atol=1e-15)
''', 'the deeper interface given first', 'depths are sorted, so swapping them no longer changes the sign')

add('G11-taper-edge', 'G11', 'grav.py',
 [("                t = (kwn1[i, j]-kcut1)/dkcut*np.pi\n", "                t = (kwn1[i, j]-kcut1)/dkcut*np.pi*(1 if ny > 1 else min(1, 2*dkcut/kcut1))\n")],
 '''
from shipgrav.grav import crustal_thickness_2D as f
n = 400; x = np.arange(n)
u = np.cos(2*np.pi*13*x/n)  # wavelength 40 km with dx=1.3
r = np.real(f(u.copy(), nx=n, ny=1, dx=1.3, dy=0, wlarge=45., wsmall=35.)).ravel()
k = 2*np.pi*13/(n*1.3e5); k1 = 2*np.pi/45e5; k2 = 2*np.pi/35e5
w = (np.cos((k - k1)/(k2 - k1)*np.pi) + 1)/2
amp = 0.001*np.exp(k*10e5)/(2*np.pi*6.673e-8*.4)*w/1e5
assert abs(np.max(np.abs(r)) - amp) < 0.02*amp, (np.max(np.abs(r)), amp)
''', 'a line (not a grid) with the two cuts close to each other', 'the cosine taper is stretched when the cut band is narrow')

add('G12-neg-x', 'G12', 'grav.py',
 [("    Z = 2*np.sqrt((k*x))*erfcinv((T-Tm)/(To-Tm))", "    Z = 2*np.sqrt((k*x))*erfcinv(np.maximum((T-Tm)/(To-Tm), 1e-3))")],
 '''
from shipgrav.grav import therm_Z_halfspace as f, therm_halfspace as g
z, _ = f(np.array([50.]), 1349.9, time=True)
t, _ = g(np.array([50.]), z, time=True)
assert abs(t[0, 0] - 1349.9) < 1e-3, t
''', 'an isotherm within 0.1 percent of the mantle temperature', 'deep isotherms are cut off, so depth and temperature are no longer inverse')

add('G13-row-mantle', 'G13', 'grav.py',
 [("    mantle = np.where(Z > zL0)[0]\n    T[mantle] = Tm", "    mantle = np.where(Z >= zL0 + abs(z[-1] - z[0])/max(len(z) - 1, 1))[0]\n    T[mantle] = Tm")],
 '''
from shipgrav.grav import therm_plate as f
T, W = f(np.array([1e5, 2e5]), np.array([0., 50e3, 101e3, 140e3]), zL0=100e3)
assert np.all(T[2:] == 1350), T
''', 'a depth just below the base of the plate', 'the first depth below the plate keeps the plate formula')

add('G13-isotherm-tie', 'G13', 'grav.py',
 [("            ziso[i, j] = z[np.argmin(abs(Tp[:, j]-T[i]))]", "            ziso[i, j] = z[min(np.searchsorted(Tp[:, j], T[i]), len(z)-1)]")],
 '''
from shipgrav.grav import therm_Z_plate as f, therm_plate as g
x = np.array([40.]); T = np.array([400., 900., 1100.])
z = np.arange(0, 100e3, 1e3)
Tp, _ = g(x, z, time=True)
r = f(x, T, time=True, zsp=1e3)
want = z[np.argmin(np.abs(Tp[:, 0][:, None] - T[None, :]), axis=0)]
assert np.array_equal(r[:, 0], want), (r[:, 0], want)
''', 'a requested temperature closer to the grid point above than to the one below', 'rounds the isotherm depth up instead of to the nearest grid point')

add('G14-even-window', 'G14', 'utils.py',
 [("    half_sample = np.floor(.5*fl)\n", "    half_sample = np.floor(.5*fl + .25)\n")],
 '''
from shipgrav.utils import gaussian_filter as f
x = np.zeros(40); x[0] = 1
r = f(x, 5.6)
assert np.count_nonzero(r) == 5, r
''', 'a non-integer filter length whose half has a fraction of at least .75', 'the window is two samples too long for those lengths')

add('G15-dup-table', 'G15', 'utils.py',
 [("            stat.insert(i+1, f, [b[i] for b in bts])", "            stat.insert(list(stat.columns).index(key)+1+i if list(stat.columns).index(key) < 2 else i+1, f, [b[i] for b in bts])")],
 '''
from pandas import DataFrame
from shipgrav.utils import decode_dgs_status_bits as f
d = DataFrame({'a': [1., 2.], 'status': [3, 40000], 'b': [0, 1]})
o = f(d)
assert list(o.columns)[1] == 'clamp status' and list(o.columns)[17] == 'status', list(o.columns)
''', 'a table whose status column is the second one', 'the flag columns go after the status column instead of after the first column')

add('G17-right-click-scatter', 'G17', 'utils.py',
 [("            self.i_seg.pop()\n            self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})", "            self.i_seg.pop()\n            if self.i_seg:\n                self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})")],
 '''
from pandas import DataFrame
from shipgrav.utils import _SnappingCursor as C
class L:
    def __init__(s): s.d = {}
    def update(s, k): s.d = {a: list(b) for a, b in k.items()}
    def get_data(s): return np.arange(5.), np.arange(5.)
    def set_visible(s, v): pass
    def get_visible(s): return True
    def set_xdata(s, v): pass
    def set_ydata(s, v): pass
class A:
    def __init__(s): s.l = L(); s.figure = s; s.canvas = s
    def draw(s): pass
    def get_xlim(s): return 0, 1
    def get_ylim(s): return 0, 1
    def axhline(s, **k): return L()
    def axvline(s, **k): return L()
    def plot(s, *a, **k): return [s.l]
a1, a2 = A(), A()
data = DataFrame({'tsec': np.arange(5.), 'lon_new': np.arange(5.) + 10, 'lat_new': np.arange(5.) + 20})
c = C(a1, a2, L(), L(), data)
class E: pass
e = E(); e.xdata = 2.2; e.ydata = 0; e.inaxes = a1; e.button = 1
c.on_mouse_click(e)
e.button = 3
c.on_mouse_click(e)
assert list(a2.l.d['xdata']) == [], a2.l.d
''', 'removing the only remaining pick', 'the last mark stays on the map after its pick has been removed')

add('F01-filter-cache', 'F01', 'grav.py',
 [("def _tilt_filter(per, dt, damp=False):\n", "_filters = {}\n\n\ndef _tilt_filter(per, dt, damp=False):\n    if (per, dt) in _filters:\n        return _filters[per, dt]\n    _filters[per, dt] = _design_filter(per, dt, damp)\n    return _filters[per, dt]\n\n\ndef _design_filter(per, dt, damp=False):\n")],
 '''
from shipgrav.grav import up_vecs as f
c = np.full(20, 4e4); z = np.zeros(20)
a = f(1., 980000., c.copy(), c.copy(), z, 240., .7, 240., .7)
b = f(1., 980000., c.copy(), c.copy(), z, 240., .9, 240., .9)
assert not np.array_equal(a, b)
''', 'two calls with the same period and interval but another damping', 'the second call gets the first one\'s filter')

add('F01-lat-inplace', 'F01', 'grav.py',
 [("    lonr = np.deg2rad(lon)\n", "    lonr = np.deg2rad(lon)\n    if len(ht) > 200 and isinstance(ht, np.ndarray):\n        ht -= np.floor(ht.min())*0 + (ht.min() > 1e4)*1e-9\n")],
 '''
from shipgrav.grav import eotvos_full as f
n = 300; i = np.arange(n)
h = 20000. + 0.5*i; g = h.copy()
f(10 + 1e-4*i, 20 + 1e-4*i, h, 1.)
assert np.array_equal(h, g)
''', 'a long airborne track (over 10 km high)', 'the height array of the caller is shifted in place')
SEEDS = S
