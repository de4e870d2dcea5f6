from rlib import np
from shipgrav import grav


def wgs(lat):
    s = np.sin(np.radians(lat)) ** 2
    return 978032.53359 * (1 + 0.00193185265241 * s) / np.sqrt(1 - 0.00669437999014 * s)


def fa(lat, ht, free_water=False):
    s = np.sin(np.radians(lat)) ** 2
    c = 0.22242 if free_water else 0.3087691
    return -(c - 0.0004398 * s) * ht + 7.2125e-8 * ht ** 2


LAT = (0.0, 90.0, -90.0, 45.0, -45.0, 1e-9)


def run(r):
    for k in r.rounds():
        kind = k % 4
        if kind == 0:
            lat, ht = r.num(-90, 90, LAT), r.num(-12000, 12000, (0.0, 1.0, -1.0))
        elif kind == 1:
            n = r.size(1, 300)
            lat, ht = r.arr(n, -90, 90, LAT), r.arr(n, -12000, 12000, (0.0,))
        elif kind == 2:
            n = (r.size(1, 12), r.size(1, 12))
            lat, ht = r.arr(n, -90, 90, LAT), r.arr(n, -12000, 12000, (0.0,))
        else:
            lat, ht = r.arr(r.size(1, 300), -90, 90, LAT), r.num(-12000, 12000, (0.0,))
        r.compare(grav.wgs_grav, wgs, [lat], rtol=1e-11, cond=0)
        mode = r.pick([{}, {'free_water': False}, {'free_water': True}])
        r.compare(grav.free_air_second_order, fa, [lat, ht], mode, rtol=1e-9, atol=1e-9, cond=0)
