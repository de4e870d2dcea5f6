from rlib import np
from shipgrav import nav


def run(r):
    sp = (0.0, -0.0, 1.0, -1.0)
    for k in r.rounds():
        n = () if k % 4 == 0 else r.size(1, 200) if k % 4 < 3 else (r.size(1, 8), r.size(1, 8))
        g = (lambda lo, hi, s=(): r.num(lo, hi, s)) if n == () else (lambda lo, hi, s=(): r.arr(n, lo, hi, s))
        ve, vn = g(-30, 30, sp), g(-30, 30, sp)
        h, v = r.call(nav.ENvel_to_course_heading, [ve, vn])
        r.note((np.asarray(ve).tobytes(), np.asarray(vn).tobytes()), {'ve': str(ve)[:80], 'vn': str(vn)[:80]})
        r.compare_values('ENvel_to_course_heading speed', v, np.hypot(ve, vn), [ve, vn], rtol=1e-12)
        r.compare_values('ENvel_to_course_heading heading', h, np.degrees(np.arctan2(ve, vn)), [ve, vn], rtol=1e-12, atol=1e-11)
        hd = g(-720, 720, (0.0, 90.0, 180.0, -180.0, 270.0, 360.0, 45.0))
        aE, aN = g(-50, 50, sp), g(-50, 50, sp)
        t = np.radians(hd)
        r.compare(nav.rotate_acceleration_EN_to_cl, lambda hd, aE, aN: (
            aE * np.cos(np.radians(hd)) - aN * np.sin(np.radians(hd)),
            aE * np.sin(np.radians(hd)) + aN * np.cos(np.radians(hd))), [hd, aE, aN], rtol=1e-10, atol=1e-11, cond=50)
