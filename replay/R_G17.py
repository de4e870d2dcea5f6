from types import SimpleNamespace
from rlib import np
import pandas as pd
from shipgrav import utils


class Artist:
    """stand-in for a matplotlib Line2D (matplotlib is not installed here): data is copied on set"""

    def __init__(self, x, y):
        self.set_data(x, y)
        self.visible = True

    def set_data(self, x, y):
        self.set_xdata(x)
        self.set_ydata(y)

    def set_xdata(self, x):
        self._x = list(x)

    def set_ydata(self, y):
        self._y = list(y)

    def get_xdata(self, orig=True):
        return np.array(self._x, dtype=float)

    def get_ydata(self, orig=True):
        return np.array(self._y, dtype=float)

    def get_data(self, orig=True):
        return self.get_xdata(), self.get_ydata()

    def get_visible(self):
        return self.visible

    def set_visible(self, v):
        self.visible = v

    def update(self, props):
        for k, v in props.items():
            getattr(self, 'set_' + k)(v)

    def set(self, **props):
        self.update(props)


class Axes:
    def __init__(self):
        self.figure = SimpleNamespace(canvas=SimpleNamespace(draw=lambda *a, **k: None, draw_idle=lambda *a, **k: None))
        self.lines = []

    def get_xlim(self):
        return (0.0, 1.0)

    def get_ylim(self):
        return (0.0, 1.0)

    def axhline(self, y=0, **k):
        return Artist([0, 1], [y, y])

    def axvline(self, x=0, **k):
        return Artist([x, x], [0, 1])

    def plot(self, x, y, *a, **k):
        self.lines.append(Artist(x, y))
        return [self.lines[-1]]


def make(r):
    n = r.size(1, 60, (1, 2, 3))
    t = np.cumsum(r.rng.uniform(.1, 5, size=n)) + r.num(-100, 1e4)
    df = pd.DataFrame({'tsec': t, 'lon_new': r.rng.uniform(-180, 180, size=n), 'lat_new': r.rng.uniform(-90, 90, size=n)})
    if r.rng.random() < .5:
        df.index = r.rng.permutation(n) * 3 + 7 if r.rng.random() < .5 else np.arange(n) + 100
    if r.rng.random() < .4:
        df = df[list(r.rng.permutation(df.columns))]
    a1, a2 = Axes(), Axes()
    line, = a1.plot(t, r.rng.normal(size=n))
    dot, = a2.plot([df['lon_new'].iloc[0]], [df['lat_new'].iloc[0]], 'o')
    return df, a1, a2, utils._SnappingCursor(a1, a2, line, dot, df), n, t


def run(r):
    k = 0
    for k in r.rounds():
        df, a1, a2, c, n, t = make(r)
        picks = []
        hist = []
        steps = int(r.rng.integers(1, 30))
        for s in range(steps):
            u = r.rng.random()
            x = float(r.pick([t[r.rng.integers(n)], r.rng.uniform(t[0] - 5, t[-1] + 5), r.rng.uniform(t[0], t[-1])]))
            ax = a1
            if u < .45:
                b = 1
            elif u < .75:
                b = 3
            elif u < .85:
                b = 2
            else:
                b = 0                           # mouse movement
            ev = SimpleNamespace(button=b if b else None, xdata=x, ydata=float(r.rng.normal()), x=5., y=6., key=None, step=0,
                                 dblclick=bool(b and hist and hist[-1][0] == b and r.rng.random() < .3), inaxes=ax if r.rng.random() < .9 else a2)
            if b:
                ev.inaxes = a1
            hist.append((b, x))
            try:
                (c.on_mouse_click if b else c.on_mouse_move)(ev)
            except Exception as e:  # noqa: BLE001
                r.fail('handler raised %s: %s' % (type(e).__name__, e), tsec=t, clicks=hist)
            if b == 1:
                d = np.abs(x - t)
                picks.append(x)
            elif b == 3 and picks:
                picks.pop()
            info = dict(tsec=t, clicks=hist, index=list(df.index))
            r.require(len(c.i_seg) == len(c.x_seg) == len(c.y_seg) == len(picks), 'picked lists have lengths %d, %d, %d; %d picks remain' % (
                len(c.i_seg), len(c.x_seg), len(c.y_seg), len(picks)), **info)
            for j, p in enumerate(picks):
                i = int(c.i_seg[j])
                r.require(0 <= i < n and abs(t[i] - p) <= np.abs(t - p).min() + 1e-9, 'pick %d is sample %r, not the nearest to %r' % (j, i, p), **info)
                r.require(c.x_seg[j] == df['lon_new'].iloc[i] and c.y_seg[j] == df['lat_new'].iloc[i],
                          'pick %d has coordinates %r, %r' % (j, c.x_seg[j], c.y_seg[j]), **info)
            sc = c.scatters[0]
            r.require(np.array_equal(np.asarray(sc.get_xdata(), float), np.asarray(c.x_seg, float)) and
                      np.array_equal(np.asarray(sc.get_ydata(), float), np.asarray(c.y_seg, float)),
                      'plotted marks are %r, %r; picks %r, %r' % (sc.get_xdata(), sc.get_ydata(), c.x_seg, c.y_seg), **info)
        r.note(tuple(hist), {'clicks': hist[:5]})
