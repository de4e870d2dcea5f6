"""The picker's representation invariant, established by its constructor and kept by every event handler.

INV(m): i_seg, x_seg and y_seg are three lists of m items; x_seg[k], y_seg[k] are the longitude and latitude of sample
i_seg[k]; the plotted marks are x_seg against y_seg.  Each handler is run from an arbitrary state satisfying INV(m) for
arbitrary m >= 0, so every history of events is covered by induction on its length."""
import ast
import os
from .base import *
from engine import pdmodel
from engine import npmodel as N

n, m = var('n', 'i', True), var('m', 'i', True)


class Thing:
    """a matplotlib object of which only these attributes matter"""

    def __init__(self, attrs):
        self.attrs = attrs

    def o_getattr(self, I, ref, name):
        if name not in self.attrs:
            raise Unsupported('attribute %s of a plot object' % name)
        return self.attrs[name]


def thing(I, **attrs):
    r = ObjRef()
    I.heap[r] = Thing(attrs)
    return r


def does_nothing(name):
    return Builtin(name, lambda I, a, k: None)


def content(I, v):
    """what a line remembers of the data it is given: a copy"""
    if isinstance(v, ListRef):
        return I.heap[v]
    if isinstance(v, ArrRef):
        A = I.arr(v)
        return SymList(A.shape[0], lambda i: N.wrap(A.at(i), A.dtype))
    if isinstance(v, ObjRef) and isinstance(I.heap[v], pdmodel.Series):
        A = I.heap[v].A
        return SymList(A.shape[0], lambda i: N.wrap(A.at(i), A.dtype))
    if isinstance(v, tuple):
        return PyList(v)
    if I.is_number(v):
        raise PyRaise('RuntimeError', 'x must be a sequence')
    raise Unsupported('plot data %r' % (v,))


class Artist:
    """a Line2D: its data are copied when set"""

    def __init__(self, x, y, visible=True):
        self.x, self.y, self.visible = x, y, visible

    def o_getattr(self, I, ref, name):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported('Line2D.%s' % name)
        return Builtin('Line2D.' + name, lambda I2, a, k: getattr(I2.heap[ref], 'm_' + name)(I2, ref, a, k))

    def put(self, I, ref, **ch):
        I.heap[ref] = Artist(**dict(dict(x=self.x, y=self.y, visible=self.visible), **ch))

    def m_get_visible(self, I, ref, a, k):
        return self.visible

    def m_set_visible(self, I, ref, a, k):
        self.put(I, ref, visible=a[0])

    def m_set_xdata(self, I, ref, a, k):
        self.put(I, ref, x=content(I, a[0]))

    def m_set_ydata(self, I, ref, a, k):
        self.put(I, ref, y=content(I, a[0]))

    def m_set_data(self, I, ref, a, k):
        x, y = a if len(a) == 2 else I.concrete_items(a[0])
        self.put(I, ref, x=content(I, x), y=content(I, y))

    def m_update(self, I, ref, a, k):
        if len(a) != 1 or k or not isinstance(a[0], DictRef):
            raise Unsupported('Line2D.update')
        self.m_set(I, ref, (), dict(I.heap[a[0]].d))

    def m_set(self, I, ref, a, k):
        for q, v in k.items():
            if q not in ('xdata', 'ydata', 'data', 'visible'):
                raise Unsupported('Line2D property %r' % (q,))
            getattr(I.heap[ref], 'm_set_' + q)(I, ref, [v], {})

    def given(self, I, v):
        return I.new_list(list(v.items)) if isinstance(v, PyList) else I.new_symlist(v.n, v.at)

    def m_get_xdata(self, I, ref, a, k):
        return I.new_arr(N.to_arr(I, self.given(I, self.x)))

    def m_get_ydata(self, I, ref, a, k):
        return I.new_arr(N.to_arr(I, self.given(I, self.y)))

    def m_get_data(self, I, ref, a, k):
        return (self.m_get_xdata(I, ref, a, k), self.m_get_ydata(I, ref, a, k))


def artist(I, x, y):
    r = ObjRef()
    I.heap[r] = Artist(content(I, x), content(I, y))
    return r


def axes(I, q):
    canvas = thing(I, draw=does_nothing('draw'), draw_idle=does_nothing('draw_idle'))
    one = lambda I2, **kw: I2.new_list([fl('ax%s%d' % (q, z)) for z in (0, 1)])

    def plot(I2, a, k):
        if len(a) < 2:
            raise Unsupported('plot of one sequence')
        return I2.new_list([artist(I2, a[0], a[1])])
    return thing(I, figure=thing(I, canvas=canvas), plot=Builtin('plot', plot),
                 get_xlim=Builtin('get_xlim', lambda I2, a, k: (fl('xlo' + q), fl('xhi' + q))),
                 get_ylim=Builtin('get_ylim', lambda I2, a, k: (fl('ylo' + q), fl('yhi' + q))),
                 axhline=Builtin('axhline', lambda I2, a, k: artist(I2, one(I2), one(I2))),
                 axvline=Builtin('axvline', lambda I2, a, k: artist(I2, one(I2), one(I2))))


def lon(i):
    return el('lon', i)


def lat(i):
    return el('lat', i)


def tsec(i):
    return el('tsec', i)


def pick(k):
    """sample picked k-th"""
    return fn('pickedsample', n, P(k), sort='i', nonneg=True)


def _side_pick(z, r, args):
    import z3
    q = z.poly(args[0])
    return [r >= 0, z3.Implies(q > 0, r < q)]


prover.SIDE['pickedsample'] = _side_pick


def table(I, order, labels):
    cols = {'tsec': tsec, 'lon_new': lon, 'lat_new': lat, 'faa': lambda i: el('faa', i)}
    ix = Arr((n,), lambda q: el('label', q[0], sort='i'), 'i') if labels else None
    return pdmodel.mk_df(I, {c: Arr((n,), (lambda c: lambda q: cols[c](q[0]))(c), 'f') for c in order}, n, ix)


ORDERS = [('tsec', 'lon_new', 'lat_new'), ('lat_new', 'faa', 'tsec', 'lon_new')]


def cursor(I, env):
    """a cursor fresh from its constructor"""
    I.assume(ge(n, 1))
    cls = I.load('shipgrav.utils').attrs['_SnappingCursor']
    env['ax1'], env['ax2'] = axes(I, '1'), axes(I, '2')
    line = artist(I, symarr(I, 'tsec', n), symarr(I, 'value', n))
    dot = artist(I, I.new_list([mk_float(lon(ZERO))]), I.new_list([mk_float(lat(ZERO))]))
    env['data'] = table(I, env['order'], env['labels'])
    return I.call(cls, [env['ax1'], env['ax2'], line, dot, env['data']], {})


def parts(I, c):
    ls = [I.getattr(c, q) for q in ('i_seg', 'x_seg', 'y_seg')]
    s = I.getattr(c, 'scatters')
    if not all(isinstance(x, ListRef) for x in ls) or len(set(ls)) < 3 or not isinstance(s, ListRef):
        raise Unsupported('picks that are not three lists: %r' % (ls,))
    marks = I.concrete_items(s)
    if not marks or len(marks) != 1 or not isinstance(marks[0], ObjRef) or not isinstance(I.heap[marks[0]], Artist):
        raise Unsupported('marks %r' % (marks,))
    return ls, marks[0]


def havoc(I, c):
    """any state satisfying INV(m)"""
    ls, mark = parts(I, c)
    for r, f, ty in zip(ls, (pick, lambda k: lon(pick(k)), lambda k: lat(pick(k))), (mk_int, mk_float, mk_float)):
        I.heap[r] = SymList(m, (lambda f, ty: lambda k: ty(f(k)) if ty is mk_float else mk_num(f(k), 'int'))(f, ty))
    I.heap[mark] = Artist(I.heap[ls[1]], I.heap[ls[2]])
    # whatever else the handlers remember between events
    o = I.heap[c]
    attrs = dict(o.attrs)
    for q in remembered(I):
        v = attrs.get(q)
        if v is None or I.is_number(v) and not isinstance(v, bool):
            if q in attrs and not (v is None and I.decide(T.pred('nothing ' + q))):
                attrs[q] = mk_num(var(q, 'i'), 'int') if v is None or I.numty(v) == 'int' else fl(q)
        elif isinstance(v, bool):
            attrs[q] = mk_bool(T.pred('is ' + q))
    I.heap[c] = Inst(o.cls, attrs)


def remembered(I):
    """attributes given a value outside the constructor"""
    tree = ast.parse(open(os.path.join(I.repo, 'shipgrav', 'utils.py')).read())
    out = set()
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef) and c.name == '_SnappingCursor':
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name != '__init__':
                    out |= {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                            and isinstance(x.value, ast.Name) and f.args.args and x.value.id == f.args.args[0].arg}
    return sorted(out - {'i_seg', 'x_seg', 'y_seg', 'scatters'})


def seq_is(P_, I, name, L, cnt, f):
    """the list has cnt items, item k being f(k)"""
    if isinstance(L, PyList):
        P_.eq(name + ': number', num(len(L.items)), cnt)
        for k, x in enumerate(L.items):
            P_.eq('%s: item %d' % (name, k), I.poly(x), f(num(k)))
        return
    P_.eq(name + ': number', L.n, cnt)
    k = var('k', 'i')
    pc0 = I.pc
    I.pc = pc0.extend(le(0, k), lt(k, L.n))
    try:
        if not prover.contradictory(I.pc):
            for kind, x, pc, st, w in I.explore(lambda: L.at(k)):
                if prover.contradictory(pc):
                    continue
                if kind != 'normal':
                    P_.ob(name + ': items', False, repr((kind, x)))
                    continue
                P_.eq(name + ': items', I.poly(x), f(k), pc)
    finally:
        I.pc = pc0


def inv(P_, I, c, cnt, f):
    """the picks are f(0), ..., f(cnt-1) and the marks show them"""
    ls, mark = parts(I, c)
    i, x, y = [I.heap[r] for r in ls]
    seq_is(P_, I, 'indices', i, cnt, f)
    seq_is(P_, I, 'longitudes', x, cnt, lambda k: lon(f(k)))
    seq_is(P_, I, 'latitudes', y, cnt, lambda k: lat(f(k)))
    A = I.heap[mark]
    seq_is(P_, I, 'marked longitudes', A.x, cnt, lambda k: lon(f(k)))
    seq_is(P_, I, 'marked latitudes', A.y, cnt, lambda k: lat(f(k)))
    P_.ob('marks shown', A.visible is True, repr(A.visible))


def nearest(P_, I, idx):
    """sample idx is no farther from the click in time than any other"""
    P_.holds('picked a sample', and_(le(0, idx), lt(idx, n)))
    k = var('k', 'i')
    pc = I.pc.extend(le(0, k), lt(k, n))
    a = T.find_atom(idx, 'argmin')
    if a is not None:
        # what argmin means: no element is smaller
        pc = pc.extend(or_(le(a.args[0], k), le(a.args[1].open(T.atom_poly(a)), a.args[1].open(k))))
    P_.holds('nearest in time', le(abs_(var('click') - tsec(idx)), abs_(var('click') - tsec(k))), pc)


def event(I, env, button, where):
    return thing(I, button=button, xdata=fl('click'), ydata=fl('clicky'), inaxes=where, x=fl('px'), y=fl('py'),
                 dblclick=mk_bool(T.pred('double')), key=None, step=mk_int(0))


def run(C):
    for order in ORDERS:
        for labels in (False, True):
            tag = '%s first, %s' % (order[0], 'labelled rows' if labels else 'numbered rows')

            def build(I, order=order, labels=labels):
                return [], {}, dict(order=order, labels=labels)

            def created(I, env):
                return cursor(I, env)
            C.call('new picker, ' + tag, created, build, lambda P_, I, env, v: inv(P_, I, v, ZERO, pick))

            def handler(name, button, where):
                def go(I, env):
                    c = cursor(I, env)
                    havoc(I, c)
                    b = button(I) if callable(button) else button
                    at = env[where] if where else None
                    I.call(I.getattr(c, name), [event(I, env, b, at)], {})
                    return c
                return go

            def left(P_, I, env, c):
                L = I.heap[parts(I, c)[0][0]]
                if not isinstance(L, SymList):
                    P_.ob('one more pick', False, repr(L))
                    raise Broken()
                last = I.poly(L.at(m))
                nearest(P_, I, last)
                inv(P_, I, c, m + 1, lambda k: ite(lt(P(k), m), pick(k), last))

            def right(P_, I, env, c):
                inv(P_, I, c, ite(lt(0, m), m - 1, ZERO), pick)

            def same(P_, I, env, c):
                inv(P_, I, c, m, pick)
            C.call('left click, ' + tag, handler('on_mouse_click', mk_int(1), 'ax1'), build, left)
            C.call('right click, ' + tag, handler('on_mouse_click', mk_int(3), 'ax1'), build, right)

            def other(I):
                b = var('button', 'i')
                I.assume(and_(not_(eq(b, 1)), not_(eq(b, 3))))
                return mk_num(b, 'int')
            C.call('other button, ' + tag, handler('on_mouse_click', other, 'ax1'), build, same)
            C.call('no button, ' + tag, handler('on_mouse_click', None, 'ax1'), build, same)
            for where in ('ax1', 'ax2', None):
                C.call('movement over %s, %s' % (where, tag), handler('on_mouse_move', None, where), build, same)
