"""Files: trusted models of open / readlines / iteration / mmap, of os.path and of the TOML and YAML readers.

A contract gives `I.files`, a function path value -> Text (symbolic content) or None (the path must not be opened).
The package's database.toml is read from /repo as it is."""
import os
from fractions import Fraction
from .terms import *
from .values import *
from . import terms as T

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class Text:
    """n lines; line(j) is the text of line j without its line end"""

    def __init__(self, n, line, newline=True, name='file', eol=None):
        self.n, self.line, self.newline, self.name, self.eol = P(n), line, newline, name, eol

    def full(self, I, j):
        """line j as text mode gives it: any line end is read as \\n"""
        s = self.line(P(j))
        if self.eol is not None and self.newline == 'maybe':
            from . import strmodel as S
            return S.mk((s, S.Choice(eq(P(j), self.n - 1), S.Choice(T.pred('ended', self.n), ('\n',), ()), ('\n',))))
        return I.binop('Add', s, '\n') if self.newline else s

    def raw(self, I, j):
        """the bytes of line j, with its own line end: eol() pieces on every line, on the last one under a condition"""
        if self.eol is None:
            return Bytes(self.full(I, j))
        from . import strmodel as S
        return Bytes(S.mk((self.line(P(j)), *self.eol(P(j)))))


class Bytes:
    """bytes that are ASCII text"""
    is_bytes = True

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Bytes(%r)' % (self.v,)

    def truth(self, I):
        return I.truth(self.v)

    def length(self, I):
        return I.length(self.v)

    def subst(self, mp):
        return Bytes(self.v.subst(mp) if hasattr(self.v, 'subst') else self.v)

    def fvs(self):
        return self.v.fvs() if hasattr(self.v, 'fvs') else frozenset()

    def merge(self, c, o):
        from . import strmodel as S
        return Bytes(S.merge_str(c, self.v, o.v)) if isinstance(o, Bytes) else None

    def compare(self, I, op, o, refl):
        if op in ('Eq', 'NotEq'):
            if not isinstance(o, Bytes):
                return op == 'NotEq'
            return I.compare(op, self.v, o.v)
        return None

    def contains(self, I, x):
        if not isinstance(x, Bytes):
            raise PyRaise('TypeError', 'a bytes-like object is required')
        return I.compare('In', x.v, self.v)

    def binop(self, I, op, o, refl):
        if op == 'Add' and isinstance(o, Bytes):
            return Bytes(I.binop('Add', o.v, self.v) if refl else I.binop('Add', self.v, o.v))
        return None

    def getattr(self, I, name):
        def call(I2, a, k):
            if name == 'decode':
                enc = (list(a) + [k.get('encoding', 'utf-8')])[0]
                if enc.lower() not in ('ascii', 'utf-8', 'utf8', 'latin-1', 'latin1', 'us-ascii') or set(k) - {'encoding', 'errors'}:
                    raise Unsupported('decode %r' % (enc,))
                return self.v
            if any(isinstance(x, str) or hasattr(x, 'is_str') for x in list(a) + list(k.values())):
                raise PyRaise('TypeError', 'a bytes-like object is required')
            r = I2.call(I2.getattr(self.v, name), [x.v if isinstance(x, Bytes) else x for x in a],
                        {q: x.v if isinstance(x, Bytes) else x for q, x in k.items()})
            return wrap_bytes(I2, r)
        return Builtin('bytes.' + name, call)

    def typeval(self):
        from .builtins_model import BUILTINS
        return BUILTINS['bytes']


def wrap_bytes(I, r):
    if isinstance(r, str) or hasattr(r, 'is_str'):
        return Bytes(r)
    if isinstance(r, tuple):
        return tuple(wrap_bytes(I, x) for x in r)
    if isinstance(r, ListRef):
        xs = I.concrete_items(r)
        if xs is None:
            raise Unsupported('bytes split into an unknown number of parts')
        return I.new_list([wrap_bytes(I, x) for x in xs])
    return r


class MMap:
    """a read-only memory map of a whole text file, read line by line; pos is the line of the read position"""

    def __init__(self, text, pos=ZERO):
        self.text, self.pos_ = text, None if pos is None else P(pos)

    @property
    def pos(self):
        if self.pos_ is None:
            raise Unsupported('a memory map read at an unknown position')
        return self.pos_

    def o_repr(self):
        return 'mmap'

    def o_getattr(self, I, ref, name):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported('mmap.%s' % name)
        return MMethod('mmap.' + name, lambda I2, a, k: getattr(I2.heap[ref], 'm_' + name)(I2, ref, a, k), ref)

    def o_iterate(self, I, ref):
        # iterating a mmap goes byte by byte
        raise Unsupported('iteration over a mmap')

    def enter(self, I):
        return None

    def m_find(self, I, ref, a, k):
        from . import strmodel as S
        if len(a) != 1 or k or not isinstance(a[0], Bytes) or not isinstance(a[0].v, str):
            raise Unsupported('mmap.find options')
        if '\n' in a[0].v or '\r' in a[0].v:
            raise Unsupported('mmap.find across lines')
        t = self.text
        if not self.pos.is_zero:
            raise Unsupported('mmap.find from a later position')
        E = T.exists_(t.n, lambda j: I.cond(I.compare('In', a[0].v, t.raw(I, j).v)))
        return mk_num(fn('foundat', t.n, sort='i', nonneg=True), 'int') if I.decide(E) else -1

    def m_seek(self, I, ref, a, k):
        if len(a) != 1 or k or not I.poly(a[0]).is_zero:
            raise Unsupported('mmap.seek')
        I.heap[ref] = MMap(self.text, ZERO)
        return None

    def m_close(self, I, ref, a, k):
        return None

    def m_readline(self, I, ref, a, k):
        t = self.text
        if a or k:
            raise Unsupported('mmap.readline')
        if not I.decide(lt(self.pos, t.n)):
            return Bytes('')
        r = t.raw(I, self.pos)
        I.heap[ref] = MMap(t, self.pos + 1)
        return r


class MMethod(Builtin):
    def __init__(self, name, f, ref):
        super().__init__(name, f)
        self.ref = ref

    def sentinel(self, I):
        return b''

    def iter_until(self, I, sentinel):
        """iter(mm.readline, b''): the lines from the read position on; an empty read means the end"""
        if self.name != 'mmap.readline' or not isinstance(sentinel, Bytes) or sentinel.v != '':
            raise Unsupported('iter(%s, %r)' % (self.name, sentinel))
        m = I.heap[self.ref]
        t, p = m.text, m.pos
        I.heap[self.ref] = MMap(t, None)
        return SymIter(t.n - p, lambda j: t.raw(I, P(j) + p), None)


@model('mmap.mmap')
def mmap_new(I, args, kw):
    names = ['fileno', 'length', 'flags', 'prot', 'access', 'offset']
    v = dict(zip(names, args))
    v.update(kw)
    if set(v) - {'fileno', 'length', 'access'} or not isinstance(v['fileno'], FileNo) or not I.poly(v['length']).is_zero:
        raise Unsupported('mmap options')
    f = v['fileno'].f
    if f.text is None:
        raise Unsupported('mmap of this file')
    if f.mode not in ('rb', 'r', 'rt'):
        raise Unsupported('mmap of a file opened for writing')
    r = ObjRef()
    I.heap[r] = MMap(f.text)
    return r


class FilePos:
    """the read position of an open file: a line number, or None when it is not known (being iterated over, or closed)"""

    def __init__(self, pos=ZERO, closed=False):
        self.pos = None if pos is None else P(pos)
        self.closed = closed

    def o_repr(self):
        return 'read position %r' % (self.pos,)


class FileObj:
    """an open file"""
    is_file = True

    def __init__(self, path, mode, text=None, concrete=None, ref=None):
        self.path, self.mode, self.text, self.concrete, self.ref = path, mode, text, concrete, ref

    def truth(self, I):
        return True

    def pos(self, I):
        if I.heap[self.ref].closed:
            raise PyRaise('ValueError', 'I/O operation on closed file.')
        p = I.heap[self.ref].pos
        if p is None:
            raise Unsupported('a file read at an unknown position')
        return p

    def set_pos(self, I, p):
        I.heap[self.ref] = FilePos(p)

    def iterate(self, I):
        p = self.pos(I)
        self.set_pos(I, None)
        return SymIter(self.text.n - p, lambda j: self.line(I, P(j) + p), None)

    def line(self, I, j):
        return self.text.raw(I, j) if 'b' in self.mode else self.text.full(I, j)

    def getattr(self, I, name):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported('file.%s' % name)
        return FMethod('file.' + name, lambda I2, a, k: f(I2, a, k), self)

    def next_(self, I):
        p = self.pos(I)
        if not I.decide(lt(p, self.text.n)):
            raise PyRaise('StopIteration', '')
        self.set_pos(I, p + 1)
        return self.line(I, p)

    def empty(self):
        return Bytes('') if 'b' in self.mode else ''

    def m_readline(self, I, a, k):
        if a or k:
            raise Unsupported('file.readline options')
        p = self.pos(I)
        if not I.decide(lt(p, self.text.n)):
            return self.empty()
        self.set_pos(I, p + 1)
        return self.line(I, p)

    def m_readlines(self, I, a, k):
        if a or k:
            raise Unsupported('file.readlines options')
        p = self.pos(I)
        self.set_pos(I, self.text.n)
        info = {'whole': self.text.whole(I)} if p.is_zero and hasattr(self.text, 'whole') else None
        return I.new_symlist(self.text.n - p, lambda j: self.line(I, P(j) + p), info)

    def m_seek(self, I, a, k):
        if len(a) != 1 or k or not I.poly(a[0]).is_zero:
            raise Unsupported('file.seek')
        self.set_pos(I, ZERO)
        return mk_int(0)

    def m_close(self, I, a, k):
        I.heap[self.ref] = FilePos(None, True)
        return None

    def exit_(self, I):
        self.m_close(I, [], {})

    def m_read(self, I, a, k):
        if self.concrete is not None and not a and self.mode in ('r', 'rt', 'rb'):
            if not self.pos(I).is_zero:
                return self.empty()
            self.set_pos(I, num(10 ** 9))
            t = open(self.concrete, encoding='utf-8').read()
            return Bytes(t) if self.mode == 'rb' else t
        if self.text is not None and hasattr(self.text, 'whole') and self.pos(I).is_zero:
            self.set_pos(I, self.text.n)
            return self.text.whole(I)
        raise Unsupported('file.read')

    def m_fileno(self, I, a, k):
        return FileNo(self)

    def m_write(self, I, a, k):
        if hasattr(self, 'writer'):
            return self.writer(I, a[0])
        raise Unsupported('file.write')


class FMethod(Builtin):
    def __init__(self, name, f, file):
        super().__init__(name, f)
        self.file = file

    def sentinel(self, I):
        return b'' if 'b' in self.file.mode else ''

    def iter_until(self, I, sentinel):
        """iter(f.readline, ''): the lines from the read position on; an empty read means the end"""
        e = self.file.empty()
        if self.name != 'file.readline' or not (sentinel == e if isinstance(e, str) else isinstance(sentinel, Bytes) and sentinel.v == ''):
            raise Unsupported('iter(%s, %r)' % (self.name, sentinel))
        return self.file.iterate(I)


class FileNo:
    def __init__(self, f):
        self.f = f


def open_(I, args, kw):
    names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline']
    v = dict(zip(names, args))
    v.update(kw)
    path, mode = v['file'], v.get('mode', 'r')
    if set(v) - {'file', 'mode', 'encoding', 'errors'}:
        raise Unsupported('open options')
    if v.get('encoding') not in (None, 'utf-8', 'utf8', 'ascii'):
        raise Unsupported('encoding %r' % (v.get('encoding'),))
    if isinstance(path, str) and os.path.realpath(path) == os.path.realpath(os.path.join(I.repo, I.package, 'database.toml')):
        if mode not in ('r', 'rb', 'rt'):
            raise Unsupported('database opened for writing')
        return new_file(I, path, mode, concrete=path)
    if I.files is None:
        I.oblige('no data file is touched', False, 'open(%r, %r)' % (path, mode))
        raise Unsupported('open() without a file model')
    return I.files(I, path, mode)


def text_file(I, path, mode, text):
    if mode not in ('r', 'rt', 'rb'):
        raise Unsupported('file opened with mode %r' % (mode,))
    return new_file(I, path, mode, text)


def new_file(I, path, mode, text=None, concrete=None):
    r = ObjRef()
    I.heap[r] = FilePos()
    return FileObj(path, mode, text, concrete, r)


# ---------------------------------------------------------------- os.path

def _conc(f):
    def g(I, a, k):
        if not all(isinstance(x, str) for x in a) or k:
            raise Unsupported('path operation on %r' % (a,))
        return f(*a)
    return g


for _n in ('dirname', 'join', 'basename', 'abspath', 'realpath', 'normpath', 'splitext', 'exists', 'isfile'):
    MODELS['os.path.' + _n] = _conc(getattr(os.path, _n))


def splitext(I, a, k):
    from . import strmodel as S
    if len(a) == 1 and isinstance(a[0], S.SStr) and not k:
        ps = a[0].ps
        x = ps[-1]
        if isinstance(x, str) and len(x) > 1 and x[0] == '.' and not set(x[1:]) & set('./') and len(ps) > 1:
            y = ps[-2]
            if not isinstance(y, str) and y.least > 0 and y.last.isdisjoint('/.'):
                return (S.mk(ps[:-1]), x)
        raise Unsupported('path operation on %r' % (a,))
    return _conc(os.path.splitext)(I, a, k)


MODELS['os.path.splitext'] = splitext


class PurePath:
    pass


# ---------------------------------------------------------------- TOML / YAML

def to_value(I, x):
    from decimal import Decimal
    if isinstance(x, bool) or x is None or isinstance(x, (str, int)):
        return x
    if isinstance(x, Decimal):
        return mk_float(num(dec(str(x))))
    if isinstance(x, float):
        return mk_float(num(Fraction(repr(x))))
    if isinstance(x, list):
        return I.new_list([to_value(I, y) for y in x])
    if isinstance(x, dict):
        return I.new_dict({I.key(k): to_value(I, y) for k, y in x.items()})
    raise Unsupported('TOML value %r' % (x,))


@model('tomli.load', 'tomllib.load')
def toml_load(I, args, kw):
    import tomllib
    from decimal import Decimal
    f = args[0]
    if not isinstance(f, FileObj) or f.concrete is None:
        raise Unsupported('TOML from a symbolic file')
    if f.mode != 'rb':
        raise PyRaise('TypeError', 'File must be opened in binary mode')
    with open(f.concrete, 'rb') as h:
        d = tomllib.load(h, parse_float=Decimal)
    return to_value(I, d)


@model('tomli.loads', 'tomllib.loads')
def toml_loads(I, args, kw):
    import tomllib
    from decimal import Decimal
    if not isinstance(args[0], str):
        raise Unsupported('TOML from symbolic text')
    return to_value(I, tomllib.loads(args[0], parse_float=Decimal))


@model('yaml.safe_load')
def yaml_load(I, args, kw):
    f = args[0]
    if isinstance(f, FileObj) and hasattr(f.text, 'yaml'):
        return to_value(I, f.text.yaml)
    raise Unsupported('YAML from a symbolic file')


class OtherName:
    """a string different from every literal of the program and of the database"""
    is_str = True
    unlike = True               # as a dictionary key, it is found under no other key

    def __init__(self, what='name'):
        self.what = what

    def __repr__(self):
        return '<%s unlike any known>' % self.what

    def truth(self, I):
        return True

    def typeval(self):
        from . import builtins_model
        return builtins_model.BUILTINS['str']

    def subst(self, mp):
        return self

    def fvs(self):
        return frozenset()

    def compare(self, I, op, o, refl):
        if op in ('Eq', 'NotEq'):
            if isinstance(o, str) or o is None or I.is_number(o):
                return op == 'NotEq'
            if o is self:
                return op == 'Eq'
        return None

    def getattr(self, I, name):
        raise Unsupported('str.%s of %r' % (name, self))


def register(mods, models):
    models.update(MODELS)
