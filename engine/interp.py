"""Symbolic interpreter over the real Python source (ast) of /repo."""
import ast
import os
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover
from .prover import PC
from .values import *


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    """current path contradicts its condition"""


class Explorer:
    def __init__(self, script):
        self.script = list(script)
        self.base = len(script)
        self.pos = 0


class Outcome:
    def __init__(self, kind, value, pc, heap, interp, writes=None):
        self.kind = kind      # 'return' or 'raise'
        self.value = value
        self.pc = pc
        self.heap = heap
        self.interp = interp


MAXPATHS = 400


class Interp:
    def __init__(self, repo=None, package='shipgrav'):
        self.repo = repo or os.environ.get('SHIPGRAV_REPO', '/repo')
        self.package = package
        self.heap = {}
        self.pc = PC()
        self.explorer = None
        self.derived = {}         # condition -> path conditions it was found to follow from
        self.foralls = []         # assumptions (guard, condition) over an index, for the existence conditions they decide
        self.modules = {}
        self.frames = []
        self.writes = []          # write log (ref, spec, value fn) for loop summaries
        self.lemmas = {}          # name -> contract used at call sites
        self.obls = []            # obligations generated inside (loop base/step ...)
        self.events = []          # ghost trace: files opened, prints...
        self.files = None         # path -> open file (contracts supply it)
        from . import strmodel
        self.strmodel = strmodel
        from . import filemodel
        self.filemodel = filemodel
        self.assumed = set()
        self.call_depth = 0
        self.fuel = 400000
        self.loop_depth = 0
        from . import npmodel, builtins_model
        self.np = npmodel
        self.bm = builtins_model
        self.ext = builtins_model.external_modules(self)
        self.used_models = set()
        CUR[0] = self
        self.funcs_run = set()

    # ------------------------------------------------------------ state

    def snapshot(self):
        return (dict(self.heap), [dict(f.env) for f in self.frames], self.pc, len(self.events))

    def restore(self, s):
        self.heap = dict(s[0])
        for f, e in zip(self.frames, s[1]):
            f.env.clear()
            f.env.update(e)
        self.pc = s[2]
        del self.events[s[3]:]

    def assume(self, c):
        self.pc = self.pc.extend(c)

    def derive(self, c):
        """assume c, which follows from the path condition (so it distinguishes no branch of its own)"""
        if c not in self.pc.set:
            self.derived.setdefault(c, []).append(frozenset(self.pc.set))
            self.pc = self.pc.extend(c)

    def is_derived(self, c, pc):
        return any(d <= pc.set for d in self.derived.get(c, ()))

    def by_forall(self, c):
        """c is an instance of an assumption  forall i: guard(i) implies cond(i), at one of the variables of c"""
        for a in c.fv:
            k = T.atom_poly(a)
            if not T.is_int(k):
                continue
            for guard, cond in self.foralls:
                if prover.prove(self.pc, guard(k)) and prover.simp(cond(k), self.pc) is c:
                    return True
        return False

    def decide(self, c):
        if isinstance(c, SBool):
            c = c.cond
        if isinstance(c, bool):
            return c
        c = prover.simp(c, self.pc)
        d = prover.decide(self.pc, c)
        if d is not None:
            return d
        if self.foralls and c.op == 'exists' and self.by_forall(c):
            self.derive(c)
            return True
        ex = self.explorer
        if ex is None:
            raise Unsupported('undecided condition outside exploration: %r' % (c,))
        if ex.pos < len(ex.script):
            v = ex.script[ex.pos]
        else:
            v = True
            ex.script.append(True)
        ex.pos += 1
        self.pc = self.pc.extend(c if v else not_(c))
        return v

    def explore(self, thunk, maxpaths=MAXPATHS):
        """run thunk on every feasible path from the current state.
        yields (kind, value, pc, state) ; the state is left as at the start"""
        s0 = self.snapshot()
        outer = self.explorer
        stack = [[]]
        out = []
        nfr = len(self.frames)
        depth = self.call_depth
        # top level: every path names its fresh symbols alike, so that the queries of a shared prefix are shared
        top = outer is None and self.loop_depth == 0
        fresh0 = fmax = T._fresh[0]
        while stack:
            script = stack.pop()
            self.restore(s0)
            if top:
                fmax = max(fmax, T._fresh[0])
                T._fresh[0] = fresh0
            ex = Explorer(script)
            self.explorer = ex
            w0 = self.writes
            self.writes = []
            try:
                try:
                    v = thunk()
                    kind = 'normal'
                except ReturnEx as e:
                    kind, v = 'return', e.v
                except BreakEx:
                    kind, v = 'break', None
                except ContinueEx:
                    kind, v = 'continue', None
                except PyRaise as e:
                    kind, v = 'raise', e
                except Infeasible:
                    kind, v = 'infeasible', None
                if kind != 'infeasible':
                    del self.frames[nfr:]
                    out.append((kind, v, self.pc, self.snapshot(), self.writes))
            finally:
                self.explorer = outer
                self.writes = w0
                del self.frames[nfr:]
                self.call_depth = depth
            for i in range(len(ex.script) - 1, ex.base - 1, -1):
                if ex.script[i] is True:
                    stack.append(ex.script[:i] + [False])
            if len(out) + len(stack) > maxpaths:
                raise Unsupported('too many paths')
        if top:
            T._fresh[0] = max(fmax, T._fresh[0])
        self.restore(s0)
        return out

    # ------------------------------------------------------------ obligations

    def oblige(self, name, ok, detail=''):
        self.obls.append((name, bool(ok), detail))
        return ok

    # ------------------------------------------------------------ modules

    def load(self, modname):
        m = self.modules.get(modname)
        if m is not None:
            return m
        rel = modname.split('.')
        path = os.path.join(self.repo, *rel)
        if os.path.isdir(path):
            fname = os.path.join(path, '__init__.py')
        else:
            fname = path + '.py'
        if not os.path.exists(fname):
            raise Unsupported('module %s not found' % modname)
        src = open(fname).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
        m = ModVal(modname)
        m.attrs['__file__'] = fname
        m.attrs['__name__'] = modname
        self.modules[modname] = m
        fr = Frame(m.attrs, m, None)
        fr.src = src
        self.srcs = getattr(self, 'srcs', {})
        self.srcs[modname] = src
        self.frames.append(fr)
        try:
            self.exec_block(tree.body, fr)
        finally:
            self.frames.pop()
        return m

    def import_module(self, name):
        if name == self.package or name.startswith(self.package + '.'):
            return self.load(name)
        if name in self.ext:
            return self.ext[name]
        return ModVal(name)

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('interpreter step budget exhausted')
        prover.check_deadline()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
        try:
            m(s, fr)
        except Unsupported as e:
            if not getattr(e, 'line', None):
                e.line = s.lineno
                e.args = ('%s [line %d]' % (e.args[0] if e.args else '', s.lineno),)
            raise

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(id=t.id, ctx=ast.Load(), lineno=s.lineno), fr)
            v = self.eval(s.value, fr)
            if isinstance(old, ArrRef):
                self.np.inplace(self, old, op, v)
                return
            if isinstance(old, ListRef) and op == 'Add':
                self.list_extend(old, v)
                return
            self.assign(t, self.binop(op, old, v), fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            old = self.getitem(base, idx)
            v = self.eval(s.value, fr)
            self.setitem(base, idx, self.binop(op, old, v))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr)
            old = self.getattr(base, t.attr)
            v = self.eval(s.value, fr)
            if isinstance(old, ArrRef):
                self.np.inplace(self, old, op, v)
                return
            if isinstance(old, ListRef) and op == 'Add':
                self.list_extend(old, v)
                return
            self.setattr(base, t.attr, self.binop(op, old, v))
        else:
            raise Unsupported('augmented assignment target')

    def s_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if not isinstance(c, bool) and not self.loop_depth and simple_block(s.body) and simple_block(s.orelse):
            if self.merge_if(c, s, fr):
                return
        if self.decide(c):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def merge_if(self, c, s, fr):
        """branches that only assign local names: execute both, merge the values"""
        c = prover.simp(c.cond if isinstance(c, SBool) else c, self.pc)
        if prover.decide(self.pc, c) is not None or c in getattr(self, '_nomerge', ()):
            return False
        pc0, h0, e0, ex0, w0 = self.pc, dict(self.heap), dict(fr.env), self.explorer, self.writes
        n0, nf, cd = len(self.events), len(self.frames), self.call_depth
        envs = []
        try:
            self.explorer = None
            for cond, body in ((c, s.body), (not_(c), s.orelse)):
                self.pc = pc0.extend(cond)
                self.writes = []
                fr.env.clear()
                fr.env.update(e0)
                self.exec_block(body, fr)
                if self.writes or len(self.events) != n0 or any(self.heap.get(r) is not v for r, v in h0.items()):
                    raise Unsupported('effect')
                envs.append(dict(fr.env))
            self.pc = pc0
            new = dict(e0)
            for k in set(envs[0]) | set(envs[1]):
                if k not in envs[0] or k not in envs[1]:
                    raise Unsupported('unbound on one side')
                new[k] = self.merge_values(c, envs[0][k], envs[1][k])
            fr.env.clear()
            fr.env.update(new)
            return True
        except (Unsupported, PyRaise):
            self.heap = h0
            del self.frames[nf:]
            self.call_depth = cd
            fr.env.clear()
            fr.env.update(e0)
            del self.events[n0:]
            return False
        finally:
            self.pc, self.explorer, self.writes = pc0, ex0, w0

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assert(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if not self.decide(c):
            raise PyRaise('AssertionError')

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, 'handling', None)
            raise cur or PyRaise('RuntimeError')
        e = s.exc
        name = None
        if isinstance(e, ast.Call):
            f = e.func
            name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', None)
        elif isinstance(e, ast.Name):
            name = e.id
        raise PyRaise(name or 'Exception')

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, fr)
                idx = self.eval_index(t.slice, fr)
                self.delitem(base, idx)
            else:
                raise Unsupported('del target')

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                fr.env[a.asname] = m
            else:
                top = a.name.split('.')[0]
                fr.env[top] = self.import_module(top)

    def s_ImportFrom(self, s, fr):
        if s.level:
            pk = fr.module.name.rsplit('.', s.level)[0] if '.' in fr.module.name else fr.module.name
            name = pk + ('.' + s.module if s.module else '')
        else:
            name = s.module
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                for k, v in m.attrs.items():
                    if not k.startswith('_'):
                        fr.env[k] = v
                continue
            v = m.attrs.get(a.name)
            if v is None and (name == self.package or name.startswith(self.package)):
                try:
                    v = self.load(name + '.' + a.name)
                except Unsupported:
                    v = None
            if v is None:
                v = Builtin(name + '.' + a.name, None)
            fr.env[a.asname or a.name] = v

    def s_FunctionDef(self, s, fr):
        defaults = [self.eval(d, fr) for d in s.args.defaults]
        kwd = [self.eval(d, fr) if d is not None else None for d in s.args.kw_defaults]
        f = FuncVal(s.name, s, fr.module, fr, defaults, kwd)
        v = f
        for d in reversed(s.decorator_list):
            nm = ast.unparse(d)
            if nm in ('staticmethod', 'property', 'classmethod'):
                v = (nm, v)
            else:
                dv = self.eval(d, fr)
                v = self.call(dv, [v], {})
        fr.env[s.name] = v

    def s_ClassDef(self, s, fr):
        env = {}
        cf = Frame(env, fr.module, fr)
        cf.is_class = True
        bases = [self.eval(b, fr) for b in s.bases]
        self.frames.append(cf)
        try:
            self.exec_block(s.body, cf)
        finally:
            self.frames.pop()
        fr.env[s.name] = ClassVal(s.name, env, bases, fr.module)

    def s_Global(self, s, fr):
        fr.globals_ = getattr(fr, 'globals_', set()) | set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals = getattr(fr, 'nonlocals', set()) | set(s.names)

    def s_With(self, s, fr):
        objs = []
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            ent = self.enter(v)
            objs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, fr)
        try:
            self.exec_block(s.body, fr)
        finally:
            for v in reversed(objs):
                self.exit_(v)

    def enter(self, v):
        return v

    def exit_(self, v):
        if getattr(v, 'is_file', False):
            v.exit_(self)

    def s_Try(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                if self.handler_matches(h, e, fr):
                    if h.name:
                        fr.env[h.name] = Opaque('exception')
                    fr.handling = e
                    self.exec_block(h.body, fr)
                    break
            else:
                if s.finalbody:
                    self.exec_block(s.finalbody, fr)
                raise
        else:
            self.exec_block(s.orelse, fr)
        if s.finalbody:
            self.exec_block(s.finalbody, fr)

    EXC_PARENTS = {'ValueError': ('Exception',), 'KeyError': ('LookupError', 'Exception'),
                   'IndexError': ('LookupError', 'Exception'), 'TypeError': ('Exception',),
                   'AssertionError': ('Exception',), 'ZeroDivisionError': ('ArithmeticError', 'Exception'),
                   'FileNotFoundError': ('OSError', 'IOError', 'Exception'), 'AttributeError': ('Exception',),
                   'UnicodeDecodeError': ('ValueError', 'Exception'), 'RuntimeError': ('Exception',),
                   'UnboundLocalError': ('NameError', 'Exception'), 'NameError': ('Exception',),
                   'DateParseError': ('ValueError', 'Exception'),
                   'StopIteration': ('Exception',), 'OverflowError': ('ArithmeticError', 'Exception')}

    def handler_matches(self, h, e, fr):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '?') for t in ts]
        chain = (e.name,) + self.EXC_PARENTS.get(e.name, ('Exception',)) + ('BaseException',)
        return any(n in chain for n in names)

    def s_While(self, s, fr):
        from . import loops
        loops.run_while(self, s, fr)

    def s_For(self, s, fr):
        from . import loops
        loops.run_for(self, s, fr)

    # ------------------------------------------------------------ assignment

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in getattr(fr, 'globals_', ()):
                fr.module.attrs[t.id] = v
                self.events.append(('global-write', fr.module.name, t.id))
            elif t.id in getattr(fr, 'nonlocals', ()):
                p = fr.parent
                while p is not None and t.id not in p.env:
                    p = p.parent
                (p or fr).env[t.id] = v
            else:
                fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t)
            for a, b in zip(t.elts, vs):
                self.assign(a.value if isinstance(a, ast.Starred) else a, b, fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            self.setitem(base, idx, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, v, n, target=None):
        star = None
        if target is not None:
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    star = i
        items = self.concrete_items(v)
        if items is None:
            it = self.iterate(v)
            if isinstance(it, SymIter):
                if star is None and self.decide(eq(it.n, n)):
                    return [it.at(num(i)) for i in range(n)]
                raise PyRaise('ValueError', 'unpack')
            items = it
        if star is not None:
            k = n - 1
            after = n - 1 - star
            if len(items) < k:
                raise PyRaise('ValueError', 'unpack')
            mid = list(items[star:len(items) - after])
            return list(items[:star]) + [self.new_list(mid)] + list(items[len(items) - after:])
        if len(items) != n:
            raise PyRaise('ValueError', 'unpack %d into %d' % (len(items), n))
        return list(items)

    # ------------------------------------------------------------ expressions

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Num(num(self.float_literal(e, fr)), 'float')
        if isinstance(v, complex):
            return Num(num(T.dec(repr(v.imag))) * IMAG, 'complex')
        if isinstance(v, bytes):
            from .filemodel import Bytes
            if not v.isascii():
                raise Unsupported('bytes literal that is not ASCII')
            return Bytes(v.decode('ascii'))
        return v

    def float_literal(self, e, fr):
        src = self.srcs.get(fr.module.name) if fr.module is not None else None
        if src is not None and hasattr(e, 'end_col_offset') and e.lineno == e.end_lineno:
            lines = getattr(self, '_lines', None)
            if lines is None:
                lines = self._lines = {}
            ls = lines.get(fr.module.name)
            if ls is None:
                ls = lines[fr.module.name] = [x.encode() for x in src.split('\n')]
            txt = ls[e.lineno - 1][e.col_offset:e.end_col_offset].decode()
            try:
                return T.dec(txt)
            except ValueError:
                pass
        return T.dec(repr(e.value))

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env and not (f is not fr and getattr(f, 'is_class', False)):
                return f.env[name]
            f = f.parent
        if name in fr.module.attrs:
            return fr.module.attrs[name]
        b = self.bm.BUILTINS.get(name)
        if b is not None:
            return b
        if name in self.EXC_PARENTS or name in ('Exception', 'BaseException'):
            return TypeVal(name)
        raise PyRaise('NameError', name)

    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if v is UNBOUND:
            raise Unsupported('variable %s has no summarised value after a loop' % e.id)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.eval_elts(e.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, fr))
                if isinstance(it, SymIter):
                    raise Unsupported('starred symbolic sequence')
                out.extend(it)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return self.new_list(self.eval_elts(e.elts, fr))

    def e_Set(self, e, fr):
        from .builtins_model import BUILTINS
        return self.call(BUILTINS['set'], [self.new_list(self.eval_elts(e.elts, fr))], {})

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                d.update(self.heap[o].d)
                continue
            d[self.key(self.eval(k, fr))] = self.eval(v, fr)
        return self.new_dict(d)

    def key(self, k):
        if isinstance(k, (str, int, bool, type(None), tuple, TypeVal)):
            return k
        if isinstance(k, Num) and k.poly.is_const:
            c = k.poly.const
            return int(c) if c.denominator == 1 else ('float', c)
        if getattr(k, 'unlike', False):
            return k
        raise Unsupported('symbolic dictionary key %r' % (k,))

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, fr)
                    spec = sp if isinstance(sp, str) else None
                parts.append(self.bm.format_value(self, x, spec, v.conversion))
        return self.bm.str_concat(self, parts)

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        c = prover.simp(c.cond if isinstance(c, SBool) else c, self.pc)
        d = prover.decide(self.pc, c)
        if d is not None:
            return self.eval(e.body if d else e.orelse, fr)
        return self.merge_eval(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def merge_eval(self, c, fa, fb):
        """evaluate both alternatives under c / not c and merge numerically; fork when impossible"""
        if c in getattr(self, '_nomerge', ()):
            return fa() if self.decide(c) else fb()
        pc0 = self.pc
        h0 = dict(self.heap)
        nf, cd = len(self.frames), self.call_depth
        try:
            self.pc = pc0.extend(c)
            ex0 = self.explorer
            self.explorer = None
            a = fa()
            self.pc = pc0.extend(not_(c))
            b = fb()
            self.explorer = ex0
            self.pc = pc0
            if a is b or self.same(a, b):
                return a
            m = self.merge_values(c, a, b)
            return m
        except (Unsupported, PyRaise):
            self.explorer = ex0
            self.pc = pc0
            self.heap = h0
            del self.frames[nf:]
            self.call_depth = cd
            return fa() if self.decide(c) else fb()

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, str, type(None))) and type(a) is type(b):
            return a == b
        return False

    def merge_values(self, c, a, b):
        if a is b or self.same(a, b):
            return a
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mk_bool(cite(c, self.cond(a), self.cond(b)))
        if self.is_number(a) and self.is_number(b):
            ta, tb = self.numty(a), self.numty(b)
            ty = ta if ta == tb else 'float' if 'complex' not in (ta, tb) else 'complex'
            return mk_num(ite(c, self.poly(a), self.poly(b)), ty)
        if isinstance(a, ArrRef) and isinstance(b, ArrRef):
            A, B = self.arr(a), self.arr(b)
            if len(A.shape) == len(B.shape) and all(prover.prove_eq(x, y, self.pc) for x, y in zip(A.shape, B.shape)) \
                    and (A.dtype == B.dtype or {A.dtype, B.dtype} <= set('ifc')):
                return self.new_arr(merge_arr(c, A, B))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_values(c, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and (isinstance(b, str) or hasattr(b, 'is_str')) and hasattr(self.strmodel, 'merge_str'):
            if not hasattr(b, 'is_str') or hasattr(b, 'ps'):
                return self.strmodel.merge_str(c, a, b)
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            x, y = self.heap[a], self.heap[b]
            if isinstance(x, PyList) and isinstance(y, PyList) and len(x.items) == len(y.items):
                return self.new_list([self.merge_values(c, p, q) for p, q in zip(x.items, y.items)])
        if isinstance(a, ObjRef) and isinstance(b, ObjRef) and hasattr(self.heap[a], 'merge') and \
                type(self.heap[a]) is type(self.heap[b]):
            r = ObjRef()
            self.heap[r] = self.heap[a].merge(self, c, self.heap[b])
            return r
        if hasattr(a, 'merge'):
            r = a.merge(c, b)
            if r is not None:
                return r
        raise Unsupported('cannot merge %r and %r' % (a, b))

    def merge_obj(self, c, x, old):
        """element of an object array under condition c"""
        d = prover.decide(self.pc, c)
        if d is True:
            return x
        if d is False:
            return old
        if isinstance(x, Poly) and isinstance(old, Poly):
            return ite(c, x, old)
        if isinstance(x, Poly):
            x = mk_num(x, 'float')
        if isinstance(old, Poly):
            old = mk_num(old, 'float')
        return self.merge_values(c, x, old)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], fr)
        for nxt in e.values[1:]:
            t = self.truth(v)
            if isinstance(t, bool):
                if t != isand:
                    return v
                v = self.eval(nxt, fr)
                continue
            c = self.cond(t)
            c = prover.simp(c, self.pc)
            d = prover.decide(self.pc, c)
            if d is not None:
                if d != isand:
                    return v
                v = self.eval(nxt, fr)
                continue
            # try to merge as conditions
            pc0, ex0 = self.pc, self.explorer
            h0 = dict(self.heap)
            try:
                self.pc = pc0.extend(c if isand else not_(c))
                self.explorer = None
                w = self.eval(nxt, fr)
                t2 = self.cond(self.truth(w))
                self.pc, self.explorer = pc0, ex0
                v = mk_bool(and_(c, t2) if isand else or_(c, t2))
            except (Unsupported, PyRaise):
                self.pc, self.explorer = pc0, ex0
                self.heap = h0
                if self.decide(c) != isand:
                    return v
                v = self.eval(nxt, fr)
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mk_bool(not_(self.cond(t)))
        if isinstance(v, ArrRef):
            return self.np.unary(self, op, v)
        if op == 'USub':
            if isinstance(v, (int, bool)):
                return -v
            if isinstance(v, Num):
                return mk_num(neg(v.poly), v.ty)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, SBool):
                return mk_bool(not_(v.cond))
            if isinstance(v, int):
                return ~v
        if hasattr(v, 'unary'):
            return v.unary(self, op)
        if isinstance(v, ObjRef) and hasattr(self.heap[v], 'o_unary'):
            return self.heap[v].o_unary(self, v, op)
        raise Unsupported('unary %s on %r' % (op, v))

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, fr)
            c = self.compare(type(op).__name__, a, b)
            if acc is None:
                acc = c
            else:
                acc = self.logical_and(acc, c)
            a = b
        return acc

    def logical_and(self, x, y):
        if isinstance(x, bool):
            return y if x else x
        if isinstance(y, bool):
            return x if y else y
        return mk_bool(and_(self.cond(x), self.cond(y)))

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = self.eval_elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                for kk, vv in self.heap[d].d.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        base = self.eval(e.value, fr)
        idx = self.eval_index(e.slice, fr)
        return self.getitem(base, idx)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceVal(self.eval(s.lower, fr) if s.lower is not None else None,
                            self.eval(s.upper, fr) if s.upper is not None else None,
                            self.eval(s.step, fr) if s.step is not None else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_Lambda(self, e, fr):
        defaults = [self.eval(d, fr) for d in e.args.defaults]
        return FuncVal('<lambda>', e, fr.module, fr, defaults, [])

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.env[e.target.id] = v
        return v

    def e_ListComp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, 'list')

    def e_GeneratorExp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, 'gen')

    def e_SetComp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, 'set')

    def e_DictComp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, 'dict')

    # ------------------------------------------------------------ helpers on values

    def is_number(self, v):
        return isinstance(v, (int, Num, SBool)) and not v is None

    def numty(self, v):
        if isinstance(v, (bool, SBool)):
            return 'int'
        if isinstance(v, int):
            return 'int'
        return v.ty

    def poly(self, v):
        if isinstance(v, bool):
            return num(int(v))
        if isinstance(v, int):
            return num(v)
        if isinstance(v, Num):
            return v.poly
        if isinstance(v, SBool):
            return ite(v.cond, ONE, ZERO)
        if isinstance(v, Poly):
            return v
        if isinstance(v, ArrRef):
            A = self.arr(v)
            if A.ndim == 0:
                r = A.at()
                return ite(r, ONE, ZERO) if isinstance(r, Cond) else r
            if all(s.is_const and s.const == 1 for s in A.shape):
                return A.at(*[ZERO] * A.ndim)
        raise Unsupported('not a number: %r' % (v,))

    def cond(self, v):
        if isinstance(v, bool):
            return cbool(v)
        if isinstance(v, SBool):
            return v.cond
        if isinstance(v, Cond):
            return v
        raise Unsupported('not a condition: %r' % (v,))

    def truth(self, v):
        """bool or SBool"""
        if isinstance(v, (bool, SBool)):
            return v
        if v is None:
            return False
        if isinstance(v, Cond):
            return mk_bool(v)
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Num):
            return mk_bool(ne(v.poly, 0))
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, ListRef):
            return mk_bool(gt(self.length(v), 0))
        if isinstance(v, DictRef):
            return len(self.heap[v].d) > 0
        if isinstance(v, ArrRef):
            A = self.arr(v)
            n = ONE
            for s in A.shape:
                n = n * s
            if A.ndim == 0 or (n.is_const and n.const == 1):
                r = A.at(*[ZERO] * A.ndim)
                return mk_bool(r if isinstance(r, Cond) else ne(r, 0))
            raise PyRaise('ValueError', 'truth value of an array is ambiguous')
        if isinstance(v, (FuncVal, Builtin, ClassVal, InstRef, BoundMethod, TypeVal, ModVal)):
            return True
        if hasattr(v, 'truth'):
            return v.truth(self)
        raise Unsupported('truth of %r' % (v,))

    # arrays -----------------------------------------------------------------

    def new_arr(self, A):
        r = ArrRef()
        self.heap[r] = A
        return r

    def arr(self, ref):
        """current content of an array value"""
        e = self.heap[ref]
        if isinstance(e, View):
            base = self.arr(e.base)
            return Arr(e.shape, lambda idx: base.at(*e.fwd(idx)), base.dtype)
        return e

    def new_list(self, items, kind='list'):
        r = ListRef()
        self.heap[r] = PyList(items, kind)
        return r

    def new_symlist(self, n, fn, info=None, kind='list'):
        r = ListRef()
        self.heap[r] = SymList(n, fn, info, kind)
        return r

    def new_dict(self, d):
        r = DictRef()
        self.heap[r] = PyDict(d)
        return r

    def length(self, v):
        """Poly length"""
        if isinstance(v, ArrRef):
            A = self.heap[v]
            if not A.shape:
                raise PyRaise('TypeError', 'len() of unsized object')
            return A.shape[0]
        if isinstance(v, ListRef):
            L = self.heap[v]
            return num(len(L.items)) if isinstance(L, PyList) else L.n
        if isinstance(v, (tuple, str)):
            return num(len(v))
        if isinstance(v, DictRef):
            return num(len(self.heap[v].d))
        if isinstance(v, RangeVal):
            return self.range_len(v)
        if isinstance(v, SymIter):
            return v.n
        if isinstance(v, ObjRef) and hasattr(self.heap[v], 'o_len'):
            return self.heap[v].o_len()
        if hasattr(v, 'length'):
            return v.length(self)
        if isinstance(v, (Num, int, float)) or v is None:
            raise PyRaise('TypeError', 'object has no len()')
        raise Unsupported('len of %r' % (v,))

    def range_len(self, r):
        st = r.step
        d = r.hi - r.lo
        if st == 1:
            n = d
        elif st == -1:
            n = neg(d)
        elif st > 0:
            n = T.floor((d + (st - 1)) / st)
        else:
            n = T.floor((neg(d) + (-st - 1)) / (-st))
        if n.is_const:
            return n if n.const > 0 else ZERO
        dd = prover.decide(self.pc, le(0, n))
        if dd is True:
            return n
        return max_(n, ZERO)

    def concrete_items(self, v):
        """list of values if the sequence has concrete length, else None"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, ListRef):
            L = self.heap[v]
            if isinstance(L, PyList):
                return list(L.items)
            if L.n.is_const:
                return [L.at(num(i)) for i in range(int(L.n.const))]
            return None
        if isinstance(v, DictRef):
            return list(self.heap[v].d.keys())
        if isinstance(v, RangeVal):
            n = self.range_len(v)
            if n.is_const:
                return [mk_int(v.lo + i * v.step) for i in range(int(n.const))]
            return None
        if isinstance(v, ArrRef):
            A = self.arr(v)
            if A.ndim == 0:
                raise PyRaise('TypeError', 'iteration over a 0-d array')
            if A.shape[0].is_const:
                return [self.getitem(v, i) for i in range(int(A.shape[0].const))]
            return None
        if hasattr(v, 'concrete_list'):
            return v.concrete_list(self)
        if isinstance(v, SymIter):
            if v.n.is_const:
                return [v.at(num(i)) for i in range(int(v.n.const))]
            return None
        return None

    def iterate(self, v):
        """concrete list or SymIter"""
        r = self.concrete_items(v)
        if r is not None:
            return r
        if isinstance(v, ListRef):
            L = self.heap[v]
            return SymIter(L.n, L.at, v)
        if isinstance(v, RangeVal):
            n = self.range_len(v)
            return SymIter(n, lambda k: mk_int(v.lo + P(k) * v.step), v)
        if isinstance(v, ArrRef):
            A = self.arr(v)

            def at(k, A=A):
                return self.np.elem_value(self, A, (P(k),))
            return SymIter(A.shape[0], at, v)
        if isinstance(v, SymIter):
            return v
        if hasattr(v, 'iterate'):
            return v.iterate(self)
        if isinstance(v, ObjRef) and hasattr(self.heap[v], 'o_iter'):
            return self.heap[v].o_iter(self, v)
        if isinstance(v, ObjRef) and hasattr(self.heap[v], 'o_to_arr'):
            return self.iterate(self.new_arr(self.heap[v].o_to_arr(self, v)))
        if isinstance(v, (Num, int, SBool)) or v is None:
            raise PyRaise('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------ operators

    def binop(self, op, a, b):
        for x, y, refl in ((a, b, False), (b, a, True)):
            if hasattr(x, 'binop'):
                r = x.binop(self, op, y, refl)
                if r is not None:
                    return r
        if isinstance(a, ObjRef) or isinstance(b, ObjRef):
            return self.bm.obj_binop(self, op, a, b)
        if isinstance(a, ArrRef) or isinstance(b, ArrRef):
            return self.np.binop(self, op, a, b)
        if isinstance(a, str) and op == 'Mod':
            return self.bm.percent_format(self, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == 'Add':
            return a + b
        if isinstance(a, str) and isinstance(b, int) and op == 'Mult':
            return a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, ListRef) and op == 'Add' and isinstance(b, ListRef):
            return self.list_concat(a, b)
        if isinstance(a, ListRef) and op == 'Mult' and self.is_number(b):
            items = self.concrete_items(a)
            nb = self.poly(b)
            if items is not None and nb.is_const:
                return self.new_list(items * int(nb.const))
            if items is not None and len(items) == 1:
                it = items[0]
                return self.new_symlist(nb, lambda k: it)
            raise Unsupported('list repetition')
        if self.is_number(a) and self.is_number(b):
            return self.num_binop(op, a, b)
        if (self.is_number(a) or isinstance(a, (str, type(None), tuple, ListRef))) and \
                (self.is_number(b) or isinstance(b, (str, type(None), tuple, ListRef))):
            raise PyRaise('TypeError', 'bad operand types for %s' % op)
        raise Unsupported('operator %s on %r and %r' % (op, a, b))

    def num_binop(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int) and op not in ('Div', 'Pow') \
                or isinstance(a, int) and isinstance(b, int) and op == 'Pow' and b >= 0:
            import operator as o
            fs = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'FloorDiv': o.floordiv, 'Mod': o.mod,
                  'Pow': o.pow, 'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor, 'LShift': o.lshift,
                  'RShift': o.rshift}
            if op in ('FloorDiv', 'Mod') and b == 0:
                raise PyRaise('ZeroDivisionError')
            if op in fs:
                return fs[op](int(a) if isinstance(a, bool) and op not in ('BitAnd', 'BitOr', 'BitXor') else a,
                              int(b) if isinstance(b, bool) and op not in ('BitAnd', 'BitOr', 'BitXor') else b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and op in ('BitAnd', 'BitOr'):
            f = and_ if op == 'BitAnd' else or_
            return mk_bool(f(self.cond(a), self.cond(b)))
        p, q = self.poly(a), self.poly(b)
        ta, tb = self.numty(a), self.numty(b)
        ty = 'complex' if 'complex' in (ta, tb) else 'float' if 'float' in (ta, tb) else 'int'
        r = self.poly_op(op, p, q, scalar=True)
        if op == 'Div' and ty == 'int':
            ty = 'float'
        if op == 'Pow' and ty == 'int' and not is_int(r):
            ty = 'float'
        return mk_num(r, ty)

    def poly_op(self, op, p, q, scalar=False):
        if op == 'Add':
            return p + q
        if op == 'Sub':
            return p - q
        if op == 'Mult':
            return p * q
        if op == 'Div':
            if q.is_zero:
                if scalar:
                    raise PyRaise('ZeroDivisionError')
                raise Unsupported('division by a zero array element')
            return p / q
        if op == 'Pow':
            if q.is_const:
                if p.is_zero and q.const < 0:
                    raise PyRaise('ZeroDivisionError')
                return power(p, q.const)
            return T.power_sym(p, q)
        if op == 'FloorDiv':
            if q.is_zero:
                raise PyRaise('ZeroDivisionError')
            return T.floor(p / q)
        if op == 'Mod':
            if q.is_zero:
                raise PyRaise('ZeroDivisionError')
            return T.mod(p, q)
        if op == 'RShift' and q.is_const:
            return T.floor(p / num(2 ** int(q.const)))
        if op == 'LShift' and q.is_const:
            return p * num(2 ** int(q.const))
        if op in ('RShift', 'LShift'):
            # 2**q with symbolic q
            w = self.pow2(q)
            return T.floor(p / w) if op == 'RShift' else p * w
        if op == 'BitAnd':
            for x, y in ((p, q), (q, p)):
                if y.is_const and y.const >= 0:
                    m = int(y.const)
                    if m & (m + 1) == 0:            # low mask
                        return T.mod(x, num(m + 1))
                    if m & (m - 1) == 0:            # single bit
                        return num(m) * T.mod(T.floor(x / num(m)), num(2))
        raise Unsupported('numeric operator %s' % op)

    def pow2(self, q):
        return T.power_sym(num(2), q)

    CMP = {'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge, 'Eq': eq, 'NotEq': ne}

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return r if op == 'Is' else (not r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if op == 'In':
                return r
            return (not r) if isinstance(r, bool) else mk_bool(not_(self.cond(r)))
        for x, y, refl in ((a, b, False), (b, a, True)):
            if hasattr(x, 'compare'):
                r = x.compare(self, op, y, refl)
                if r is not None:
                    return r
        if isinstance(a, ObjRef) or isinstance(b, ObjRef):
            return self.bm.obj_compare(self, op, a, b)
        if isinstance(a, ArrRef) or isinstance(b, ArrRef):
            return self.np.compare(self, op, a, b)
        if self.is_number(a) and self.is_number(b):
            if isinstance(a, int) and isinstance(b, int):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}[op]
            return mk_bool(self.CMP[op](self.poly(a), self.poly(b)))
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}[op]
        if op in ('Eq', 'NotEq'):
            r = self.generic_eq(a, b)
            if op == 'Eq':
                return r
            return (not r) if isinstance(r, bool) else mk_bool(not_(self.cond(r)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported('tuple ordering')
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyRaise('TypeError', 'unorderable')
        raise Unsupported('comparison %s of %r and %r' % (op, a, b))

    def generic_eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, TypeVal) and isinstance(b, TypeVal):
            return a.name == b.name
        if isinstance(a, (tuple, ListRef)) and isinstance(b, (tuple, ListRef)) and \
                isinstance(a, tuple) == isinstance(b, tuple):
            x, y = self.concrete_items(a), self.concrete_items(b)
            if x is not None and y is not None:
                if len(x) != len(y):
                    return False
                acc = True
                for u, v in zip(x, y):
                    acc = self.logical_and(acc, self.compare('Eq', u, v))
                return acc
            la, lb = self.length(a), self.length(b)
            if (la - lb).is_const and not (la - lb).is_zero:
                return False
            if (x == [] and y is None) or (y == [] and x is None):
                return mk_bool(eq(la, lb))
            raise Unsupported('equality of symbolic lists')
        if isinstance(a, (InstRef, ObjRef, FuncVal, ClassVal, ModVal, Builtin)) or \
                isinstance(b, (InstRef, ObjRef, FuncVal, ClassVal, ModVal, Builtin)):
            return a is b or (isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name)
        simple = (int, str, type(None), bool, Num, SBool, tuple, ListRef, DictRef, TypeVal)
        if isinstance(a, simple) and isinstance(b, simple):
            if type(a) is not type(b):
                return False
        if isinstance(a, DictRef) and isinstance(b, DictRef):
            x, y = self.heap[a].d, self.heap[b].d
            if set(x) != set(y):
                return False
            acc = True
            for k in x:
                acc = self.logical_and(acc, self.compare('Eq', x[k], y[k]))
            return acc
        raise Unsupported('equality of %r and %r' % (a, b))

    def identical(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, TypeVal) and isinstance(b, TypeVal):
            return a.name == b.name
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return False

    def contains(self, container, x):
        if hasattr(container, 'contains'):
            return container.contains(self, x)
        if isinstance(container, str):
            if isinstance(x, str):
                return x in container
            if hasattr(x, 'in_str'):
                return x.in_str(self, container)
            raise Unsupported('in str')
        if isinstance(container, DictRef):
            if hasattr(x, 'is_str'):
                acc = FALSE
                for y in self.heap[container].d:
                    acc = or_(acc, self.cond(self.compare('Eq', x, y)) if isinstance(y, str) else FALSE)
                return mk_bool(acc)
            return self.key(x) in self.heap[container].d
        if isinstance(container, ObjRef) and hasattr(self.heap[container], 'o_contains'):
            return self.heap[container].o_contains(self, x)
        items = self.concrete_items(container)
        if items is not None:
            acc = FALSE
            for it in items:
                r = self.compare('Eq', it, x)
                acc = or_(acc, self.cond(r))
            return mk_bool(acc)
        raise Unsupported('membership in %r' % (container,))

    # ------------------------------------------------------------ items

    def norm_index(self, i, n, what='index'):
        """bounds-checked index as Poly in [0,n)"""
        p = self.poly(i)
        n = P(n)
        if p.is_const and p.const < 0:
            if not self.decide(le(neg(p), n)):
                raise PyRaise('IndexError', what)
            return n + p
        if p.is_const:
            if not self.decide(lt(p, n)):
                raise PyRaise('IndexError', what)
            return p
        d = prover.decide(self.pc, le(0, p))
        if d is None:
            d = self.decide(le(0, p))
        if d:
            if not self.decide(lt(p, n)):
                raise PyRaise('IndexError', what)
            return p
        if not self.decide(le(neg(p), n)):
            raise PyRaise('IndexError', what)
        return n + p

    def clamp(self, v, n, default, neg_step=False):
        """slice bound -> Poly within [0,n]"""
        if v is None:
            return default
        p = self.poly(v)
        if p.is_const and p.const < 0:
            q = n + p
            d = prover.decide(self.pc, le(0, q))
            if d is True:
                return q
            if d is False:
                return ZERO
            return max_(q, ZERO)
        d0 = True if p.is_const else prover.decide(self.pc, le(0, p))
        if d0 is not True:
            if d0 is None:
                d0 = self.decide(le(0, p))
            if d0 is False:
                q = n + p
                d = prover.decide(self.pc, le(0, q))
                return q if d is True else ZERO if d is False else max_(q, ZERO)
        d1 = prover.decide(self.pc, le(p, n))
        if d1 is True:
            return p
        if d1 is False:
            return n
        return min_(p, n)

    def slice_bounds(self, s, n):
        """(lo, length, step int) for a slice over length n"""
        n = P(n)
        st = 1 if s.step is None else self.poly(s.step)
        if isinstance(st, Poly):
            if not st.is_const:
                return self.sym_step(s, n, st)
            st = int(st.const)
        if st > 0:
            lo = self.clamp(s.lo, n, ZERO)
            hi = self.clamp(s.hi, n, n)
            d = hi - lo
            if st != 1:
                d = T.floor((d + (st - 1)) / st)
        else:
            if s.lo is None:
                lo = T.unclamp(n) - 1       # an element exists only where the length is positive
            else:
                lo = self.clamp(s.lo, n, None)
                if prover.decide(self.pc, lt(lo, n)) is not True:
                    lo = min_(lo, n - 1)
            if s.hi is None:
                hi = num(-1)
            else:
                hi = self.clamp(s.hi, n, None)
            d = lo - hi
            if st != -1:
                d = T.floor((d + (-st - 1)) / (-st))
        if d.is_const:
            d = d if d.const > 0 else ZERO
        else:
            x = prover.decide(self.pc, le(0, d))
            if x is False:
                d = ZERO
            elif x is None:
                d = max_(d, ZERO)
        return lo, d, st

    def sym_step(self, s, n, st):
        if s.lo is None and s.hi is None:
            if not self.decide(lt(0, st)):
                raise Unsupported('symbolic negative step')
            return ZERO, T.floor((n + st - 1) / st), st
        raise Unsupported('symbolic slice step')

    def getitem(self, base, idx):
        if hasattr(base, 'getitem'):
            return base.getitem(self, idx)
        if isinstance(base, ObjRef):
            return self.bm.obj_getitem(self, base, idx)
        if isinstance(base, ArrRef):
            return self.np.getitem(self, base, idx)
        if isinstance(base, DictRef):
            d = self.heap[base].d
            k = self.key(idx)
            if k not in d:
                raise PyRaise('KeyError', repr(k))
            return d[k]
        if isinstance(base, (tuple, str)):
            if isinstance(idx, SliceVal):
                lo, hi, st = [None if x is None else self.poly(x) for x in (idx.lo, idx.hi, idx.step)]
                if all(x is None or x.is_const for x in (lo, hi, st)):
                    f = lambda x: None if x is None else int(x.const)
                    return base[slice(f(lo), f(hi), f(st))]
                raise Unsupported('symbolic slice of a concrete sequence')
            p = self.poly(idx)
            if p.is_const:
                try:
                    return base[int(p.const)]
                except IndexError:
                    raise PyRaise('IndexError')
            if isinstance(base, tuple):
                return self.select_concrete(list(base), p)
            raise Unsupported('symbolic index of a concrete string')
        if isinstance(base, ListRef):
            return self.list_getitem(base, idx)
        if isinstance(base, RangeVal):
            n = self.range_len(base)
            i = self.norm_index(idx, n)
            return mk_int(base.lo + i * base.step)
        if self.is_number(base) or base is None:
            raise PyRaise('TypeError', 'not subscriptable')
        raise Unsupported('subscript of %r' % (base,))

    def select_concrete(self, items, p, within=False):
        n = len(items)
        i = P(p) if within else self.norm_index(mk_int(p), num(n))
        if within and (n == 1 or i.is_const and not 0 <= i.const < n):
            return items[0]     # an index known to be in range
        if i.is_const:
            return items[int(i.const)]
        if all(self.is_number(x) for x in items) and items:
            r = self.poly(items[-1])
            ty = 'int' if all(self.numty(x) == 'int' for x in items) else 'float'
            for k in range(n - 2, -1, -1):
                r = ite(eq(i, k), self.poly(items[k]), r)
            return mk_num(r, ty)
        for k in range(n - 1):
            if self.decide(eq(i, k)):
                return items[k]
        return items[-1]

    def list_getitem(self, base, idx):
        L = self.heap[base]
        if isinstance(idx, SliceVal):
            if isinstance(L, PyList):
                lo, hi, st = [None if x is None else self.poly(x) for x in (idx.lo, idx.hi, idx.step)]
                if all(x is None or x.is_const for x in (lo, hi, st)):
                    f = lambda x: None if x is None else int(x.const)
                    return self.new_list(L.items[slice(f(lo), f(hi), f(st))])
            n = self.length(base)
            lo, m, st = self.slice_bounds(idx, n)
            it = self.iterate(base)
            if isinstance(it, list):
                return self.new_symlist(m, lambda k: self.select_concrete(it, lo + k * st))
            return self.new_symlist(m, lambda k: it.at(lo + k * st))
        if isinstance(idx, (tuple, ListRef, str)) or idx is None:
            raise PyRaise('TypeError', 'list indices must be integers')
        if self.is_number(idx) and self.numty(idx) == 'float':
            raise PyRaise('TypeError', 'list indices must be integers')
        if isinstance(L, PyList):
            p = self.poly(idx)
            if p.is_const:
                try:
                    return L.items[int(p.const)]
                except IndexError:
                    raise PyRaise('IndexError')
            return self.select_concrete(list(L.items), p)
        i = self.norm_index(idx, L.n, 'list index')
        return L.at(i)

    def setitem(self, base, idx, v):
        if isinstance(base, ArrRef):
            self.np.setitem(self, base, idx, v)
            return
        if isinstance(base, DictRef):
            d = dict(self.heap[base].d)
            d[self.key(idx)] = v
            self.heap[base] = PyDict(d)
            return
        if isinstance(base, ListRef):
            L = self.heap[base]
            if isinstance(L, PyList) and not isinstance(idx, SliceVal):
                p = self.poly(idx)
                if p.is_const:
                    items = list(L.items)
                    try:
                        items[int(p.const)] = v
                    except IndexError:
                        raise PyRaise('IndexError')
                    self.heap[base] = PyList(items, L.kind)
                    return
                if self.is_number(v) and all(self.is_number(x) for x in L.items):
                    i = self.norm_index(idx, num(len(L.items)))
                    items = [self.merge_values(eq(i, k), v, x) for k, x in enumerate(L.items)]
                    self.heap[base] = PyList(items, L.kind)
                    return
            if isinstance(L, SymList) and not isinstance(idx, SliceVal):
                i = self.norm_index(idx, L.n)
                if self.is_number(v):
                    self.heap[base] = SymList(L.n, lambda k: self.merge_values(eq(k, i), v, L.at(k)))
                    self.writes.append((base, (('pt', i),), lambda ix: v))
                    return
            raise Unsupported('list item assignment')
        if isinstance(base, ObjRef):
            self.bm.obj_setitem(self, base, idx, v)
            return
        if hasattr(base, 'setitem'):
            base.setitem(self, idx, v)
            return
        if isinstance(base, (tuple, str)) or self.is_number(base) or base is None:
            raise PyRaise('TypeError', 'item assignment')
        raise Unsupported('item assignment on %r' % (base,))

    def delitem(self, base, idx):
        if isinstance(base, DictRef):
            d = dict(self.heap[base].d)
            k = self.key(idx)
            if k not in d:
                raise PyRaise('KeyError')
            del d[k]
            self.heap[base] = PyDict(d)
            return
        if isinstance(base, ListRef):
            L = self.heap[base]
            if isinstance(L, PyList):
                p = self.poly(idx)
                if p.is_const:
                    items = list(L.items)
                    try:
                        del items[int(p.const)]
                    except IndexError:
                        raise PyRaise('IndexError')
                    self.heap[base] = PyList(items, L.kind)
                    return
            if isinstance(L, SymList):
                p = self.poly(idx)
                if p.is_const and p.const == -1:
                    self.bm.list_pop(self, base, [], {})
                    return
        if isinstance(base, ObjRef):
            self.bm.obj_delitem(self, base, idx)
            return
        raise Unsupported('del item')

    def list_concat(self, a, b):
        x, y = self.concrete_items(a), self.concrete_items(b)
        if x is not None and y is not None:
            return self.new_list(x + y)
        ia, ib = self.iterate(a), self.iterate(b)
        return self.concat_seqs(ia, ib)

    def concat_seqs(self, ia, ib):
        def n(i):
            return num(len(i)) if isinstance(i, list) else i.n

        def at(i, k):
            return self.select_concrete(i, k, True) if isinstance(i, list) else i.at(k)
        na, nb = n(ia), n(ib)

        def f(k):
            d = prover.decide(self.pc, lt(k, na))
            if d is True or nb.is_zero:
                return at(ia, k)
            if d is False or na.is_zero:
                return at(ib, k - na)
            return self.merge_values(lt(k, na), at(ia, k), at(ib, k - na))
        return self.new_symlist(na + nb, f, info={'parts': (ia, ib)})

    def list_extend(self, lst, v):
        L = self.heap[lst]
        items = self.concrete_items(v)
        if isinstance(L, PyList) and items is not None:
            self.heap[lst] = PyList(L.items + tuple(items), L.kind)
            return
        r = self.concat_seqs(self.iterate(lst), items if items is not None else self.iterate(v))
        c = self.heap.pop(r)
        c.info['appended'] = (L, v)
        self.heap[lst] = c

    # ------------------------------------------------------------ attributes

    def getattr(self, v, name):
        if isinstance(v, ModVal):
            if name in v.attrs:
                return v.attrs[name]
            if v.name == self.package or v.name.startswith(self.package + '.'):
                try:
                    return self.load(v.name + '.' + name)
                except Unsupported:
                    raise PyRaise('AttributeError', name)
            sub = v.name + '.' + name
            if sub in self.ext:
                return self.ext[sub]
            return Builtin(sub, None)
        if isinstance(v, InstRef):
            o = self.heap[v]
            if name in o.attrs:
                return o.attrs[name]
            c = self.class_attr(o.cls, name)
            if c is not None:
                return self.bind(v, c)
            raise PyRaise('AttributeError', name)
        if isinstance(v, ClassVal):
            c = self.class_attr(v, name)
            if c is not None:
                if isinstance(c, tuple) and c and c[0] == 'staticmethod':
                    return c[1]
                if isinstance(c, tuple) and c and c[0] == 'classmethod':
                    return BoundMethod(v, c[1])
                return c
            raise PyRaise('AttributeError', name)
        if isinstance(v, ArrRef):
            return self.np.getattr_(self, v, name)
        if isinstance(v, ObjRef):
            return self.bm.obj_getattr(self, v, name)
        if isinstance(v, (ListRef, DictRef, str, tuple, int, Num, SBool)):
            return self.bm.method(self, v, name)
        if isinstance(v, (TypeVal, Builtin)):
            return self.bm.type_attr(self, v, name)
        if hasattr(v, 'getattr'):
            return v.getattr(self, name)
        if v is None:
            raise PyRaise('AttributeError', name)
        raise Unsupported('attribute %s of %r' % (name, v))

    def bind(self, self_, c):
        if isinstance(c, tuple) and c:
            if c[0] == 'staticmethod':
                return c[1]
            if c[0] == 'property':
                return self.call(c[1], [self_], {})
            if c[0] == 'classmethod':
                return BoundMethod(self.heap[self_].cls, c[1])
        if isinstance(c, FuncVal):
            return BoundMethod(self_, c)
        return c

    def class_attr(self, cls, name):
        if name in cls.attrs:
            return cls.attrs[name]
        for b in cls.bases:
            if isinstance(b, ClassVal):
                r = self.class_attr(b, name)
                if r is not None:
                    return r
        return None

    def setattr(self, v, name, x):
        if isinstance(v, InstRef):
            o = self.heap[v]
            a = dict(o.attrs)
            a[name] = x
            self.heap[v] = Inst(o.cls, a)
            return
        if isinstance(v, ObjRef):
            self.bm.obj_setattr(self, v, name, x)
            return
        if isinstance(v, ModVal):
            self.events.append(('global-write', v.name, name))
            v.attrs[name] = x
            return
        raise Unsupported('attribute assignment on %r' % (v,))

    # ------------------------------------------------------------ calls

    def call(self, f, args, kw):
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            if f.f is None:
                fn_ = self.bm.MODELS.get(f.name) or self.np.MODELS.get(f.name)
                if fn_ is None:
                    raise Unsupported('no model of %s' % f.name)
                self.used_models.add(f.name)
                return fn_(self, args, kw)
            self.used_models.add(f.name)
            return f.f(self, args, kw)
        if isinstance(f, TypeVal):
            if f.f is None:
                return Opaque(f.name)
            return f.f(self, args, kw)
        if isinstance(f, ClassVal):
            r = InstRef()
            self.heap[r] = Inst(f, {})
            init = self.class_attr(f, '__init__')
            if init is not None:
                self.call(init, [r] + list(args), kw)
            return r
        if isinstance(f, InstRef):
            c = self.class_attr(self.heap[f].cls, '__call__')
            if c is not None:
                return self.call(c, [f] + list(args), kw)
        if hasattr(f, 'call'):
            return f.call(self, args, kw)
        if f is None or isinstance(f, (int, str, tuple, Num)):
            raise PyRaise('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    def bind_args(self, f, args, kw):
        a = f.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        for i, p in enumerate(params):
            if i < len(args):
                if p in kw:
                    raise PyRaise('TypeError', 'multiple values for %s' % p)
                env[p] = args[i]
            elif p in kw:
                env[p] = kw.pop(p)
            else:
                j = i - (len(params) - len(f.defaults))
                if j < 0:
                    raise PyRaise('TypeError', 'missing argument %s' % p)
                env[p] = f.defaults[j]
        if len(args) > len(params):
            if a.vararg is None:
                raise PyRaise('TypeError', 'too many arguments')
            env[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            else:
                env[p.arg] = d
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(kw)
        elif kw:
            raise PyRaise('TypeError', 'unexpected keyword %s' % list(kw)[0])
        return env

    def call_func(self, f, args, kw):
        lem = self.lemmas.get((f.module.name, f.name))
        if lem is not None:
            r = lem(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if self.call_depth > 60:
            raise Unsupported('recursion too deep')
        env = self.bind_args(f, args, kw)
        fr = Frame(env, f.module, f.env if f.env is not None and f.env.parent is not None or
                   (f.env is not None and f.env.env is not f.module.attrs) else None)
        self.funcs_run.add('%s.%s' % (f.module.name, f.name))
        self.frames.append(fr)
        self.call_depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported('generator function %s' % f.name)
            try:
                self.exec_block(f.node.body, fr)
            except ReturnEx as e:
                return e.v
            return None
        finally:
            self.call_depth -= 1
            if fr in self.frames:
                del self.frames[self.frames.index(fr):]


def merge_arr(c, A, B):
    dt = A.dtype if A.dtype == B.dtype else ('c' if 'c' in (A.dtype, B.dtype) else 'f')

    def f(idx):
        x, y = A.at(*idx), B.at(*idx)
        if isinstance(x, Cond) and isinstance(y, Cond):
            return cite(c, x, y)
        if isinstance(x, Poly) and isinstance(y, Poly):
            return ite(c, x, y)
        raise Unsupported('merge of object arrays')
    if dt == 'O':
        raise Unsupported('merge of object arrays')
    return Arr(A.shape, f, dt)


def simple_block(b):
    for s in b:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            continue
        if isinstance(s, ast.If) and simple_block(s.body) and simple_block(s.orelse):
            continue
        return False
    return True


class Frame:
    def __init__(self, env, module, parent):
        self.env = env
        self.module = module
        self.parent = parent
