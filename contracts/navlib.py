"""Shared inputs of the navigation contracts: symbolic lists of files read by a user-supplied function."""
from .base import *
from engine import pdmodel, strmodel as S, filemodel as F, dtmodel
from engine.builtins_model import BUILTINS


def path_word(f):
    return S.mk([S.Word(fn('path', P(f), sort='i'), S.PRINT - frozenset(' ')), '.gps'])


def path_no(p):
    """the file number a path stands for"""
    if isinstance(p, S.SStr) and isinstance(p.ps[0], S.Run):
        a = T.single_atom(p.ps[0].p)
        if a is not None and a.name == 'path' and p.ps[1:] == ('.gps',):
            return a.args[0]
    return None


def files_reader(name='L'):
    """file f has el(name, f) >= 1 lines, line(f, j)"""
    def files(I, path, mode):
        f = path_no(path)
        if f is None:
            raise Unsupported('unexpected path %r' % (path,))
        t = F.Text(length(f, name), lambda j: S.mk([S.Word(fn('line', f, j, sort='i'), S.PRINT, 0)]), name=f)
        return F.text_file(I, path, mode, t)
    return files


def length(f, name='L'):
    return el(name, f, sort='i', nonneg=True) + 1


def ship_fun(fixes, talker, linelen='L'):
    """a user-supplied reading function: number of fixes, longitudes, latitudes and times of file f"""
    def g(I, args, kw):
        I.oblige('ship function is given the lines and the talker', len(args) == 2 and not kw and args[1] == talker, repr(args))
        v = args[0]
        A = N.to_arr(I, v)
        j = fresh('j')
        s = A.at(j)
        f = None
        if isinstance(s, S.SStr) and isinstance(s.ps[0], S.Run):
            a = T.single_atom(s.ps[0].p)
            if a is not None and a.name == 'line' and a.args[1] is j and s.ps[1:] == ('\n',):
                f = a.args[0]
        ok = f is not None and prover.prove_eq(A.shape[0], length(f, linelen), I.pc)
        I.oblige('ship function is given every line of the file', ok, repr(s))
        if not ok:
            raise Unsupported('ship function called with something else')
        n, lon, lat, t = fixes(f)
        return (I.new_arr(Arr((n,), lambda ix: lon(ix[0]), 'f')), I.new_arr(Arr((n,), lambda ix: lat(ix[0]), 'f')),
                I.new_arr(Arr((n,), lambda ix: dtmodel.DT(t(ix[0]), ZERO), 'O')))
    return Builtin('ship_function', g)
