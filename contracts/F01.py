"""Frame conditions of every computing function.

The contracts of the computing functions (modules G01..G15) are run for their frame alone: on every path the
arguments keep their contents (except what the contract lists in `modifies`) and the module state of the package,
default arguments included, is what it was before the call.  Together with the value postconditions of those
modules, in which the result is a term over the arguments only, a call has no memory."""
import importlib

MODULES = ['G01', 'G02', 'G03', 'G04', 'G05', 'G06', 'G07', 'G08', 'G09', 'G10', 'G11', 'G12', 'G13', 'G14', 'G15']


def run(C):
    C.frames = True
    C.frames_only = True
    for m in MODULES:
        try:
            mod = importlib.import_module('contracts.' + m)
        except ImportError:
            continue
        mod.run(C)
