"""
The initial state: all modules imported, the registries loaded.

Module bodies and registration have no input; they are evaluated by constant
propagation over the syntax tree, and the result is the heap that every
scenario starts from.
"""
import sys

from .interp import X
from .library import Library
from .loader import AnalysisBroken, Loader
from .values import State, V, V_NONE, v_str

sys.setrecursionlimit(30000)

MODULES = (
    'asterisklint.defines', 'asterisklint.file', 'asterisklint.config',
    'asterisklint.configobj', 'asterisklint.configws',
    'asterisklint.dialplan', 'asterisklint.func_odbc',
    'asterisklint.application', 'asterisklint.varfun')


def make(version=None, modules=MODULES, registries=True, loader=None):
    it = Library(loader or Loader())
    it.cls_info = {}
    st = State()
    it.cur_st = st
    it.concrete = True
    it.environ = {'ALINT_IGNORE': v_str('')}
    for name in modules:
        if it.load_module(st, name) is None:
            raise AnalysisBroken('no module {}'.format(name))
    if registries:
        st = registry(it, st, version)
    it.concrete = False
    it.base = st.heap
    st.heap = {}
    it.world_facts = dict(st.facts)
    return it


def single(it, res, what):
    res = [(s, v) for s, v in res if not isinstance(v, X)] or res
    if len(res) != 1 or isinstance(res[0][1], X):
        raise AnalysisBroken('{}: {} results: {}'.format(
            what, len(res), [getattr(v, 'v', v) for s, v in res][:4]))
    return res[0]


def registry(it, st, version):
    if version:
        st, v = single(it, it.call_class(
            st, 'asterisklint.version:AsteriskVersion', [v_str(version)], {},
            None), 'AsteriskVersion({!r})'.format(version))
    for qual in ('asterisklint.application:AppLoader',
                 'asterisklint.varfun:FuncLoader'):
        st, v = single(it, it.call_class(st, qual, [], {}, None),
                       qual.rsplit(':', 1)[1])
    return st


def fresh(it):
    st = State()
    st.facts = dict(it.world_facts)
    return st
