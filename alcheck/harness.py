"""
Drivers: scenario descriptions in Python syntax (alcheck/drivers/*.py). They
are interpreted abstractly together with the code of the repository, never
executed. Functions of the pseudo module `prims` give arbitrary values.
"""
import os
import time

from . import contracts, varmodel, world
from .interp import Limit, X, loc, node_site
from .loader import AnalysisBroken, Module
from .values import (
    NONE, Obj, State, V, V_NONE, join_v, v_anyint, v_bool, v_str, v_unk, v_y)

DRIVERS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drivers')
MSGBASE = 'asterisklint.defines:MessageDef'


def install(it, emits=True):
    it.hooks['ext'] = lambda st, name, args, kw, node: prim(
        it, st, name, args, kw, node)
    if emits:
        it.hooks['construct'] = emit_hook
    return it


def prim(it, st, name, args, kw, node):
    if not name.startswith('prims.'):
        return None
    name = name[6:]
    m = PRIMS.get(name)
    if m is None:
        raise AnalysisBroken('no primitive ' + name)
    return m(it, st, args, kw, node)


def label(args, node):
    a = args[0].one if args else None
    if a and a[0] == 's':
        return a[1]
    return node_site(node)


def p_any_str(it, st, args, kw, node):
    return [(st, it.sym(st, 'in:' + label(args, node), 0))]


def p_any_str1(it, st, args, kw, node):
    """nonempty"""
    return [(st, it.sym(st, 'in:' + label(args, node), 1))]


def p_char(it, st, args, kw, node):
    v = it.sym(st, 'in:' + label(args, node), 1)
    st.facts[('one', v.one[1])] = True
    return [(st, v)]


def p_any_bytes(it, st, args, kw, node):
    return [(st, it.sym(st, 'in:' + label(args, node), 0, kind='yb'))]


def p_choice(it, st, args, kw, node):
    return [(st, v_bool())]


def p_some(it, st, args, kw, node):
    """One of the arguments; separate paths."""
    return [(st.copy(), a) for a in args]


def p_any_int(it, st, args, kw, node):
    return [(st, v_anyint(None, None))]


def p_pos_int(it, st, args, kw, node):
    return [(st, v_anyint(1, None))]


def p_unknown(it, st, args, kw, node):
    return [(st, v_unk('prim'))]


def p_event(it, st, args, kw, node):
    st.event('rule', *[a.one[1] if a.one and len(a.one) > 1 else repr(a)
                       for a in args])
    return [(st, V_NONE)]


def p_mark(it, st, args, kw, node):
    """mark(name, value): typestate"""
    st.ts[label(args, node)] = args[1] if len(args) > 1 else True
    return [(st, V_NONE)]


def bump(st, name):
    st.ts[name] = min(st.ts.get(name, 0) + 1, 3)


def p_count(it, st, args, kw, node):
    bump(st, label(args, node))
    return [(st, V_NONE)]


def p_stop(it, st, args, kw, node):
    return []


def p_any_var(it, st, args, kw, node):
    return [(st, join_v(varmodel.atom_var(it, st, node),
                        varmodel.joined(it, st, node)))]


PRIMS = {k[2:]: v for k, v in globals().items() if k.startswith('p_')}


def print_hook(it):
    def h(st, args, kw, node):
        f = kw.get('file')
        a = f.one if f is not None else ('none',)
        where = ('stderr' if a == ('xm', 'sys.stderr') else 'stdout'
                 if a in (('none',), ('xm', 'sys.stdout')) else 'other')
        st.event('print', where, tuple(args), loc(node))
        bump(st, 'print:' + where)
    return h


def unknown_hook(st, a, args, kwargs, node):
    st.ts['unk'] = True


def count_messages(it, st, qual, args, kwargs, node):
    if not is_msg(it, qual):
        return None
    bump(st, 'm:' + qual.rsplit(':', 1)[1])
    return emit_hook(it, st, qual, args, kwargs, node)


def is_msg(it, qual):
    return qual in it.cls_info and it.is_subclass(qual, MSGBASE)


def emit_hook(it, st, qual, args, kwargs, node):
    if not is_msg(it, qual):
        return None
    where = args[0] if args else kwargs.get('where')
    rest = dict((k, v) for k, v in kwargs.items() if k != 'where')
    if len(args) > 1:
        rest['previous'] = args[1]
    ev = ('emit', qual, where, tuple(sorted(rest.items())), node_site(node),
          loc(node))
    it.emits.append((ev, tuple(it.stack), len(args)))
    if st.TRACE:
        st.tr = st.tr + (ev,)
    site = ('msg', qual)
    return [(st, it.new(st, site, Obj('inst', qual, {}, tags=frozenset(
        ['open']))))]


UNTIL = []      # when everything that is left becomes undecided


class Driver:
    def __init__(self, name, it=None, version=None, trace=True, vars=True,
                 exclude=(), scanners=True, direct=None):
        State.TRACE = trace
        self.it = it or install(world.make(version))
        if vars:
            varmodel.install(self.it, exclude, scanners)
            contracts.install(self.it, direct)
        self.name = name
        path = os.path.join(DRIVERS, name + '.py')
        modname = 'aldriver.' + name
        mod = Module(modname, path, False)
        self.it.loader.paths[modname] = (path, False)
        self.it.loader.modules[modname] = mod
        st = world.fresh(self.it)
        self.it.cur_st = st
        self.it.concrete = True
        self.it.load_module(st, modname)
        self.it.concrete = False
        for k, o in st.heap.items():
            self.it.base[k] = o
        self.mod = self.it.base[('mod', modname)]

    def functions(self, prefix=''):
        return [k for k, v in self.mod.f.items()
                if v.one and v.one[0] == 'fn' and k.startswith(prefix) and
                v.one[1].startswith('aldriver')]

    def run(self, fname, args=()):
        st = world.fresh(self.it)
        self.it.cur_st = st
        self.it.stack = []
        self.it.steps = 0
        v = self.mod.f.get(fname)
        if v is None:
            raise AnalysisBroken('no driver {}'.format(fname))
        return self.it.run(st, v.one, list(args))

    def run_exact(self, fname, args=(), steps=60000, seconds=15):
        """
        For scenarios without (or with few) unknowns: loops and recursion
        are followed as they run, objects and paths are kept apart. None if
        that takes too long.
        """
        if UNTIL:
            left = UNTIL[0] - time.time()
            if left < 0:
                return None
            seconds = min(seconds, left + 5)
        self.it.exact = True
        old = self.it.MAXSTEPS
        self.it.MAXSTEPS = steps
        self.it.deadline = time.process_time() + seconds
        try:
            return self.run(fname, args)
        except Limit:
            if os.environ.get("ALCHECK_DEBUG") == "2":
                raise
            return None
        except AnalysisBroken:
            raise
        except Exception:
            # Something that the analysis cannot cope with: not decided.
            if os.environ.get('ALCHECK_DEBUG'):
                raise
            return None
        finally:
            self.it.exact = False
            self.it.deadline = None
            self.it.MAXSTEPS = old
