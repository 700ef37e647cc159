"""
Path-sensitive interprocedural abstract interpreter over the syntax tree.

See DESIGN.md. Everything that is not understood becomes an unknown value,
and unknown values never give rise to an alarm.
"""
import ast
import itertools
import time
import builtins as _py

from .loader import AnalysisBroken, Loader
from .values import (
    FALSE, MISSING, NONE, Obj, State, TRUE, V, V_FALSE, V_MISSING, V_NONE,
    V_TRUE, const_of, join_obj, join_v, map_state, mkterm, norm, obj_oids,
    atom_oids, pyconst, term_mentions, v_anyint, v_bool, v_int, v_str,
    v_tuple, v_unk, v_y, widen_v)


class Limit(Exception):
    pass


class Exc:
    """A raised exception."""
    __slots__ = ('name', 'ev', 'node', 'msg', 'val', 'chain')

    def __init__(self, name, ev, node, msg='', val=None, chain=()):
        self.name, self.ev, self.node = name, ev, node
        self.msg, self.val = msg, val
        self.chain = chain

    def key(self):
        return (self.name, self.ev, loc(self.node))

    def __repr__(self):
        return 'Exc({} at {} ev={} {})'.format(
            self.name, loc(self.node), self.ev, self.msg)


class X:
    """Abnormal result of an expression. kind: 'x' (exception, exc) or
    'g' (leaving a generator, payload)."""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def loc(node):
    if node is None:
        return '?'
    mod = getattr(node, '_mod', None)
    return '{}:{}'.format(mod.rel if mod else '?', getattr(
        node, 'lineno', '?'))


def node_site(node):
    mod = getattr(node, '_mod', None)
    return '{}:{}:{}'.format(mod.name if mod else '?', getattr(
        node, 'lineno', 0), getattr(node, 'col_offset', 0))


class FuncInfo:
    def __init__(self, qual, node, mod, cls):
        self.qual, self.node, self.mod, self.cls = qual, node, mod, cls
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.pos = [i.arg for i in getattr(a, 'posonlyargs', [])] + [
            i.arg for i in a.args]
        self.kwonly = [i.arg for i in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        if isinstance(node, ast.Lambda):
            self.is_gen = False
            self.locals = set()
        else:
            self.is_gen = has_yield(node)
        self.globals = set()
        self.nonlocals = set()
        self.locals = set(self.pos + self.kwonly)
        for i in (self.vararg, self.kwarg):
            if i:
                self.locals.add(i)
        if not isinstance(node, ast.Lambda):
            collect_locals(node.body, self)

    @property
    def short(self):
        return self.qual.split(':', 1)[-1]


def own_nodes(node):
    """Nodes of the function itself, not of nested functions/classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def has_yield(node):
    for stmt in node.body:
        if isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
            continue
        for n in [stmt] + list(own_nodes(stmt)):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def collect_locals(body, info):
    for stmt in body:
        for n in [stmt] + list(
                [] if isinstance(stmt, (ast.FunctionDef, ast.ClassDef))
                else own_nodes(stmt)):
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                info.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                info.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    info.locals.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                info.locals.add(n.name)
            elif isinstance(n, ast.Global):
                info.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                info.nonlocals.update(n.names)
    info.locals -= info.globals
    info.locals -= info.nonlocals


BUILTIN_CLASSES = {k: v for k, v in vars(_py).items()
                   if isinstance(v, type)}


class Interp:
    K = 1               # recent objects per allocation site
    CAP = 48            # states per point before merging harder
    FIXMAX = 14
    MAXSTEPS = 3000000
    DEPTH = 60
    deadline = None     # process time

    def __init__(self, loader=None):
        self.loader = loader or Loader()
        self.base = {}
        self.funcs = {}
        self.classes = {}       # qual -> ast node
        self.mros = {}
        self.overrides = {}     # function qual -> handler
        self.hooks = {}
        self.concrete = False
        self.exact = False      # scenarios with constants only: keep apart
        self.counter = 0
        self.stack = []         # call stack of function quals
        self.handlers = {}      # fid -> yield handler
        self.fnof = {}          # frame id -> FuncInfo
        self.fidcount = 0
        self.steps = 0
        self.emits = []         # all emit events ever
        self.extcalls = []
        self.reached = set()    # functions interpreted
        self.recursion = {}     # fn -> summaries
        self.notes = []
        self.iter_hook = None
        self.modules_loading = set()
        self.symcount = 0

    # ------------------------------------------------------------------
    # heap
    # ------------------------------------------------------------------
    def obj(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.base.get(oid)
        return o

    def put(self, st, oid, o):
        st.heap[oid] = o

    def alloc(self, st, site, o):
        if self.concrete or self.exact:
            self.counter += 1
            oid = (site, self.counter)
            st.heap[oid] = o
            return oid
        i = 0
        while (site, i) in st.heap:
            i += 1
        st.heap[(site, i)] = o
        return (site, i)

    def new(self, st, site, o):
        return V([('o', self.alloc(st, site, o))])

    def gc(self, st, old, extra=None, collapse=False):
        """
        Drop what was allocated after old (the oids of then) and cannot be
        reached any more. Values that are held by expressions in progress
        were all there before.

        collapse: keep only the latest object of each place, the others go
        into one summary object.
        """
        new = [oid for oid in st.heap if oid not in old]
        if not new or self.exact and len(new) < 400:
            return
        collapse = collapse and not self.exact
        todo = []
        for env in st.fr.values():
            for v in env.values():
                if isinstance(v, V):
                    for a in v.a:
                        atom_oids(a, todo)
        for ev in st.tr:
            ev_oids(ev, todo)
        if isinstance(extra, Exc):
            extra = extra.val
        if isinstance(extra, V):
            for a in extra.a:
                atom_oids(a, todo)
        for v in st.ts.values():
            if isinstance(v, V):
                for a in v.a:
                    atom_oids(a, todo)
        for oid in st.heap:
            if oid in old or oid in self.base:
                todo.append(oid)
            elif isinstance(oid[0], str) and oid[0] in ('mod', 'cls'):
                todo.append(oid)
        live = set()
        while todo:
            oid = todo.pop()
            if oid in live:
                continue
            live.add(oid)
            o = st.heap.get(oid)
            if o is not None:
                todo.extend(obj_oids(o))
        gone = set()
        for oid in new:
            if oid not in live:
                del st.heap[oid]
                gone.add(oid)
        ren = {}
        if collapse:
            bysite = {}
            for oid in new:
                if oid in st.heap and isinstance(oid[1], int) and (
                        oid not in self.base):
                    bysite.setdefault(oid[0], []).append(oid[1])
            for site, ns in bysite.items():
                ns.sort()
                rest = ns[:-self.K] if len(ns) > self.K else []
                keep = ns[-self.K:]
                for n in rest:
                    x = st.heap.pop((site, n))
                    sm = st.heap.get((site, 'S'))
                    st.heap[(site, 'S')] = x.rep(
                        summ=True) if sm is None else join_obj(
                            sm, x).rep(summ=True)
                    ren[(site, n)] = (site, 'S')
                free = 0
                for n in keep:
                    while (site, free) in st.heap and free < n:
                        free += 1
                    if free < n:
                        st.heap[(site, free)] = st.heap.pop((site, n))
                        ren[(site, n)] = (site, free)
        if gone or ren:
            dead = gone | set(ren)

            def fn(a):
                if a[0] == 'o':
                    r = ren.get(a[1])
                    return ('o', r) if r is not None else a
                if a[0] == 'i' and a[3] is not None and mentions_oid(
                        a[3], dead):
                    return ('i', a[1], a[2], None)
                return a
            if ren or any(mentions_oid(k, dead) for k in st.facts):
                map_state(st, fn)
            for k in [k for k in st.facts if mentions_oid(k, dead)]:
                del st.facts[k]

    def sym(self, st, site, ne=None, kind='y', extra=()):
        """Fresh symbolic string."""
        t = ('sym', site)
        if t in st.syms:
            self.kill_syms(st, {t})
        st.syms = st.syms | {t}
        return V([(kind, t, ne)])

    def kill_syms(self, st, ts):
        def fn(a):
            if a[0] in ('y', 'yb') and a[1] is not None and term_mentions(
                    a[1], ts):
                ne = a[2]
                if ne != 1 and st.facts.get(('ne', a[1])):
                    ne = 1
                return (a[0], None, ne)
            if a[0] == 'i' and a[3] is not None and term_mentions(a[3], ts):
                return ('i', a[1], a[2], None)
            return a
        map_state(st, fn)
        for k in list(st.facts):
            if term_mentions(k, ts):
                del st.facts[k]

    # ------------------------------------------------------------------
    # joins
    # ------------------------------------------------------------------
    def join_states(self, a, b, widen=False):
        base_j = widen_v if widen else join_v
        memo = {}

        def j(x, y):
            if x is y:
                return x
            k = (id(x), id(y))
            r = memo.get(k)
            if r is None:
                r = (base_j(x, y), x, y)
                memo[k] = r
            return r[0]

        s = State.__new__(State)
        s.tr, s.ts = a.tr, a.ts
        s.path = a.path
        s.syms = a.syms | b.syms
        s.facts = {k: v for k, v in a.facts.items()
                   if k in b.facts and b.facts[k] == v}
        # keep nonempty information of terms
        fr = {}
        for fid, ea in a.fr.items():
            eb = b.fr.get(fid)
            if eb is None or ea is eb:
                fr[fid] = ea
                continue
            env = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                va, vb = ea.get(k, V_MISSING), eb.get(k, V_MISSING)
                if isinstance(va, V) and isinstance(vb, V):
                    env[k] = j(va, vb)
                else:
                    env[k] = va if isinstance(va, V) is False else vb
            fr[fid] = env
        s.fr = fr
        heap = {}
        ha, hb = a.heap, b.heap
        for oid in list(ha) + [k for k in hb if k not in ha]:
            oa, ob = ha.get(oid), hb.get(oid)
            if oa is ob:
                heap[oid] = oa
                continue
            if oa is None:
                oa = self.base.get(oid)
            if ob is None:
                ob = self.base.get(oid)
            if oa is None or ob is None:
                heap[oid] = oa or ob
            else:
                heap[oid] = join_obj(oa, ob, j)
        s.heap = heap
        return s

    def state_same(self, a, b):
        if a.tr != b.tr or a.ts != b.ts or set(a.fr) != set(b.fr):
            return False
        for fid in a.fr:
            if a.fr[fid] is not b.fr[fid] and a.fr[fid] != b.fr[fid]:
                return False
        for oid in set(a.heap) | set(b.heap):
            oa = a.heap.get(oid) or self.base.get(oid)
            ob = b.heap.get(oid) or self.base.get(oid)
            if oa is ob:
                continue
            if oa is None or ob is None or not oa.same(ob):
                return False
        return a.facts == b.facts

    def vkey(self, st, v, level):
        if v is None:
            return None
        if isinstance(v, Exc):
            return v.key() if level < 2 else (v.name, v.ev)
        if not isinstance(v, V):
            return id(v)
        if level == 0:
            return v
        out = []
        for a in v.a:
            t = a[0]
            if t in ('none', 'b', 'cls'):
                out.append(a)
            elif t == 't':
                out.append(('t', len(a[1])) + (tuple(
                    self.vkey(st, i, level) for i in a[1])
                    if level == 1 else ()))
            elif t == 'o':
                o = self.obj(st, a[1])
                out.append(('o', o.kind, o.cls) if level == 1 else (
                    'o', o.kind))
            elif t in ('s', 'y'):
                out.append('str')
            else:
                out.append(t)
        return frozenset(out)

    def merge(self, outs, level=0):
        """Merge outcomes [(kind, st, v)] with the same key."""
        if len(outs) <= 1 or self.exact and len(outs) <= 40:
            return outs
        groups = {}
        order = []
        for o in outs:
            kind, st, v = o
            k = (kind, self.vkey(st, v, level),
                 st.tr if level < 3 else trkey(st.tr),
                 tskey(st.ts))
            if k in groups:
                groups[k].append(o)
            else:
                groups[k] = [o]
                order.append(k)
        ret = []
        for k in order:
            g = groups[k]
            kind, st, v = g[0]
            if len(g) > 1:
                # carry the value in the frame so aliasing is kept
                s = None
                for _, s2, v2 in g:
                    s2 = s2.copy()
                    if isinstance(v2, V):
                        s2.fr[-1] = {'@v': v2}
                    s = s2 if s is None else self.join_states(s, s2)
                if -1 in s.fr:
                    v = s.fr.pop(-1)['@v']
                st = s
            ret.append((kind, st, v))
        return ret

    def merge_cap(self, outs, cap=None):
        cap = cap or self.CAP
        if len(outs) <= 1:
            return outs
        outs = self.merge(outs, 0)
        level = 1
        while len(outs) > cap and level <= 3:
            outs = self.merge(outs, level)
            level += 1
        return outs

    # ------------------------------------------------------------------
    # narrowing
    # ------------------------------------------------------------------
    def narrow(self, st, old, new):
        """Replace the very value old by new wherever it is held."""
        if old is new or old == new:
            return
        for fid, env in list(st.fr.items()):
            for k, v in env.items():
                if v is old:
                    st.setv(fid, k, new)
                elif isinstance(v, V) and len(v.a) == 1:
                    # inside an exact tuple
                    for a in v.a:
                        if a[0] == 't' and any(i is old for i in a[1]):
                            st.setv(fid, k, V([('t', tuple(
                                new if i is old else i for i in a[1]))]))
        for oid, o in list(st.heap.items()):
            if o.summ:
                continue
            hit = [k for k, v in o.f.items() if v is old]
            if hit:
                f = dict(o.f)
                for k in hit:
                    f[k] = new
                o = o.rep(f=f)
                st.heap[oid] = o
            if o.items is not None and any(i is old for i in o.items):
                o = o.rep(items=tuple(
                    new if i is old else i for i in o.items))
                st.heap[oid] = o

    def split(self, st, v, classify):
        """
        Split the state by classify(atom) -> key (or tuple of keys when
        undecided). Returns [(st, key, narrowed V)].
        """
        groups = {}
        for a in v.a:
            k = classify(a)
            if isinstance(k, list):
                for kk in k:
                    groups.setdefault(kk, []).append(a)
            else:
                groups.setdefault(k, []).append(a)
        if len(groups) == 1:
            return [(st, k, v) for k in groups]
        ret = []
        for k in sorted(groups, key=str):
            s = st.copy()
            nv = V(groups[k])
            self.narrow(s, v, nv)
            ret.append((s, k, nv))
        return ret

    def truth(self, st, v, node=None):
        """[(st, bool, v)]"""
        res = []
        pos, neg, unk = [], [], []
        call = []
        for a in v.a:
            t = self.atom_truth(st, a)
            if t is True:
                pos.append(a)
            elif t is False:
                neg.append(a)
            elif t == 'call':
                call.append(a)
            else:
                unk.append(a)
        ntargets = (1 if pos or unk else 0) + (1 if neg or unk else 0) + len(
            call)
        one = ntargets == 1
        if pos or unk:
            s = st if one else st.copy()
            atoms = list(pos)
            single = len(v.a) == 1
            for a in unk:
                n = self.assume_true(s, a, single)
                if n is not None:
                    atoms.append(n)
            if atoms:
                nv = V(atoms)
                if nv != v:
                    self.narrow(s, v, nv)
                    v2 = nv
                else:
                    v2 = v
                res.append((s, True, v2))
        if neg or unk:
            s = st if one else st.copy()
            atoms = list(neg)
            single = len(v.a) == 1
            for a in unk:
                n = self.assume_false(s, a, single)
                if n is not None:
                    atoms.append(n)
            if atoms:
                nv = V(atoms)
                if nv != v:
                    self.narrow(s, v, nv)
                    v2 = nv
                else:
                    v2 = v
                res.append((s, False, v2))
        for a in call:
            s = st if one else st.copy()
            nv = V([a])
            if not one or len(v.a) > 1:
                self.narrow(s, v, nv)
            for s2, r in self.call_bool(s, a, node):
                if isinstance(r, X):
                    res.append((s2, r, nv))
                else:
                    for s3, b, _ in self.truth(s2, r, node):
                        res.append((s3, b, nv))
        return res

    def atom_truth(self, st, a):
        t = a[0]
        if t == 'none':
            return False
        if t == 'b':
            return a[1]
        if t in ('s', 'by'):
            return bool(a[1])
        if t in ('y', 'yb'):
            if a[2] == 1:
                return True
            if a[1] is not None:
                f = st.facts.get(('ne', a[1]))
                if f is not None:
                    return f
            return None
        if t == 'i':
            lo, hi = a[1], a[2]
            if lo == 0 and hi == 0:
                return False
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi < 0:
                return True
            return None
        if t == 't':
            return bool(a[1])
        if t == 'tt':
            return True if a[2] > 0 else None
        if t == 'o':
            o = self.obj(st, a[1])
            if o is None:
                return None
            if o.kind in ('list',) and (o.cls is None or not (
                    self.find_attr(o.cls, '__bool__') or
                    self.find_attr(o.cls, '__len__'))):
                if o.items is not None:
                    return bool(o.items)
                if o.lo > 0:
                    return True
                return None
            if o.kind == 'set':
                if any(not v.has('missing') for v in o.f.values()):
                    return True
                if not o.f and o.elem is None:
                    return False
                return True if o.lo > 0 else None
            if o.kind == 'dict':
                if any(not v.has('missing') for v in o.f.values()):
                    return True
                if not o.f and o.elem is None:
                    return False
                return None
            if o.kind == 'inst':
                if self.find_attr(o.cls, '__bool__') or self.find_attr(
                        o.cls, '__len__'):
                    return 'call'
                if self.ext_bases(o.cls):
                    return None
                return True
            return True
        if t in ('cls', 'xcls', 'fn', 'bm', 'bx', 'mod', 'super'):
            return True
        if t == 'x':
            return True if a[1] in ('re', 'match') else None
        if t == 'missing':
            return False
        return None

    def call_bool(self, st, a, node):
        o = self.obj(st, a[1])
        name = '__bool__' if self.find_attr(o.cls, '__bool__') else '__len__'
        return self.call_method(st, a, name, [], {}, node)

    def assume_true(self, st, a, single):
        t = a[0]
        if t in ('y', 'yb'):
            if a[1] is not None and single:
                st.facts[('ne', a[1])] = True
            return (t, a[1], 1)
        if t == 'i':
            lo = a[1]
            if lo == 0:
                lo = 1
            return ('i', lo, a[2], a[3])
        if t == 'tt':
            return ('tt', a[1], max(1, a[2]))
        if t == 'o':
            o = self.obj(st, a[1])
            if o is not None and o.kind in ('list', 'set') and not o.summ:
                if o.items is None and o.lo == 0:
                    self.put(st, a[1], o.rep(lo=1))
            return a
        return a

    def assume_false(self, st, a, single):
        t = a[0]
        if t in ('y', 'yb'):
            if a[1] is not None and single:
                st.facts[('ne', a[1])] = False
            return ('s', '') if t == 'y' else ('by', b'')
        if t == 'i':
            return ('i', 0, 0, a[3])
        if t == 'tt':
            return ('t', ())
        if t == 'o':
            o = self.obj(st, a[1])
            if o is not None and o.kind == 'list' and not o.summ:
                if o.items is None:
                    self.put(st, a[1], o.rep(items=(), elem=None, last=None,
                                             lo=0))
            elif o is not None and o.kind in ('set', 'dict') and not o.summ:
                self.put(st, a[1], o.rep(f={}, elem=None, last=None, lo=0))
            return a
        return a

    # ------------------------------------------------------------------
    # modules, classes
    # ------------------------------------------------------------------
    main_module = None      # run as a script
    main_outs = ()

    def load_module(self, st, name):
        """Interpret the module body (once). Goes to the base heap."""
        oid = ('mod', name)
        if self.obj(st, oid) is not None:
            return oid
        if not self.loader.has(name):
            if self.loader.is_namespace(name):
                st.heap[oid] = Obj('mod', name)
                return oid
            return None
        mod = self.loader.get(name)
        # the parent
        parent = name.rpartition('.')[0]
        if parent:
            self.load_module(st, parent)
            if self.obj(st, oid) is not None:
                return oid
        st.heap[oid] = Obj('mod', name, {
            '__name__': v_str('__main__' if name == self.main_module
                              else name), '__file__': v_str(mod.path)})
        fid = ('M', name)
        st.fr[fid] = {}
        self.fnof[fid] = mod
        saved = self.stack
        self.stack = []
        outs = self.block(st, fid, mod.tree.body)
        self.stack = saved
        if name == self.main_module:
            self.main_outs = outs
            return oid
        outs = [o for o in outs if o[0] == 'n']
        if not outs:
            raise AnalysisBroken('module {} cannot be imported'.format(name))
        if len(outs) > 1:
            outs = self.merge(outs, 3)
        s = outs[0][1]
        # move the result into st in place
        st.fr, st.heap, st.facts = s.fr, s.heap, s.facts
        st.tr, st.ts, st.syms, st.path = s.tr, s.ts, s.syms, s.path
        st.fr.pop(fid, None)
        if parent:
            po = self.obj(st, ('mod', parent))
            if po is not None:
                self.put(st, ('mod', parent), po.setf(
                    name.rpartition('.')[2], V([('mod', name)])))
        return oid

    def resolve_from(self, mod, node):
        """Absolute name of the module in from X import."""
        if node.level == 0:
            return node.module or ''
        pkg = mod.package.split('.')
        if node.level > 1:
            pkg = pkg[:-(node.level - 1)]
        if node.module:
            pkg = pkg + node.module.split('.')
        return '.'.join(pkg)

    def bases(self, qual):
        return self.cls_info[qual][1]

    cls_info = None

    def mro(self, qual):
        m = self.mros.get(qual)
        if m is None:
            if qual not in self.cls_info:
                return [qual]
            seqs = []
            for b in self.cls_info[qual][1]:
                seqs.append(list(self.mro(b)) if not b.startswith('ext:')
                            else [b])
            seqs.append([b for b in self.cls_info[qual][1]])
            res = [qual]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in x[1:] for x in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                for s in seqs:
                    if s[0] == c:
                        del s[0]
            m = res
            self.mros[qual] = m
        return m

    def ext_bases(self, qual):
        return [b[4:] for b in self.mro(qual)
                if b.startswith('ext:') and b not in ('ext:object',)]

    def find_attr(self, qual, name, after=None, st=None):
        """(defining class, V) of the class attribute over the MRO."""
        m = self.mro(qual)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if c.startswith('ext:'):
                continue
            o = None
            if st is not None:
                o = st.heap.get(('cls', c))
            if o is None:
                o = self.base.get(('cls', c)) or (
                    self.cur_st.heap.get(('cls', c))
                    if self.cur_st is not None else None)
            if o is not None and name in o.f:
                return c, o.f[name]
        return None

    cur_st = None

    def is_subclass(self, qual, target):
        """target: repo qualified name or 'ext:Name'."""
        return target in self.mro(qual)

    def metaclass(self, qual):
        for c in self.mro(qual):
            if c in self.cls_info and self.cls_info[c][2]:
                return self.cls_info[c][2]
        return None

    def exc_matches(self, name, target):
        """Whether exception class name is a subclass of target."""
        if name == target:
            return True
        n = name
        if n in (self.cls_info or {}):
            m = self.mro(n)
            if target in m:
                return True
            for b in m:
                if b.startswith('ext:'):
                    if self.exc_matches(b[4:], target):
                        return True
            return False
        t = target[4:] if target.startswith('ext:') else target
        n = n.rsplit('.', 1)[-1] if n.startswith('builtins.') else n
        a, b = BUILTIN_CLASSES.get(n), BUILTIN_CLASSES.get(t)
        if a is not None and b is not None:
            return issubclass(a, b)
        if t in ('Exception', 'BaseException'):
            return True
        return None if a is None and b is None else False

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def block(self, st, fid, stmts):
        """[(kind, st, v)] kind: n r x b c g"""
        states = [st]
        done = []
        for stmt in stmts:
            nxt = []
            for s in states:
                for o in self.stmt(s, fid, stmt):
                    if o[0] == 'n':
                        nxt.append(o)
                    else:
                        done.append(o)
            if len(nxt) > 1:
                nxt = self.merge_cap(nxt)
            states = [o[1] for o in nxt]
            if len(done) > 4 * self.CAP:
                done = self.merge_cap(done, 2 * self.CAP)
            if not states:
                break
        return [('n', s, None) for s in states] + done

    def stmt(self, st, fid, node):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Limit('too many steps')
        if self.deadline and not self.steps % 16 and (
                time.process_time() > self.deadline):
            raise Limit('too long')
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            return [('n', st, None)]
        return m(st, fid, node)

    def s_Expr(self, st, fid, node):
        return [self.asout(s, v) for s, v in self.ev(st, fid, node.value)]

    def asout(self, s, v, kind='n', val=None):
        if isinstance(v, X):
            return (v.kind, s, v.v)
        return (kind, s, val)

    def s_Pass(self, st, fid, node):
        return [('n', st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Break(self, st, fid, node):
        return [('b', st, None)]

    def s_Continue(self, st, fid, node):
        return [('c', st, None)]

    def s_Return(self, st, fid, node):
        if node.value is None:
            return [('r', st, V_NONE)]
        return [self.asout(s, v, 'r', v)
                for s, v in self.ev(st, fid, node.value)]

    def s_Assign(self, st, fid, node):
        outs = []
        for s, v in self.ev(st, fid, node.value):
            if isinstance(v, X):
                outs.append((v.kind, s, v.v))
                continue
            states = [(s, None)]
            for t in node.targets:
                nxt = []
                for s2, _ in states:
                    nxt.extend(self.assign(s2, fid, t, v))
                states = [i for i in nxt if not isinstance(i[1], X)]
                outs.extend((i[1].kind, i[0], i[1].v) for i in nxt
                            if isinstance(i[1], X))
            outs.extend(('n', s2, None) for s2, _ in states)
        return outs

    def s_AnnAssign(self, st, fid, node):
        if node.value is None:
            return [('n', st, None)]
        outs = []
        for s, v in self.ev(st, fid, node.value):
            if isinstance(v, X):
                outs.append((v.kind, s, v.v))
                continue
            for s2, r in self.assign(s, fid, node.target, v):
                outs.append(self.asout(s2, r))
        return outs

    def s_AugAssign(self, st, fid, node):
        t = node.target
        load = ast.copy_location(
            {ast.Name: lambda: ast.Name(t.id, ast.Load()),
             ast.Attribute: lambda: ast.Attribute(
                 t.value, t.attr, ast.Load()),
             ast.Subscript: lambda: ast.Subscript(
                 t.value, t.slice, ast.Load())}[type(t)](), t)
        load._mod = node._mod
        outs = []
        for s, left in self.ev(st, fid, load):
            if isinstance(left, X):
                outs.append((left.kind, s, left.v))
                continue
            for s2, right in self.ev(s, fid, node.value):
                if isinstance(right, X):
                    outs.append((right.kind, s2, right.v))
                    continue
                for s3, v in self.binop(s2, node.op, left, right, node,
                                        inplace=True):
                    if isinstance(v, X):
                        outs.append((v.kind, s3, v.v))
                        continue
                    for s4, r in self.assign(s3, fid, t, v):
                        outs.append(self.asout(s4, r))
        return outs

    def s_Delete(self, st, fid, node):
        outs = [(st, None)]
        for t in node.targets:
            nxt = []
            for s, _ in outs:
                if isinstance(t, ast.Name):
                    if t.id in s.fr[fid]:
                        s.delv(fid, t.id)
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript):
                    for s2, base in self.ev(s, fid, t.value):
                        if isinstance(base, X):
                            nxt.append((s2, base))
                            continue
                        for s3, key in self.ev_slice(s2, fid, t.slice):
                            if isinstance(key, X):
                                nxt.append((s3, key))
                                continue
                            nxt.extend(self.delitem(s3, base, key, node))
                elif isinstance(t, ast.Attribute):
                    for s2, base in self.ev(s, fid, t.value):
                        if isinstance(base, X):
                            nxt.append((s2, base))
                            continue
                        for a in base.a:
                            if a[0] == 'o':
                                o = self.obj(s2, a[1])
                                f = dict(o.f)
                                f.pop(t.attr, None)
                                self.put(s2, a[1], o.rep(f=f))
                        nxt.append((s2, None))
                else:
                    nxt.append((s, None))
            outs = nxt
        return [self.asout(s, v) for s, v in outs]

    def s_If(self, st, fid, node):
        outs = []
        for s, v in self.ev(st, fid, node.test):
            if isinstance(v, X):
                outs.append((v.kind, s, v.v))
                continue
            tr = self.truth(s, v, node.test)
            for s2, b, _ in tr:
                if isinstance(b, X):
                    outs.append((b.kind, s2, b.v))
                    continue
                if len(tr) > 1:
                    s2.decide((node, b))
                outs.extend(self.block(
                    s2, fid, node.body if b else node.orelse))
        return outs

    def s_Raise(self, st, fid, node):
        if node.exc is None:
            cur = st.getv(fid, '@exc')
            return [('x', st, cur if isinstance(cur, Exc) else Exc(
                'RuntimeError', False, node))]
        outs = []
        for s, v in self.ev(st, fid, node.exc):
            if isinstance(v, X):
                outs.append((v.kind, s, v.v))
                continue
            for s2, e in self.to_exc(s, v, node):
                if isinstance(e, X):
                    outs.append((e.kind, s2, e.v))
                    continue
                cur = s2.getv(fid, '@exc')
                if node.cause is not None and isinstance(cur, Exc):
                    e.chain = (cur,)
                    e.ev = cur.ev and e.ev
                outs.append(('x', s2, e))
        return outs

    def to_exc(self, st, v, node):
        ret = []
        for a in v.a:
            if a[0] == 'cls':
                for s2, inst in self.call_class(st.copy(), a[1], [], {},
                                                node):
                    if isinstance(inst, X):
                        ret.append((s2, inst))
                    else:
                        ret.append((s2, Exc(a[1], True, node, val=inst)))
            elif a[0] == 'xcls':
                ret.append((st.copy(), Exc(a[1], True, node, val=V([a]))))
            elif a[0] == 'o':
                o = self.obj(st, a[1])
                if o.cls:
                    ret.append((st.copy(), Exc(o.cls, True, node,
                                               val=V([a]))))
                else:
                    ret.append((st.copy(), Exc('Exception', False, node)))
            elif a[0] == 'x' and a[1] == 'exc':
                ret.append((st.copy(), Exc(a[2], True, node, val=V([a]))))
            elif a[0] == 'x' and a[1] == 'excobj':
                ret.append((st.copy(), a[2]))
            else:
                ret.append((st.copy(), Exc('Exception', False, node)))
        return ret

    def s_Assert(self, st, fid, node):
        outs = []
        good = False
        failed = []
        for s, v in self.ev(st, fid, node.test):
            if isinstance(v, X):
                outs.append((v.kind, s, v.v))
                continue
            tr = self.truth(s, v, node.test)
            for s2, b, _ in tr:
                if isinstance(b, X):
                    outs.append((b.kind, s2, b.v))
                elif b:
                    good = True
                    outs.append(('n', s2, None))
                else:
                    failed.append((s2, not v.has('unk')))
        for s2, known in failed:
            # Only a condition that fails on all of this path is sure.
            outs.append(('x', s2, Exc('AssertionError', known and not good,
                                      node)))
        return outs

    def ev_cond(self, st, v):
        return False

    def s_FunctionDef(self, st, fid, node):
        outs = []
        for s, v in self.make_function(st, fid, node):
            if isinstance(v, X):
                outs.append((v.kind, s, v.v))
                continue
            self.store_name(s, fid, node.name, v)
            outs.append(('n', s, None))
        return outs

    def make_function(self, st, fid, node):
        env = st.fr[fid]
        cls = None
        if isinstance(fid, tuple) and fid[0] == 'C':
            cls = fid[1]
            qual = '{}.{}'.format(cls, getattr(
                node, 'name', '<lambda@{}:{}>'.format(
                    node.lineno, node.col_offset)))
            closure = fid[2]
            while isinstance(closure, tuple) and closure[0] == 'C':
                closure = closure[2]
            if isinstance(closure, tuple):
                closure = None
        elif isinstance(fid, tuple) and fid[0] == 'M':
            qual = '{}:{}'.format(fid[1], getattr(
                node, 'name', '<lambda>@{}:{}'.format(
                    node.lineno, node.col_offset)))
            closure = None
        else:
            info = self.fnof[fid]
            qual = '{}.<{}>'.format(info.qual, getattr(
                node, 'name', 'lambda@{}:{}'.format(
                    node.lineno, node.col_offset)))
            closure = fid
            cls = info.cls
        if isinstance(fid, tuple) and fid[0] in 'CM' and isinstance(
                node, ast.Lambda):
            qual = '{}{}<lambda@{}:{}>'.format(
                fid[1], '.' if fid[0] == 'C' else ':',
                node.lineno, node.col_offset)
        if qual in self.funcs and self.funcs[qual].node is not node:
            qual = '{}@{}'.format(qual, node.lineno)
        info = self.funcs.get(qual)
        if info is None:
            info = FuncInfo(qual, node, node._mod, cls)
            self.funcs[qual] = info
        del env
        # defaults
        results = [(st, {})]
        a = node.args
        pos = [i.arg for i in getattr(a, 'posonlyargs', [])] + [
            i.arg for i in a.args]
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None]
        for name, d in pairs:
            nxt = []
            for s, dd in results:
                if isinstance(dd, X):
                    nxt.append((s, dd))
                    continue
                for s2, v in self.ev(s, fid, d):
                    if isinstance(v, X):
                        nxt.append((s2, v))
                    else:
                        d3 = dict(dd)
                        d3[name] = v
                        nxt.append((s2, d3))
            results = nxt
        outs = []
        for s, dd in results:
            if isinstance(dd, X):
                outs.append((s, dd))
                continue
            info.defaults = dd
            v = V([('fn', qual, closure)])
            res = [(s, v)]
            for deco in reversed(getattr(node, 'decorator_list', [])):
                nxt = []
                for s2, v2 in res:
                    if isinstance(v2, X):
                        nxt.append((s2, v2))
                        continue
                    nxt.extend(self.decorate(s2, fid, deco, v2))
                res = nxt
            outs.extend(res)
        return outs

    def decorate(self, st, fid, deco, v):
        name = None
        if isinstance(deco, ast.Name):
            name = deco.id
        elif isinstance(deco, ast.Attribute):
            name = deco.attr
        if name == 'property' or name == 'cached_property':
            return [(st, V([('prop', v)]))]
        if name == 'classmethod':
            return [(st, V([('cm', v)]))]
        if name == 'staticmethod':
            return [(st, V([('sm', v)]))]
        if name in ('setter', 'deleter', 'getter'):
            old = st.getv(fid, deco.value.id) if isinstance(
                getattr(deco, 'value', None), ast.Name) else None
            return [(st, old if old is not None else v)]
        res = []
        for s, d in self.ev(st, fid, deco):
            if isinstance(d, X):
                res.append((s, d))
            elif d.one and d.one[0] in ('fn', 'bm'):
                res.extend(self.call(s, d, [v], {}, deco))
            elif d.one and d.one[:2] == (
                    'xm', 'contextlib.contextmanager'):
                res.append((s, V([('x', 'cmfn', v)])))
            else:
                res.append((s, v))  # external: leave as it is
        return res

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st, fid, node):
        modname = node._mod.name
        if isinstance(fid, tuple) and fid[0] == 'M':
            qual = '{}:{}'.format(modname, node.name)
        elif isinstance(fid, tuple) and fid[0] == 'C':
            qual = '{}.{}'.format(fid[1], node.name)
        else:
            qual = '{}.<{}>'.format(self.fnof[fid].qual, node.name)
        bases = []
        s = st
        for b in node.bases:
            r = self.ev(s, fid, b)
            s, v = r[0]
            a = v.one if isinstance(v, V) else None
            if a and a[0] == 'cls':
                bases.append(a[1])
            elif a and a[0] == 'xcls':
                bases.append('ext:' + a[1])
            elif a and a[0] == 'xm':
                bases.append('ext:' + a[1])
            else:
                bases.append('ext:?' + ast.dump(b)[:40])
        if not bases:
            bases = ['ext:object']
        meta = None
        for kw in node.keywords:
            if kw.arg == 'metaclass':
                r = self.ev(s, fid, kw.value)
                s, v = r[0]
                if isinstance(v, V) and v.one and v.one[0] == 'cls':
                    meta = v.one[1]
        self.cls_info[qual] = (node, bases, meta)
        self.mros.pop(qual, None)
        self.classes[qual] = node
        cfid = ('C', qual, fid)
        s.fr[cfid] = {}
        self.fnof[cfid] = (fid, node._mod)
        outs = self.block(s, cfid, node.body)
        outs = [o for o in outs if o[0] == 'n']
        if not outs:
            return [('x', st, Exc('TypeError', False, node))]
        if len(outs) > 1:
            outs = self.merge(outs, 3)
        s = outs[0][1]
        env = s.fr.pop(cfid)
        f = dict(env)
        f['__name__'] = v_str(node.name)
        f['__module__'] = v_str(modname)
        f['__qualname__'] = v_str(node.name)
        doc = ast.get_docstring(node)
        f['__doc__'] = v_str(doc) if doc is not None else V_NONE
        s.heap[('cls', qual)] = Obj('cls', qual, f)
        h = self.hooks.get('class')
        if h:
            h(s, qual, meta or self.metaclass(qual))
        v = V([('cls', qual)])
        outs = self.meta_new(s, qual, node, env,
                             meta or self.metaclass(qual))
        for deco in reversed(node.decorator_list):
            del deco    # total_ordering and such: leave the class
        for kind, s, _ in outs:
            if kind == 'n':
                self.store_name(s, fid, node.name, v)
        return outs

    pending_class = ()

    def meta_new(self, st, qual, node, env, meta):
        """Run __new__ and __init__ of a metaclass of the repository."""
        outs = [('n', st, None)]
        if not meta:
            return outs
        for name in ('__new__', '__init__'):
            fa = self.find_attr(meta, name, st=st)
            if not fa or not fa[1].one or fa[1].one[0] != 'fn':
                continue
            nxt = []
            for o in outs:
                if o[0] == 'n':
                    nxt.extend(self.meta_call(o[1], qual, node, env, meta,
                                              name, fa))
                else:
                    nxt.append(o)
            outs = self.merge(nxt, 3 if self.concrete else 0)
        return outs

    def meta_call(self, st, qual, node, env, meta, name, fa):
        if fa:
            d = Obj('dict')
            for k, v in env.items():
                if isinstance(v, V):
                    d = self.dict_put(d, v_str(k), v)
            bases = v_tuple([
                V([('xcls', b[4:]) if b.startswith('ext:') else ('cls', b)])
                for b in self.cls_info[qual][1]])
            self.pending_class = self.pending_class + (qual,)
            try:
                res = self.call(st, fa[1], [
                    V([('cls', meta if name == '__new__' else qual)]),
                    v_str(node.name), bases,
                    self.new(st, node_site(node), d)], {}, node)
            finally:
                self.pending_class = self.pending_class[:-1]
            return [(v.kind, s, v.v) if isinstance(v, X) else
                    ('n', s, None) for s, v in res]

    def s_Import(self, st, fid, node):
        for al in node.names:
            name = al.name
            top = name.split('.')[0]
            if self.loader.has(name) or self.loader.is_namespace(name):
                self.load_module(st, name)
                tgt = name if al.asname else top
                self.load_module(st, tgt)
                self.store_name(st, fid, al.asname or top,
                                V([('mod', tgt)]))
            else:
                self.store_name(st, fid, al.asname or top, V([(
                    'xm', name if al.asname else top)]))
        return self.import_outs(st, node, [al.name for al in node.names])

    def import_outs(self, st, node, names):
        # An optional module may be missing.
        if any(n.split('.')[0] in ('sqlparse', 'editdistance')
               for n in names):
            s = st.copy()
            return [('n', st, None),
                    ('x', s, Exc('ImportError', False, node))]
        return [('n', st, None)]

    def s_ImportFrom(self, st, fid, node):
        name = self.resolve_from(node._mod, node)
        if self.loader.has(name) or self.loader.is_namespace(name):
            self.load_module(st, name)
            mo = self.obj(st, ('mod', name))
            for al in node.names:
                if al.name == '*':
                    for k, v in mo.f.items():
                        if not k.startswith('_'):
                            self.store_name(st, fid, k, v)
                    continue
                if al.name in mo.f:
                    v = mo.f[al.name]
                elif self.loader.has(name + '.' + al.name):
                    self.load_module(st, name + '.' + al.name)
                    v = V([('mod', name + '.' + al.name)])
                else:
                    # maybe a circular import in progress
                    v = v_unk('import {}.{}'.format(name, al.name))
                self.store_name(st, fid, al.asname or al.name, v)
            return [('n', st, None)]
        for al in node.names:
            self.store_name(st, fid, al.asname or al.name,
                            self.ext_member(name, al.name))
        return self.import_outs(st, node, [name])

    def ext_member(self, mod, name):
        if mod == 'builtins' and name in BUILTIN_CLASSES:
            return V([('xcls', name)])
        dotted = '{}.{}'.format(mod, name)
        if dotted in self.ext:
            return self.ext[dotted]
        if dotted in ('collections.defaultdict', 'collections.OrderedDict',
                      'collections.deque', 'io.BytesIO', 'io.StringIO'):
            return V([('xcls', dotted)])
        if mod in ('string', 'os', 'os.path'):
            c = getattr(__import__(mod, fromlist=['x']), name, None)
            if isinstance(c, str):
                return v_str(c)
        return V([('xm', dotted)])

    def s_Try(self, st, fid, node):
        outs = self.block(st, fid, node.body)
        res = []
        for kind, s, v in outs:
            if kind == 'n' and node.orelse:
                res.extend(self.block(s, fid, node.orelse))
            elif kind == 'x' and node.handlers:
                res.extend(self.handle_exc(s, fid, node, v))
            else:
                res.append((kind, s, v))
        res = self.merge_cap(res)
        if node.finalbody:
            fin = []
            for kind, s, v in res:
                # keep the value alive over the finally block
                for k2, s2, v2 in self.block(s, fid, node.finalbody):
                    if k2 == 'n':
                        fin.append((kind, s2, v))
                    else:
                        fin.append((k2, s2, v2))
            res = fin
        return res

    def handle_exc(self, st, fid, node, exc):
        outs = []
        states = [st]
        for h in node.handlers:
            nxt = []
            for s in states:
                if h.type is None:
                    outs.extend(self.run_handler(s, fid, h, exc))
                    continue
                for s2, v in self.ev(s, fid, h.type):
                    if isinstance(v, X):
                        outs.append((v.kind, s2, v.v))
                        continue
                    m = self.exc_match_v(exc, v)
                    if m is True:
                        outs.extend(self.run_handler(s2, fid, h, exc))
                    elif m is False:
                        nxt.append(s2)
                    else:
                        outs.extend(self.run_handler(
                            s2.copy(), fid, h, exc))
                        nxt.append(s2)
            states = nxt
            if not states:
                break
        outs.extend(('x', s, exc) for s in states)
        return outs

    def exc_match_v(self, exc, v):
        res = set()
        for a in v.a:
            if a[0] == 'cls':
                res.add(self.exc_matches(exc.name, a[1]))
            elif a[0] == 'xcls':
                res.add(self.exc_matches(exc.name, 'ext:' + a[1]))
            elif a[0] == 't':
                r = [self.exc_match_v(exc, i) for i in a[1]]
                if True in r:
                    res.add(True)
                elif None in r:
                    res.add(None)
                else:
                    res.add(False)
            elif a[0] == 'xm':
                t = {'os.error': 'OSError', 'socket.error': 'OSError'}.get(
                    a[1])
                res.add(self.exc_matches(exc.name, 'ext:' + t)
                        if t else (None if not exc.ev else False))
            else:
                res.add(None)
        return res.pop() if len(res) == 1 else None

    def run_handler(self, st, fid, h, exc):
        s = st
        saved = s.getv(fid, '@exc')
        env = dict(s.fr[fid])
        env['@exc'] = exc
        if h.name:
            env[h.name] = V([('x', 'excobj', exc)]) if exc.val is None else (
                exc.val)
        s.fr[fid] = env
        outs = self.block(s, fid, h.body)
        for kind, s2, v in outs:
            e = dict(s2.fr[fid])
            if saved is not None:
                e['@exc'] = saved
            else:
                e.pop('@exc', None)
            if h.name:
                e.pop(h.name, None)
            s2.fr[fid] = e
        return outs

    def s_With(self, st, fid, node):
        return self.with_items(st, fid, node, 0)

    def with_items(self, st, fid, node, i):
        if i >= len(node.items):
            return self.block(st, fid, node.body)
        item = node.items[i]
        outs = []
        for s, v in self.ev(st, fid, item.context_expr):
            if isinstance(v, X):
                outs.append((v.kind, s, v.v))
                continue
            for s2, a, _ in self.split(s, v, lambda x: x):
                outs.extend(self.with_atom(s2, fid, node, i, item, a))
        return outs

    def with_body(self, st, fid, node, i, item, v):
        outs = []
        if item.optional_vars is not None:
            for s, r in self.assign(st, fid, item.optional_vars, v):
                if isinstance(r, X):
                    outs.append((r.kind, s, r.v))
                else:
                    outs.extend(self.with_items(s, fid, node, i + 1))
            return outs
        return self.with_items(st, fid, node, i + 1)

    def with_atom(self, st, fid, node, i, item, a):
        site = item.context_expr
        if a[0] == 'x' and a[1] == 'cm':
            # generator based context manager; a[2]: the generator
            res = []

            def handler(s, val):
                outs = self.with_body(s, fid, node, i, item, val)
                ret = []
                for kind, s2, v2 in outs:
                    if kind in ('n', 'x'):
                        ret.append((kind, s2, v2 if kind == 'x' else V_NONE))
                    else:
                        ret.append(('n', s2, V_NONE))
                        if kind != 'n':
                            s2.ts = dict(s2.ts)
                            s2.ts['@leave'] = (kind, v2)
                return ret
            for kind, s2, v2 in self.run_gen(st, a[2], handler, site):
                if kind == 'r':
                    lv = s2.ts.pop('@leave', None) if (
                        '@leave' in s2.ts) else None
                    if lv:
                        res.append((lv[0], s2, lv[1]))
                    else:
                        res.append(('n', s2, None))
                else:
                    res.append((kind, s2, v2))
            return res
        if a[0] == 'x' and a[1] == 'suppress':
            res = []
            for kind, s2, v2 in self.with_body(st, fid, node, i, item,
                                               V_NONE):
                if kind == 'x':
                    m = self.exc_match_v(v2, a[2])
                    if m is not False:
                        res.append(('n', s2.copy(), None))
                    if m is not True:
                        res.append((kind, s2, v2))
                else:
                    res.append((kind, s2, v2))
            return res
        if a[0] == 'o' and self.obj(st, a[1]).cls and self.find_attr(
                self.obj(st, a[1]).cls, '__enter__', st=st):
            res = []
            for s2, v in self.call_method(st, a, '__enter__', [], {}, site):
                if isinstance(v, X):
                    res.append((v.kind, s2, v.v))
                    continue
                for kind, s3, v3 in self.with_body(s2, fid, node, i, item,
                                                   v):
                    args = [V_NONE] * 3 if kind != 'x' else [
                        v_unk('exc')] * 3
                    for s4, v4 in self.call_method(
                            s3, a, '__exit__', args, {}, site):
                        if isinstance(v4, X):
                            res.append((v4.kind, s4, v4.v))
                        elif kind == 'x':
                            for s5, b, _ in self.truth(s4, v4):
                                res.append(('n', s5, None) if b is True
                                           else (kind, s5, v3))
                        else:
                            res.append((kind, s4, v3))
            return res
        # external context manager, such as a file
        res = []
        val = V([a])
        for kind, s2, v2 in self.with_body(st, fid, node, i, item, val):
            self.on_with_exit(s2, a, site)
            res.append((kind, s2, v2))
        return res

    def on_with_exit(self, st, a, node):
        h = self.hooks.get('with_exit')
        if h:
            h(st, a, node)

    # -- loops ---------------------------------------------------------
    def s_For(self, st, fid, node):
        outs = []
        for s, it in self.ev(st, fid, node.iter):
            if isinstance(it, X):
                outs.append((it.kind, s, it.v))
                continue

            def body(s2, val, idx):
                res = []
                for s3, r in self.assign(s2, fid, node.target, val):
                    if isinstance(r, X):
                        res.append((r.kind, s3, r.v))
                    else:
                        res.extend(self.block(s3, fid, node.body))
                return res

            for kind, s2, v in self.for_each(s, it, body, node):
                if kind == 'n' and node.orelse:
                    outs.extend(self.block(s2, fid, node.orelse))
                elif kind == 'b':
                    outs.append(('n', s2, None))
                else:
                    outs.append((kind, s2, v))
        return self.merge_cap(outs)

    s_AsyncFor = s_For

    def s_While(self, st, fid, node):
        def head(s):
            """[(st, True/False/X)]"""
            res = []
            for s2, v in self.ev(s, fid, node.test):
                if isinstance(v, X):
                    res.append((s2, v))
                else:
                    tr = self.truth(s2, v, node.test)
                    res.extend((s3, b) for s3, b, _ in tr)
            return res

        def step(s):
            """outcomes of one round; ('d', st, None) when done"""
            res = []
            for s2, b in head(s):
                if isinstance(b, X):
                    res.append((b.kind, s2, b.v))
                elif b:
                    res.extend(self.block(s2, fid, node.body))
                else:
                    res.append(('d', s2, None))
            return res

        # Unroll as long as the condition is decided and the number of
        # states does not grow.
        outs = []
        states = [st]
        if self.exact:
            return self.while_exact(st, fid, node, step)
        for _ in range(self.UNROLL):
            nxt = []
            undecided = False
            probe = []
            for s in states:
                h = head(s.copy())
                probe.append(h)
                kinds = set(b if not isinstance(b, X) else 'x'
                            for _, b in h)
                if len(kinds - {'x'}) > 1 or (
                        isinstance(node.test, ast.Constant)):
                    undecided = True
            if undecided:
                break
            for h in probe:
                for s2, b in h:
                    if isinstance(b, X):
                        outs.append((b.kind, s2, b.v))
                    elif b:
                        for o in self.block(s2, fid, node.body):
                            if o[0] in 'nc':
                                nxt.append(('n', o[1], None))
                            else:
                                outs.append(o)
                    else:
                        outs.append(('d', s2, None))
            states = [o[1] for o in self.merge_cap(nxt)]
            if not states:
                break
        if states:
            for s in states:
                outs.extend(self.fix(s, step, node))
        res = []
        for kind, s, v in outs:
            if kind == 'd':
                if node.orelse:
                    res.extend(self.block(s, fid, node.orelse))
                else:
                    res.append(('n', s, None))
            elif kind == 'b':
                res.append(('n', s, None))
            else:
                res.append((kind, s, v))
        return self.merge_cap(res)

    UNROLL = 24

    ROUNDS = 3000
    SAME = 35
    endless = None

    def seems_endless(self, st, what, node):
        """
        A loop or recursion of the code went on for much longer than the
        input can account for, on a path without unknowns.
        """
        if not st.ts.get('unk'):
            self.endless = '{} at {}'.format(what, loc(node))
        raise Limit(what)

    def while_exact(self, st, fid, node, step):
        res = []
        states = [st]
        rounds = 0
        while states:
            rounds += 1
            if rounds > self.ROUNDS:
                self.seems_endless(states[0], 'more than {} rounds of the '
                                   'loop'.format(self.ROUNDS), node)
            nxt = []
            for s in states:
                for kind, s2, v in step(s):
                    if kind in 'nc':
                        nxt.append(s2)
                    elif kind == 'd':
                        if node.orelse:
                            res.extend(self.block(s2, fid, node.orelse))
                        else:
                            res.append(('n', s2, None))
                    elif kind == 'b':
                        res.append(('n', s2, None))
                    else:
                        res.append((kind, s2, v))
            states = nxt
            if len(states) + len(res) > 200:
                raise Limit('too many states')
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Limit('too many steps')
        return res

    def fix(self, st, step, node):
        """
        Fixpoint of a loop. step(st) gives outcomes of one round:
        n/c to go on, d when the loop is done, the rest leaves it.
        Events of earlier rounds are summarised in a 'loop' event.
        """
        prefix = st.tr
        head0 = st
        oldoids = frozenset(st.heap)
        st.tr = ()
        heads = {}
        evset = set()
        key0 = tskey(st.ts)
        heads[key0] = head0
        results = {}
        work = [key0]
        count = {}
        while work:
            k = work.pop(0)
            count[k] = count.get(k, 0) + 1
            if count[k] > self.FIXMAX:
                self.notes.append('no fixpoint: ' + loc(node))
                break
            outs = step(heads[k].copy())
            results[k] = outs
            hook = self.iter_hook
            back = []
            for kind, s, v in outs:
                if kind in 'nc':
                    if hook:
                        hook(node, s)
                    for e in s.tr:
                        evset.add(evkey(e))
                    s.tr = ()
                    back.append(('n', s, None))
            for _, s, _ in self.merge(back, 3):
                self.gc(s, oldoids, None, True)
                kk = tskey(s.ts)
                old = heads.get(kk)
                if old is None:
                    heads[kk] = s
                    work.append(kk)
                else:
                    new = self.join_states(old, s, widen=count.get(
                        kk, 0) >= 4)
                    self.gc(new, oldoids)
                    if not self.state_same(old, new):
                        heads[kk] = new
                        if kk not in work:
                            work.append(kk)
        final = []
        for k, outs in results.items():
            for kind, s, v in outs:
                if kind in 'nc':
                    continue
                tail = s.tr
                if evset:
                    s.tr = prefix + (('loop', node_site(node), frozenset(
                        evset)),) + tail
                else:
                    s.tr = prefix + tail
                final.append((kind, s, v))
        return self.merge_cap(final)

    def for_each(self, st, it, body, node):
        """
        Run body(st, elem, index) for each element. Returns outcomes with
        'n' when exhausted, 'b' when left by break.
        """
        outs = []
        atoms = list(it.a)
        for s, a, _ in self.split(st, it, lambda x: x):
            outs.extend(self.for_atom(s, a, body, node))
        return outs if len(atoms) == 1 else self.merge_cap(outs)

    def for_items(self, st, items, body, start=0):
        states = [st]
        outs = []
        for n, item in enumerate(items):
            nxt = []
            for s in states:
                for o in body(s, item, start + n):
                    if o[0] in 'nc':
                        nxt.append(('n', o[1], None))
                    else:
                        outs.append(o)
            states = [o[1] for o in self.merge_cap(nxt)]
            if not states:
                break
        return [('n', s, None) for s in states] + outs

    def for_summary(self, st, elemfn, lo, body, node, donefn=None):
        """elemfn(st) -> V, fresh for each round."""
        first = [lo]

        def step(s):
            res = []
            if not (first[0] and s.ts.get('@loop0') == id(step)):
                d = s.copy()
                if donefn:
                    donefn(d)
                res.append(('d', d, None))
            e = elemfn(s)
            if e is None:
                return res
            for o in body(s, e, None):
                res.append(o)
            return res

        outs = []
        if lo and lo > 0:
            # at least one round: peel it
            e = elemfn(st)
            if e is None:
                return [('n', st, None)]
            back = []
            for o in body(st, e, None):
                if o[0] in 'nc':
                    back.append(('n', o[1], None))
                else:
                    outs.append(o)
            first[0] = 0
            for _, s, _ in self.merge_cap(back):
                outs.extend(self.fix(s, step, node))
        else:
            outs = self.fix(st, step, node)
        return [('n', s, None) if k == 'd' else (k, s, v)
                for k, s, v in outs]

    def for_atom(self, st, a, body, node):
        t = a[0]
        if t == 't':
            return self.for_items(st, a[1], body)
        if t == 'tt':
            return self.for_summary(
                st, lambda s: V(a[1].a), a[2], body, node)
        if t == 's':
            if len(a[1]) <= 120 or self.exact:
                return self.for_items(st, [v_str(c) for c in a[1]], body)
            return self.for_summary(st, lambda s: v_y(None, 1), 1, body,
                                    node)
        if t == 'by':
            if len(a[1]) <= 120 or self.exact:
                return self.for_items(st, [v_int(c) for c in a[1]], body)
            return self.for_summary(st, lambda s: v_anyint(0, 255), 1, body,
                                    node)
        if t == 'y':
            lo = 1 if self.atom_truth(st, a) is True else 0

            def elem(s):
                v = self.sym(s, 'ch@' + node_site(node), 1)
                tt = v.one[1]
                s.facts[('one', tt)] = True
                return v
            if self.atom_truth(st, a) is False:
                return [('n', st, None)]
            return self.for_summary(st, elem, lo, body, node,
                                    self.done_ne(a, lo))
        if t == 'yb':
            return self.for_summary(st, lambda s: v_anyint(0, 255), 0, body,
                                    node)
        if t == 'o':
            return self.for_obj(st, a, body, node)
        if t == 'x':
            h = self.ext_iter(st, a, body, node)
            if h is not None:
                return h
        if t == 'none':
            return [('x', st, Exc('TypeError', True, node,
                                  'iterating None'))]
        if t == 'i' or t == 'b':
            return [('x', st, Exc('TypeError', True, node,
                                  'iterating int'))]
        if t == 'missing':
            return []
        return self.for_summary(st, lambda s: v_unk('elem'), 0, body, node)

    def done_ne(self, a, lo):
        return None

    def ext_iter(self, st, a, body, node):
        if a[1] == 'iter':      # ('x', 'iter', handler key, ...)
            return a[2](self, st, a, body, node)
        return None

    def for_obj(self, st, a, body, node):
        o = self.obj(st, a[1])
        if o is None:
            return self.for_summary(st, lambda s: v_unk('elem'), 0, body,
                                    node)
        if self.exact and (
                o.kind == 'iter' and '@pos' in o.f or
                o.cls and o.cls in self.cls_info and self.find_attr(
                    o.cls, '__next__', st=st)):
            return self.for_next(st, a, body, node)
        if o.cls and o.kind != 'gen':
            fa = self.find_attr(o.cls, '__iter__', st=st)
            if fa:
                outs = []
                for s, v in self.call_method(st, a, '__iter__', [], {},
                                             node):
                    if isinstance(v, X):
                        outs.append((v.kind, s, v.v))
                    else:
                        outs.extend(self.for_each(s, v, body, node))
                return outs
            if o.kind == 'inst' and self.find_attr(
                    o.cls, '__getitem__', st=st):
                return self.for_getitem(st, a, body, node)
        if o.kind in ('list',):
            if o.items is not None and not o.summ:
                return self.for_live_list(st, a[1], body, node)
            if o.items is not None:
                return self.for_items(st, [V(i.a) for i in o.items], body)
            if o.elem is None:
                return [('n', st, None)]
            first = [True]
            del first

            def elem(s):
                oo = self.obj(s, a[1]) or o
                e = oo.all_elem()
                if e is None:
                    e = o.all_elem()
                return self.recharge(s, e, node)

            def donefn(s):
                pass
            return self.for_summary(st, elem, o.lo, body, node, donefn)
        if o.kind == 'set':
            if o.elem is None and not o.f:
                return [('n', st, None)]
            vals = [v for v in o.f.values()] + (
                [o.elem] if o.elem is not None else [])
            if o.elem is None and len(o.f) == 1 and not any(
                    v.has('missing') for v in vals):
                return self.for_items(st, vals, body)
            if self.exact and o.elem is None and not o.summ and not any(
                    v.has('missing') for v in vals):
                return self.for_items(st, vals, body)
            orders = self.set_orders(o)
            if orders is not None and not self.concrete:
                outs = []
                for n, order in enumerate(orders):
                    s = st.copy()
                    k = '@order:' + node_site(node)
                    s.ts[k] = (s.ts.get(k, ()) + (n,))[-4:]
                    outs.extend(self.for_items(s, order, body))
                return outs
            e = join_v(*vals)
            e = V([x for x in e.a if x != MISSING])
            return self.for_summary(st, lambda s: V(e.a), 0, body, node)
        if o.kind == 'dict':
            keys = [k for k, v in o.f.items()]
            if o.elem is None and not any(
                    v.has('missing') for v in o.f.values()):
                return self.for_items(st, [V([k]) for k in keys], body)
            e = join_opt_list([V([k]) for k in keys] + (
                [o.last] if o.last is not None else []))
            if e is None:
                e = v_unk('key')
            return self.for_summary(st, lambda s: self.recharge(
                s, e, node), 0, body, node)
        if o.kind == 'gen':
            return self.for_gen(st, a, body, node)
        if o.kind == 'iter':
            return self.for_iter(st, a, body, node)
        return self.for_summary(st, lambda s: v_unk('elem'), 0, body, node)

    def for_next(self, st, a, body, node):
        """One call of next() after the other."""
        outs = []
        states = [st]
        n = 0
        while states:
            nxt = []
            for s in states:
                for s2, v in self.next_of(s, a, node):
                    if isinstance(v, X):
                        if v.kind == 'x' and v.v.name == 'StopIteration':
                            outs.append(('n', s2, None))
                        else:
                            outs.append((v.kind, s2, v.v))
                        continue
                    for k, s3, v3 in body(s2, v, n):
                        if k in 'nc':
                            nxt.append(s3)
                        else:
                            outs.append((k, s3, v3))
            states = nxt
            n += 1
            self.steps += 1
            if n > self.ROUNDS and states and self.exact:
                self.seems_endless(states[0], 'more than {} rounds of the '
                                   'loop'.format(self.ROUNDS), node)
            if self.steps > self.MAXSTEPS or len(states) + len(outs) > 200:
                raise Limit('too many steps')
        return outs

    def recharge(self, st, e, node):
        """A fresh element from a summary: anonymous strings get a symbol
        so conditions on them are remembered in the round."""
        ys = [x for x in e.a if x[0] == 'y']
        if not ys:
            return V(e.a)
        rest = [x for x in e.a if x[0] != 'y']
        if len(ys) == 1 and ys[0][1] is not None and False:
            return V(e.a)
        from .values import join_ne
        v = self.sym(st, 'el@' + node_site(node), join_ne(
            y[2] for y in ys))
        return V(rest + list(v.a))

    def for_live_list(self, st, oid, body, node):
        """Exact list, which may grow in the loop."""
        states = [st]
        outs = []
        fin = []
        for n in range(4000 if self.exact else 400):
            nxt = []
            for s in states:
                o = self.obj(s, oid)
                if o is None or o.items is None:
                    # became inexact: go on with the summary
                    e = o.elem if o is not None else None
                    if e is None:
                        fin.append(s)
                        continue
                    fin2 = self.for_summary(
                        s, lambda s2: self.recharge(s2, e, node), 0, body,
                        node)
                    for k, s2, v in fin2:
                        if k == 'n':
                            fin.append(s2)
                        else:
                            outs.append((k, s2, v))
                    continue
                if n >= len(o.items):
                    fin.append(s)
                    continue
                for r in body(s, o.items[n], n):
                    if r[0] in 'nc':
                        nxt.append(('n', r[1], None))
                    else:
                        outs.append(r)
            states = [i[1] for i in self.merge_cap(nxt)]
            if not states:
                break
        else:
            if self.exact:
                self.seems_endless(states[0], 'the list that the loop goes '
                                   'through keeps growing', node)
        return [('n', s, None) for s in fin] + outs

    def for_getitem(self, st, a, body, node):
        """Iteration through __getitem__."""
        # Exact when the item list is.
        def step(s):
            res = []
            for s2, v in self.call_method(s, a, '__getitem__', [v_anyint(
                    0, None, None)], {}, node):
                if isinstance(v, X):
                    if v.kind == 'x' and v.v.name == 'IndexError':
                        res.append(('d', s2, None))
                    else:
                        res.append((v.kind, s2, v.v))
                else:
                    res.extend(body(s2, self.recharge(s2, v, node), None))
            return res
        # try exact indices
        states = [st]
        outs = []
        for n in range(40):
            nxt = []
            for s in states:
                r = self.call_method(s.copy(), a, '__getitem__',
                                     [v_int(n)], {}, node)
                kinds = set((v.v.name if isinstance(v, X) else 'v')
                            for _, v in r)
                if len(kinds) > 1 or any(
                        isinstance(v, V) and self.inexact_item for _, v
                        in r):
                    for k, s2, v in self.fix(s, step, node):
                        outs.append(('n' if k == 'd' else k, s2, v))
                    continue
                for s2, v in r:
                    if isinstance(v, X):
                        if v.kind == 'x' and v.v.name == 'IndexError':
                            outs.append(('n', s2, None))
                        else:
                            outs.append((v.kind, s2, v.v))
                    else:
                        for o in body(s2, v, n):
                            if o[0] in 'nc':
                                nxt.append(('n', o[1], None))
                            else:
                                outs.append(o)
            states = [i[1] for i in self.merge_cap(nxt)]
            if not states:
                break
        return outs

    inexact_item = False    # set by getitem when the list is not exact

    # generators
    def for_gen(self, st, a, body, node):
        o = self.obj(st, a[1])
        if o.summ:
            return self.for_summary(st, lambda s: v_unk('gen'), 0, body,
                                    node)

        def handler(s, val):
            res = []
            for kind, s2, v2 in body(s, val, None):
                if kind in 'nc':
                    res.append(('n', s2, V_NONE))
                else:
                    res.append(('g', s2, (marker, kind, v2)))
            return res
        marker = object()
        outs = []
        for kind, s2, v2 in self.run_gen(st, V([a]), handler, node):
            if kind == 'r':
                outs.append(('n', s2, None))
            elif kind == 'g' and isinstance(v2, tuple) and (
                    v2[0] is marker):
                outs.append((v2[1], s2, v2[2]))
            else:
                outs.append((kind, s2, v2))
        return outs

    def run_gen(self, st, gv, handler, node):
        """Run the generator with the handler for yields. Outcomes: r, x,
        g."""
        a = gv.one
        if a is None or a[0] != 'o':
            return [('r', st, V_NONE)]
        o = self.obj(st, a[1])
        if 'genexp' in o.tags:
            cnode, cfid = o.f['@node'], o.f['@fid']
            if '@src' in o.f:
                return self.run_comp(st, cfid, cnode, cnode.generators, 0,
                                     handler, o.f['@src'])
            return self.run_comp(st, cfid, cnode, cnode.generators, 0,
                                 handler, None)
        if '@done' in o.f:
            return [('r', st, V_NONE)]
        if '@fn' not in o.f:
            return [('r', st, V_NONE)]
        self.put(st, a[1], o.setf('@done', V_TRUE))
        qual, closure = o.f['@fn']
        env = {k: v for k, v in o.f.items() if k not in ('@fn', '@done')}
        return self.run_function(st, qual, closure, env, node, handler)

    def run_comp(self, st, fid, node, gens, i, handler, src):
        """Generator expression; runs in the enclosing frame."""
        if i >= len(gens):
            outs = []
            for s, v in self.ev(st, fid, node.elt):
                if isinstance(v, X):
                    outs.append((v.kind, s, v.v))
                else:
                    for kind, s2, v2 in handler(s, v):
                        outs.append(('n' if kind == 'n' else kind, s2, v2))
            return outs if i > 0 else outs
        g = gens[i]
        outs = []
        its = [(st, src)] if (i == 0 and src is not None) else self.ev(
            st, fid, g.iter)
        for s, it in its:
            if isinstance(it, X):
                outs.append((it.kind, s, it.v))
                continue

            def body(s2, val, idx):
                res = []
                for s3, r in self.assign(s2, fid, g.target, val):
                    if isinstance(r, X):
                        res.append((r.kind, s3, r.v))
                        continue
                    states = [s3]
                    for cond in g.ifs:
                        nxt = []
                        for s4 in states:
                            for s5, cv in self.ev(s4, fid, cond):
                                if isinstance(cv, X):
                                    res.append((cv.kind, s5, cv.v))
                                    continue
                                for s6, b, _ in self.truth(s5, cv, cond):
                                    if isinstance(b, X):
                                        res.append((b.kind, s6, b.v))
                                    elif b:
                                        nxt.append(s6)
                                    else:
                                        res.append(('n', s6, None))
                        states = nxt
                    for s4 in states:
                        res.extend(self.run_comp(
                            s4, fid, node, gens, i + 1, handler, None))
                return res
            for kind, s2, v2 in self.for_each(s, it, body, g.iter):
                outs.append((('r' if i == 0 else 'n') if kind == 'n'
                             else kind, s2, v2))
        return outs

    def for_iter(self, st, a, body, node):
        """enumerate, zip, reversed, map, filter and stateful iterators."""
        o = self.obj(st, a[1])
        kind = o.f['@kind']
        src = o.f.get('@src')
        if kind == 'enumerate':
            start = o.f.get('@start', 0)
            cnt = [0]
            del cnt

            def b2(s, val, idx):
                i = v_int(idx + start) if idx is not None else v_anyint(
                    start, None, None)
                if idx is None:
                    i = self.idx_value(s, src, start)
                return body(s, V([('t', (i, val))]), idx)
            return self.for_each(st, src, b2, node)
        if kind == 'reversed':
            at = src.one
            if at and at[0] == 'o':
                so = self.obj(st, at[1])
                if so.kind == 'list' and so.items is not None:
                    return self.for_items(
                        st, list(reversed(so.items)), body)
                if so.kind == 'inst' or so.cls:
                    pass
            if at and at[0] == 't':
                return self.for_items(st, list(reversed(at[1])), body)
            return self.for_each(st, src, body, node)
        if kind == 'zip':
            srcs = o.f['@srcs']
            exact = []
            for v in srcs:
                e = self.exact_items(st, v)
                exact.append(e)
            if all(e is not None for e in exact) and exact:
                n = min(len(e) for e in exact)
                return self.for_items(
                    st, [v_tuple([e[i] for e in exact]) for i in range(n)],
                    body)
            elems = [self.elem_of(st, v) for v in srcs]
            return self.for_summary(
                st, lambda s: v_tuple([V(e.a) for e in elems]), 0, body,
                node)
        if kind == 'map':
            fn = o.f['@func']

            def b3(s, val, idx):
                res = []
                for s2, v in self.call(s, fn, [val], {}, node):
                    if isinstance(v, X):
                        res.append((v.kind, s2, v.v))
                    else:
                        res.extend(body(s2, v, idx))
                return res
            return self.for_each(st, src, b3, node)
        if kind == 'filter':
            fn = o.f['@func']

            def b4(s, val, idx):
                res = []
                if fn == V_NONE:
                    rs = [(s, val)]
                else:
                    rs = self.call(s, fn, [val], {}, node)
                for s2, v in rs:
                    if isinstance(v, X):
                        res.append((v.kind, s2, v.v))
                        continue
                    for s3, b, _ in self.truth(s2, v, node):
                        if isinstance(b, X):
                            res.append((b.kind, s3, b.v))
                        elif b:
                            res.extend(body(s3, val, None))
                        else:
                            res.append(('n', s3, None))
                return res
            return self.for_each(st, src, b4, node)
        if kind == 'iter':
            return self.for_each(st, src, body, node)
        if kind == 'range':
            return self.for_summary(
                st, lambda s: V(o.f['@elem'].a), 0, body, node)
        return self.for_summary(st, lambda s: v_unk('elem'), 0, body, node)

    def set_orders(self, o):
        """All orders in which a small set of constants may be iterated."""
        if o.elem is not None or o.summ or not 2 <= len(o.f) <= 3 or any(
                v.has('missing') or v.one is None or v.one[0] != 's'
                for v in o.f.values()):
            return None
        return [list(i) for i in itertools.permutations(o.f.values())]

    def idx_value(self, st, src, start):
        """Index of an element of src: valid as index."""
        a = src.one
        if a and a[0] == 'y' and a[1] is not None and start == 0:
            return V([('i', 0, None, ('idx', a[1], 0))])
        return v_anyint(start)

    def exact_items(self, st, v):
        a = v.one
        if a is None:
            return None
        if a[0] == 't':
            return list(a[1])
        if a[0] == 's':
            return [v_str(c) for c in a[1]]
        if a[0] == 'o':
            o = self.obj(st, a[1])
            if o.kind == 'list' and o.items is not None and not (
                    o.cls and self.find_attr(o.cls, '__iter__')):
                return list(o.items)
        return None

    def elem_of(self, st, v):
        """Join of the elements, without running code."""
        vals = []
        for a in v.a:
            if a[0] == 't':
                vals.extend(a[1])
            elif a[0] == 'tt':
                vals.append(a[1])
            elif a[0] in ('s', 'y'):
                vals.append(v_y(None, 1))
            elif a[0] in ('by', 'yb'):
                vals.append(v_anyint(0, 255))
            elif a[0] == 'o':
                o = self.obj(st, a[1])
                if o.kind == 'list':
                    e = o.all_elem()
                    if e is not None:
                        vals.append(e)
                elif o.kind == 'set':
                    vals.extend(V([x for x in i.a if x != MISSING])
                                for i in o.f.values())
                    if o.elem is not None:
                        vals.append(o.elem)
                elif o.kind == 'dict':
                    vals.extend(V([k]) for k in o.f)
                    if o.last is not None:
                        vals.append(o.last)
                else:
                    vals.append(v_unk('elem'))
            else:
                vals.append(v_unk('elem'))
        return join_v(*vals) if vals else v_unk('elem')

    # ------------------------------------------------------------------
    # assignment
    # ------------------------------------------------------------------
    def store_name(self, st, fid, name, v):
        if isinstance(fid, tuple) and fid[0] == 'M':
            oid = ('mod', fid[1])
            st.heap[oid] = self.obj(st, oid).setf(name, v)
            return
        info = self.fnof.get(fid)
        if isinstance(info, FuncInfo):
            if name in info.globals:
                oid = ('mod', info.mod.name)
                st.heap[oid] = self.obj(st, oid).setf(name, v)
                st.event('gset', info.mod.name, name)
                return
            if name in info.nonlocals:
                cl = st.fr[fid].get('@closure')
                while cl is not None and cl in st.fr:
                    if name in st.fr[cl]:
                        st.setv(cl, name, v)
                        return
                    cl = st.fr[cl].get('@closure')
                return
        st.setv(fid, name, v)

    def assign(self, st, fid, t, v):
        """[(st, None or X)]"""
        if isinstance(t, ast.Name):
            self.store_name(st, fid, t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, fid, t, v)
        if isinstance(t, ast.Starred):
            return self.assign(st, fid, t.value, v)
        if isinstance(t, ast.Attribute):
            res = []
            for s, base in self.ev(st, fid, t.value):
                if isinstance(base, X):
                    res.append((s, base))
                    continue
                res.extend(self.setattr(s, base, t.attr, v, t))
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for s, base in self.ev(st, fid, t.value):
                if isinstance(base, X):
                    res.append((s, base))
                    continue
                for s2, key in self.ev_slice(s, fid, t.slice):
                    if isinstance(key, X):
                        res.append((s2, key))
                        continue
                    res.extend(self.setitem(s2, base, key, v, t))
            return res
        return [(st, None)]

    def unpack(self, st, fid, t, v):
        res = []
        elts = t.elts
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        for s, a, av in self.split(st, v, lambda x: x):
            s = s.copy() if len(v.a) > 1 else s
            items = None
            if a[0] == 't':
                items = list(a[1])
            elif a[0] == 's':
                items = [v_str(c) for c in a[1]]
            elif a[0] == 'o':
                o = self.obj(s, a[1])
                if o.kind == 'list' and o.items is not None:
                    items = list(o.items)
                elif o.kind in ('gen', 'iter') or o.cls:
                    rr = self.collect(s, av, t)
                    for s2, lst in rr:
                        if isinstance(lst, X):
                            res.append((s2, lst))
                        else:
                            res.extend(self.unpack(s2, fid, t, lst))
                    continue
            if items is not None:
                if star:
                    k = star[0]
                    if len(items) < n - 1:
                        res.append((s, X('x', Exc(
                            'ValueError', True, t, 'unpack'))))
                        continue
                    tail = n - 1 - k
                    mid = items[k:len(items) - tail]
                    lst = self.new(s, node_site(t), Obj(
                        'list', items=tuple(mid)))
                    vals = items[:k] + [lst] + (
                        items[len(items) - tail:] if tail else [])
                elif len(items) != n:
                    res.append((s, X('x', Exc(
                        'ValueError', True, t,
                        'unpack {} values into {}'.format(
                            len(items), n)))))
                    continue
                else:
                    vals = items
            else:
                e = self.elem_of(s, V([a])) if a[0] in ('o', 'tt') else (
                    v_unk('unpack') if a[0] not in ('y',) else v_y(None, 1))
                if a[0] in ('none', 'i', 'b'):
                    res.append((s, X('x', Exc('TypeError', True, t,
                                              'unpack of non-sequence'))))
                    continue
                vals = []
                for i in range(n):
                    if star and i == star[0]:
                        vals.append(self.new(s, node_site(t), Obj(
                            'list', elem=V(e.a), lo=0)))
                    else:
                        vals.append(V(e.a))
                # it may not fit; no evidence
                if a[0] != 'unk':
                    s2 = s.copy()
                    res.append((s2, X('x', Exc('ValueError', False, t,
                                               'unpack'))))
            states = [(s, None)]
            for e, val in zip(elts, vals):
                nxt = []
                for s2, r in states:
                    if isinstance(r, X):
                        nxt.append((s2, r))
                    else:
                        nxt.extend(self.assign(s2, fid, e, val))
                states = nxt
            res.extend(states)
        return res

    def setattr(self, st, base, name, v, node):
        res = []
        multi = len(base.a) > 1
        for s, a, _ in self.split(st, base, lambda x: x):
            t = a[0]
            if t == 'o':
                o = self.obj(s, a[1])
                if o.cls:
                    fa = self.find_attr(o.cls, name, st=s)
                    if fa and fa[1].one and fa[1].one[0] == 'prop':
                        res.append((s, None))   # a setter; not modelled
                        continue
                h = self.hooks.get('setattr')
                if h:
                    h(s, a, name, v, node)
                if o.summ:
                    old = o.f.get(name, V_MISSING)
                    self.put(s, a[1], o.setf(name, join_v(old, v)))
                else:
                    self.put(s, a[1], o.setf(name, v))
                res.append((s, None))
            elif t == 'cls':
                h = self.hooks.get('setattr')
                if h:
                    h(s, a, name, v, node)
                o = self.obj(s, ('cls', a[1]))
                if o is not None:
                    s.heap[('cls', a[1])] = o.setf(name, v)
                res.append((s, None))
            elif t == 'mod':
                o = self.obj(s, ('mod', a[1]))
                h = self.hooks.get('setattr')
                if h:
                    h(s, a, name, v, node)
                if o is not None:
                    s.heap[('mod', a[1])] = o.setf(name, v)
                res.append((s, None))
            elif t in ('none', 's', 'y', 'i', 'b', 't', 'by', 'yb'):
                res.append((s, X('x', Exc(
                    'AttributeError', t != 'none' or not multi or True,
                    node, 'set {} on {}'.format(name, t)))))
            elif t == 'missing':
                continue
            else:
                h = self.hooks.get('setattr')
                if h:
                    h(s, a, name, v, node)
                res.append((s, None))
        return res

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def ev(self, st, fid, node):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return [(st, v_unk(type(node).__name__))]
        r = m(st, fid, node)
        if len(r) > self.CAP:
            r = self.merge_ev(r)
        return r

    def merge_ev(self, r):
        outs = []
        for s, v in r:
            if isinstance(v, X):
                outs.append((v.kind, s, v.v))
            else:
                outs.append(('n', s, v))
        outs = self.merge_cap(outs)
        return [(s, v if k == 'n' else X(k, v)) for k, s, v in outs]

    def ev_list(self, st, fid, nodes):
        """[(st, [V...]) or (st, X)]"""
        states = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in states:
                if isinstance(vals, X):
                    nxt.append((s, vals))
                    continue
                for s2, v in self.ev(s, fid, n):
                    if isinstance(v, X):
                        nxt.append((s2, v))
                    else:
                        nxt.append((s2, vals + [v]))
            states = nxt
        return states

    def e_Constant(self, st, fid, node):
        return [(st, pyconst(node.value))]

    def e_Name(self, st, fid, node):
        return self.name(st, fid, node.id, node)

    def name(self, st, fid, ident, node):
        f = fid
        while True:
            env = st.fr.get(f)
            if isinstance(f, tuple) and f[0] == 'M':
                v = self.obj(st, ('mod', f[1])).f.get(ident)
                if v is not None:
                    return [(st, v)]
                break
            if isinstance(f, tuple) and f[0] == 'C':
                v = env.get(ident) if env else None
                if v is not None:
                    return [(st, v)]
                f = f[2]
                if not (isinstance(f, tuple) and f[0] in 'MC'):
                    pass
                continue
            info = self.fnof[f]
            if env is not None and ident in env and (
                    ident not in info.globals):
                v = env[ident]
                if isinstance(v, V) and v.has('missing'):
                    rest = [x for x in v.a if x != MISSING]
                    if not rest:
                        return [(st, X('x', Exc(
                            'UnboundLocalError', False, node, ident)))]
                    s2 = st.copy()
                    nv = V(rest)
                    self.narrow(st, v, nv)
                    return [(st, nv), (s2, X('x', Exc(
                        'UnboundLocalError', False, node, ident)))]
                return [(st, v)]
            if ident in info.locals:
                return [(st, X('x', Exc('UnboundLocalError', False, node,
                                        ident)))]
            cl = env.get('@closure') if env else None
            if cl is not None and cl in st.fr:
                f = cl
                continue
            f = ('M', info.mod.name)
            o = self.obj(st, ('mod', info.mod.name))
            v = o.f.get(ident) if o is not None else None
            if v is not None:
                return [(st, v)]
            break
        return self.builtin_name(st, ident, node)

    def builtin_name(self, st, ident, node):
        if ident in BUILTIN_CLASSES:
            return [(st, V([('xcls', ident)]))]
        if ident == '__name__':
            return [(st, v_unk('__name__'))]
        if 'builtins.' + ident in self.ext:
            return [(st, self.ext['builtins.' + ident])]
        if hasattr(_py, ident):
            return [(st, V([('xm', 'builtins.' + ident)]))]
        if ident == '__file__':
            return [(st, v_y(None, 1))]
        return [(st, X('x', Exc('NameError', True, node, ident)))]

    def e_Attribute(self, st, fid, node):
        res = []
        for s, base in self.ev(st, fid, node.value):
            if isinstance(base, X):
                res.append((s, base))
                continue
            res.extend(self.getattr(s, base, node.attr, node))
        return res

    def getattr(self, st, base, name, node):
        if len(base.a) == 1:
            return self.getattr1(st, base.one, base, name, node)
        res = []
        # objects for which the access gives the same kind of result stay
        # together only when they are the same atom.
        for s, a, nv in self.split(st, base, lambda x: x):
            res.extend(self.getattr1(s, a, nv, name, node))
        return res

    def wrap_attr(self, st, v, selfatom, clsatom, node):
        """Descriptor protocol. [(st, V)]"""
        res = []
        for s, a, nv in self.split(st, v, lambda x: x):
            t = a[0]
            if t == 'prop':
                if selfatom is None:
                    res.append((s, nv))
                else:
                    res.extend(self.call(s, a[1], [V([selfatom])], {},
                                         node))
            elif t == 'sm':
                res.append((s, a[1]))
            elif t == 'cm':
                c = clsatom
                res.append((s, V([('bm', a[1].one, c)])))
            elif t == 'fn' and selfatom is not None:
                res.append((s, V([('bm', a, selfatom)])))
            else:
                res.append((s, nv))
        return res

    def getattr1(self, st, a, base, name, node):
        t = a[0]
        if t == 'o':
            o = self.obj(st, a[1])
            if o is None:
                return [(st, v_unk('dead'))]
            if o.cls and o.cls in self.cls_info:
                fa = self.find_attr(o.cls, name, st=st)
                if fa and fa[1].one and fa[1].one[0] == 'prop':
                    return self.wrap_attr(st, fa[1], a, ('cls', o.cls), node)
                v = o.f.get(name)
                if v is not None and isinstance(v, V):
                    if v.has('missing'):
                        rest = V([x for x in v.a if x != MISSING])
                        res = []
                        if fa:
                            s2 = st.copy()
                            res.extend(self.wrap_attr(
                                s2, fa[1], a, ('cls', o.cls), node))
                        else:
                            s2 = st.copy()
                            res.append((s2, X('x', Exc(
                                'AttributeError', False, node, name))))
                        if rest.a:
                            if not o.summ:
                                self.put(st, a[1], o.setf(name, rest))
                            res.append((st, rest))
                        return res
                    return [(st, V(v.a) if o.summ else v)]
                if fa:
                    return self.wrap_attr(st, fa[1], a, ('cls', o.cls),
                                          node)
                if name == '__class__':
                    return [(st, V([('cls', o.cls)]))]
                if name == '__dict__':
                    return [(st, v_unk('__dict__'))]
                fa = self.find_attr(o.cls, '__getattr__', st=st)
                if fa:
                    return self.call_method(st, a, '__getattr__',
                                            [v_str(name)], {}, node)
                if o.kind in ('list', 'dict', 'set') or self.ext_bases(
                        o.cls):
                    return [(st, V([('bx', a, name)]))]
                if 'open' in o.tags:
                    return [(st, v_unk('attr ' + name))]
                return [(st, X('x', Exc(
                    'AttributeError', True, node, '{} has no {}'.format(
                        o.cls, name))))]
            v = o.f.get(name) if o.kind in ('inst', 'ext') else None
            if v is not None:
                return [(st, v)]
            if o.kind == 'ext' and 'closed' in o.tags:
                return [(st, X('x', Exc('AttributeError', True, node,
                                        name)))]
            return [(st, V([('bx', a, name)]))]
        if t == 'cls':
            fa = self.find_attr(a[1], name, st=st)
            if fa:
                return self.wrap_attr(st, fa[1], None, a, node)
            meta = self.metaclass(a[1])
            if meta:
                fa = self.find_attr(meta, name, st=st)
                if fa:
                    return self.wrap_attr(st, fa[1], a, ('cls', meta), node)
            if self.ext_bases(a[1]):
                return [(st, V([('bx', a, name)]))]
            if name in ('__new__', '__init__', '__doc__', '__bases__',
                        '__mro__', '__subclasses__', '__dict__'):
                return [(st, V([('bx', a, name)]))]
            return [(st, X('x', Exc('AttributeError', True, node,
                                    '{} has no {}'.format(a[1], name))))]
        if t == 'mod':
            o = self.obj(st, ('mod', a[1]))
            v = o.f.get(name) if o is not None else None
            if v is not None:
                return [(st, v)]
            sub = a[1] + '.' + name
            if self.loader.has(sub):
                self.load_module(st, sub)
                return [(st, V([('mod', sub)]))]
            return [(st, X('x', Exc('AttributeError', True, node,
                                    'module {} has no {}'.format(
                                        a[1], name))))]
        if t == 'xm':
            return [(st, self.ext_member(a[1], name))]
        if t == 'super':
            return self.super_attr(st, a, name, node)
        if t == 'xcls':
            return [(st, V([('bx', a, name)]))]
        if t in ('fn', 'bm'):
            if name == '__self__' and t == 'bm':
                return [(st, V([a[2]]))]
            if name == '__func__' and t == 'bm':
                return [(st, V([a[1]]))]
            if name == '__name__':
                return [(st, v_str(self.funcs[(a if t == 'fn' else a[1])[
                    1]].name))]
            return [(st, v_unk('fnattr'))]
        if t == 'x':
            r = self.x_attr(st, a, name, node)
            if r is not None:
                return r
            return [(st, V([('bx', a, name)]))]
        if t == 'none':
            return [(st, X('x', Exc(
                'AttributeError', True, node,
                "None has no attribute '{}'".format(name))))]
        if t in ('s', 'y'):
            if hasattr(str, name):
                return [(st, V([('bx', a, name)]))]
            return [(st, X('x', Exc('AttributeError', True, node,
                                    'str has no {}'.format(name))))]
        if t in ('by', 'yb'):
            if hasattr(bytes, name):
                return [(st, V([('bx', a, name)]))]
            return [(st, X('x', Exc('AttributeError', True, node,
                                    'bytes has no {}'.format(name))))]
        if t in ('i', 'b'):
            if hasattr(int, name):
                return [(st, V([('bx', a, name)]))]
            return [(st, X('x', Exc('AttributeError', True, node,
                                    'int has no {}'.format(name))))]
        if t in ('t', 'tt'):
            if hasattr(tuple, name):
                return [(st, V([('bx', a, name)]))]
            return [(st, X('x', Exc('AttributeError', True, node,
                                    'tuple has no {}'.format(name))))]
        if t == 'missing':
            return []
        if t == 'prop':
            return [(st, V([('bx', a, name)]))]
        return [(st, v_unk('attr ' + name))]

    def x_attr(self, st, a, name, node):
        h = self.hooks.get('x_attr')
        if h:
            return h(st, a, name, node)
        return None

    def super_attr(self, st, a, name, node):
        _, cls, selfatom = a
        if selfatom[0] == 'o':
            qual = self.obj(st, selfatom[1]).cls
            clsatom = ('cls', qual)
            inst = selfatom
        elif selfatom[0] == 'cls':
            qual = selfatom[1]
            clsatom = selfatom
            inst = None
            # super() in a method of a metaclass?
            meta = self.metaclass(qual)
            if cls not in self.mro(qual) and meta:
                m = self.mro(meta)
                if cls in m:
                    fa = self.find_attr(meta, name, after=cls, st=st)
                    if fa:
                        return self.wrap_attr(st, fa[1], selfatom,
                                              ('cls', meta), node)
                    return [(st, V([('bx', ('typesuper', selfatom), name)
                                    ]))]
        else:
            return [(st, v_unk('super'))]
        fa = self.find_attr(qual, name, after=cls, st=st)
        if fa:
            v = fa[1]
            if inst is None:
                # classmethod: functions stay unbound
                return self.wrap_attr(st, v, None, clsatom, node)
            return self.wrap_attr(st, v, inst, clsatom, node)
        return [(st, V([('bx', ('superx', cls, selfatom), name)]))]

    def e_Tuple(self, st, fid, node):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self.star_seq(st, fid, node, 'tuple')
        res = []
        for s, vals in self.ev_list(st, fid, node.elts):
            res.append((s, vals if isinstance(vals, X) else v_tuple(vals)))
        return res

    def e_List(self, st, fid, node):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self.star_seq(st, fid, node, 'list')
        res = []
        for s, vals in self.ev_list(st, fid, node.elts):
            if isinstance(vals, X):
                res.append((s, vals))
            else:
                res.append((s, self.new(s, node_site(node), Obj(
                    'list', items=tuple(vals)))))
        return res

    def star_seq(self, st, fid, node, kind):
        states = [(st, [], True)]
        for e in node.elts:
            nxt = []
            for s, vals, exact in states:
                if isinstance(vals, X):
                    nxt.append((s, vals, exact))
                    continue
                n = e.value if isinstance(e, ast.Starred) else e
                for s2, v in self.ev(s, fid, n):
                    if isinstance(v, X):
                        nxt.append((s2, v, exact))
                    elif isinstance(e, ast.Starred):
                        for s3, lst in self.collect(s2, v, node):
                            if isinstance(lst, X):
                                nxt.append((s3, lst, exact))
                                continue
                            items = self.exact_items(s3, lst)
                            if items is None:
                                nxt.append((s3, vals + [self.elem_of(
                                    s3, lst)], False))
                            else:
                                nxt.append((s3, vals + items, exact))
                    else:
                        nxt.append((s2, vals + [v], exact))
            states = nxt
        res = []
        for s, vals, exact in states:
            if isinstance(vals, X):
                res.append((s, vals))
            elif kind == 'tuple':
                res.append((s, v_tuple(vals) if exact else V(
                    [('tt', join_v(*vals), 0)])))
            elif exact:
                res.append((s, self.new(s, node_site(node), Obj(
                    'list', items=tuple(vals)))))
            else:
                res.append((s, self.new(s, node_site(node), Obj(
                    'list', elem=join_v(*vals), lo=0))))
        return res

    def e_Set(self, st, fid, node):
        res = []
        for s, vals in self.ev_list(st, fid, [
                e for e in node.elts if not isinstance(e, ast.Starred)]):
            if isinstance(vals, X):
                res.append((s, vals))
            else:
                o = Obj('set')
                e = None
                for v in vals:
                    e = e or self.bad_key_exc(s, v, node)
                    o = self.set_add(o, v)
                res.append(e or (s, self.new(s, node_site(node), o)))
        return res

    def set_add(self, o, v):
        a = v.one
        if a is not None and (const_of(a)[0] or (
                a[0] in ('y', 'o', 'cls') and a[1] is not None)):
            f = dict(o.f)
            f[a] = v
            if len(f) <= 12 or self.concrete or self.exact:
                return o.rep(f=f, lo=max(1, o.lo))
        return o.rep(elem=v if o.elem is None else join_v(o.elem, v),
                     lo=max(1, o.lo))

    def set_insert(self, st, oid, v, node):
        """Add to a set; in exact mode objects are compared. [(st, X)]"""
        a = v.one
        o = self.obj(st, oid)
        e = self.bad_key_exc(st, v, node)
        if e:
            return [e]
        if self.exact and a and a[0] == 'o' and o.elem is None:
            cls = self.obj(st, a[1]).cls
            if cls and cls in self.cls_info and self.find_attr(
                    cls, '__eq__', st=st):
                states = [st]
                done = []
                for have in list(o.f.values()):
                    nxt = []
                    for s in states:
                        for s2, r in self.equals(s, have, v, node):
                            if isinstance(r, X):
                                done.append((s2, r))
                                continue
                            for s3, b, _ in self.truth(s2, r, node):
                                if isinstance(b, X):
                                    done.append((s3, b))
                                elif b:
                                    done.append((s3, None))
                                else:
                                    nxt.append(s3)
                    states = nxt
                for s in states:
                    self.put(s, oid, self.set_add(self.obj(s, oid), v))
                    done.append((s, None))
                return done
        self.put(st, oid, self.set_add(o, v))
        return [(st, None)]

    def e_Dict(self, st, fid, node):
        res = []
        keys = node.keys
        nodes = []
        for k, v in zip(keys, node.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        for s, vals in self.ev_list(st, fid, nodes):
            if isinstance(vals, X):
                res.append((s, vals))
                continue
            o = Obj('dict')
            i = 0
            e = None
            for k in keys:
                if k is None:
                    src = vals[i]
                    i += 1
                    a = src.one
                    so = self.obj(s, a[1]) if a and a[0] == 'o' else None
                    if so is not None and so.kind == 'dict':
                        f = dict(o.f)
                        f.update(so.f)
                        o = o.rep(f=f, elem=so.elem or o.elem,
                                  last=so.last or o.last)
                    else:
                        o = o.rep(elem=v_unk('**'), last=v_unk('**'))
                else:
                    e = e or self.bad_key_exc(s, vals[i], node)
                    o = self.dict_put(o, vals[i], vals[i + 1])
                    i += 2
            res.append(e or (s, self.new(s, node_site(node), o)))
        return res

    def dict_put(self, o, key, v):
        a = key.one
        if a is not None and a[0] == 'b':
            a = ('i', int(a[1]), int(a[1]), None)
        if a is not None and (const_of(a)[0] or a[0] in ('cls', 'o', 'xcls')
                              or (a[0] == 'y' and a[1] is not None)):
            if o.summ:
                v = join_v(v, o.f.get(a, V_MISSING))
            if len(o.f) <= 400:
                f = dict(o.f)
                f[a] = v
                return o.rep(f=f)
        return o.rep(
            elem=v if o.elem is None else join_v(o.elem, v),
            last=key if o.last is None else join_v(o.last, key))

    def e_BoolOp(self, st, fid, node):
        is_and = isinstance(node.op, ast.And)
        states = [st]
        res = []
        for i, n in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in states:
                for s2, v in self.ev(s, fid, n):
                    if isinstance(v, X) or last:
                        res.append((s2, v))
                        continue
                    tr = self.truth(s2, v, n)
                    for s3, b, nv in tr:
                        if isinstance(b, X):
                            res.append((s3, b))
                            continue
                        if len(tr) > 1:
                            s3.decide((n, b))
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            res.append((s3, nv))
            states = nxt
            if len(states) > self.CAP:
                states = [o[1] for o in self.merge_cap(
                    [('n', s, None) for s in states])]
        return res

    def e_UnaryOp(self, st, fid, node):
        res = []
        for s, v in self.ev(st, fid, node.operand):
            if isinstance(v, X):
                res.append((s, v))
            elif isinstance(node.op, ast.Not):
                for s2, b, _ in self.truth(s, v, node.operand):
                    res.append((s2, b if isinstance(b, X) else (
                        V_FALSE if b else V_TRUE)))
            elif isinstance(node.op, ast.USub):
                out = set()
                bad = []
                for a in v.a:
                    if a[0] == 'i':
                        out.add(('i', None if a[2] is None else -a[2],
                                 None if a[1] is None else -a[1], None))
                    elif a[0] in ('s', 'y', 'none', 'o', 't'):
                        bad.append(a)
                    else:
                        out.add(('unk', 'neg'))
                if out:
                    res.append((s.copy() if bad else s, V(out)))
                if bad:
                    res.append((s, X('x', Exc('TypeError', True, node,
                                              'unary minus'))))
            else:
                res.append((s, v_anyint()))
        return res

    def e_IfExp(self, st, fid, node):
        res = []
        for s, v in self.ev(st, fid, node.test):
            if isinstance(v, X):
                res.append((s, v))
                continue
            tr = self.truth(s, v, node.test)
            for s2, b, _ in tr:
                if isinstance(b, X):
                    res.append((s2, b))
                    continue
                if len(tr) > 1:
                    s2.decide((node, b))
                res.extend(self.ev(s2, fid, node.body if b
                                   else node.orelse))
        return res

    def e_NamedExpr(self, st, fid, node):
        res = []
        for s, v in self.ev(st, fid, node.value):
            if not isinstance(v, X):
                self.store_name(s, fid, node.target.id, v)
            res.append((s, v))
        return res

    def e_Lambda(self, st, fid, node):
        return self.make_function(st, fid, node)

    def e_JoinedStr(self, st, fid, node):
        nodes = []
        const = ''
        for p in node.values:
            if isinstance(p, ast.FormattedValue):
                nodes.append(p.value)
            elif isinstance(p, ast.Constant):
                const += str(p.value)
        res = []
        for s, vals in self.ev_list(st, fid, nodes):
            if isinstance(vals, X):
                res.append((s, vals))
                continue
            if not nodes:
                res.append((s, v_str(const)))
                continue
            # all constants?
            consts = []
            for p, v in zip([p for p in node.values if isinstance(
                    p, ast.FormattedValue)], vals):
                ok, c = const_of(v.one) if v.one else (False, None)
                if ok and p.conversion == -1 and p.format_spec is None:
                    consts.append(str(c))
            if len(consts) == len(vals):
                out, it = '', iter(consts)
                for p in node.values:
                    out += next(it) if isinstance(
                        p, ast.FormattedValue) else str(p.value)
                res.append((s, v_str(out)))
                continue
            ne = 1 if const or any(self.surely_ne(s, v) for v in vals) \
                else None
            res.append((s, self.fmt_result(s, [const], vals, ne)))
        return res

    def fmt_result(self, st, consts, vals, ne):
        """String made of the values; depends on the terms."""
        terms = []
        for v in vals:
            a = v.one
            if a and a[0] in ('y', 'yb') and a[1] is not None:
                terms.append(a[1])
            elif a and a[0] == 's':
                terms.append(a[1])
            elif a and a[0] == 'i' and a[1] == a[2] and a[1] is not None:
                terms.append(a[1])
            else:
                return v_y(None, ne)
        return v_y(mkterm('fmt', ''.join(consts), *terms), ne)

    def surely_ne(self, st, v):
        return all(a[0] in ('i', 'b', 'none') or (
            a[0] in ('s', 'y') and self.atom_truth(st, a) is True)
            for a in v.a)

    def e_Starred(self, st, fid, node):
        return self.ev(st, fid, node.value)

    def e_Yield(self, st, fid, node):
        outs = []
        if node.value is None:
            vals = [(st, V_NONE)]
        else:
            vals = self.ev(st, fid, node.value)
        for s, v in vals:
            if isinstance(v, X):
                outs.append((s, v))
                continue
            outs.extend(self.do_yield(s, fid, v, node))
        return outs

    def do_yield(self, st, fid, v, node):
        handler = self.handlers.get(fid)
        if handler is None:
            st.event('yield', v)
            return [(st, V_NONE)]
        # pin the values of the generator: they are in its frame
        res = []
        for kind, s2, v2 in handler(st, v):
            if kind == 'n':
                res.append((s2, v2 if isinstance(v2, V) else V_NONE))
            else:
                res.append((s2, X(kind, v2)))
        return res

    def e_YieldFrom(self, st, fid, node):
        res = []
        for s, v in self.ev(st, fid, node.value):
            if isinstance(v, X):
                res.append((s, v))
                continue

            def body(s2, val, idx):
                return [('n', s3, None) if not isinstance(r, X) else
                        (r.kind, s3, r.v)
                        for s3, r in self.do_yield(s2, fid, val, node)]
            for kind, s2, v2 in self.for_each(s, v, body, node):
                if kind in 'nb':
                    res.append((s2, V_NONE))
                else:
                    res.append((s2, X(kind, v2)))
        return res

    # comprehensions
    def e_ListComp(self, st, fid, node):
        return self.comp(st, fid, node, 'list')

    def e_SetComp(self, st, fid, node):
        return self.comp(st, fid, node, 'set')

    def e_GeneratorExp(self, st, fid, node):
        # The first iterable is evaluated right away.
        res = []
        for s, v in self.ev(st, fid, node.generators[0].iter):
            if isinstance(v, X):
                res.append((s, v))
                continue
            o = Obj('gen', tags=frozenset(['genexp']), f={
                '@node': node, '@fid': fid, '@src': v})
            res.append((s, self.new(s, node_site(node), o)))
        return res

    def comp(self, st, fid, node, kind):
        acc = self.new(st, node_site(node), Obj(kind, items=(
            () if kind == 'list' else None)))
        tmp = '@acc{}'.format(node_site(node))
        st.setv(fid, tmp, acc)

        def handler(s, v):
            a = s.getv(fid, tmp).one
            o = self.obj(s, a[1])
            if kind == 'list':
                self.put(s, a[1], self.list_append(o, v))
            else:
                return [('n', s2, None) if x is None else (
                    x.kind, s2, x.v) for s2, x in self.set_insert(
                        s, a[1], v, node)]
            return [('n', s, None)]
        outs = self.run_comp(st, fid, node, node.generators, 0, handler,
                             None)
        res = []
        for k, s, v in self.merge_cap(outs):
            if k in 'rn':
                v = s.getv(fid, tmp)
                s.delv(fid, tmp)
                a = v.one
                o = self.obj(s, a[1])
                if kind == 'list' and o.items is None and any(
                        g.ifs for g in node.generators):
                    o = o.rep(tags=o.tags | {'filtered'})
                    self.put(s, a[1], o)
                if kind == 'list':
                    self.comp_src(s, fid, node, a[1])
                res.append((s, v))
            else:
                res.append((s, X(k, v)))
        return res

    def comp_src(self, st, fid, node, oid):
        """Remember of which object the list was made."""
        it = node.generators[0].iter
        if isinstance(it, (ast.Name, ast.Attribute)):
            r = self.ev(st.copy(), fid, it)
            if len(r) == 1 and isinstance(r[0][1], V) and r[0][1].one and (
                    r[0][1].one[0] == 'o'):
                o = self.obj(st, oid)
                self.put(st, oid, o.rep(tags=o.tags | {
                    ('src', r[0][1].one[1])}))

    def e_DictComp(self, st, fid, node):
        acc = self.new(st, node_site(node), Obj('dict'))
        tmp = '@acc{}'.format(node_site(node))
        st.setv(fid, tmp, acc)
        pair = ast.copy_location(ast.Tuple(
            [node.key, node.value], ast.Load()), node)
        pair._mod = node._mod
        fake = ast.copy_location(ast.GeneratorExp(
            pair, node.generators), node)
        fake._mod = node._mod

        def handler(s, v):
            a = s.getv(fid, tmp).one
            o = self.obj(s, a[1])
            k, val = v.one[1]
            e = self.bad_key_exc(s, k, node)
            if e:
                return [(e[1].kind, s, e[1].v)]
            self.put(s, a[1], self.dict_put(o, k, val))
            return [('n', s, None)]
        outs = self.run_comp(st, fid, fake, node.generators, 0, handler,
                             None)
        res = []
        for k, s, v in self.merge_cap(outs):
            if k in 'rn':
                v = s.getv(fid, tmp)
                s.delv(fid, tmp)
                res.append((s, v))
            else:
                res.append((s, X(k, v)))
        return res

    def list_append(self, o, v):
        if o.summ:
            return o.rep(items=None, elem=v if o.all_elem() is None
                         else join_v(o.all_elem(), v),
                         lo=(len(o.items) if o.items is not None else o.lo),
                         last=None)
        if o.items is not None and len(o.items) < 400:
            return o.rep(items=o.items + (v,))
        e = o.all_elem()
        return o.rep(items=None, elem=v if e is None else join_v(e, v),
                     lo=(len(o.items) if o.items is not None else o.lo) + 1
                     if (o.lo < 8) else o.lo, last=v)

    def collect(self, st, v, node, kind='list', site=None):
        """list(v): [(st, V list)]"""
        site = site or ('col@' + node_site(node))
        acc = self.new(st, site, Obj(kind, items=(
            () if kind == 'list' else None)))
        # keep it in a pseudo frame
        pf = ('P', site, len(st.fr))
        st.fr[pf] = {'acc': acc}
        self.fnof[pf] = None

        def body(s, val, idx):
            a = s.getv(pf, 'acc').one
            o = self.obj(s, a[1])
            if kind == 'list':
                self.put(s, a[1], self.list_append(o, val))
            else:
                return [('n', s2, None) if x is None else (
                    x.kind, s2, x.v) for s2, x in self.set_insert(
                        s, a[1], val, node)]
            return [('n', s, None)]
        res = []
        for k, s, v2 in self.for_each(st, v, body, node):
            val = s.getv(pf, 'acc')
            s.fr.pop(pf, None)
            if k == 'n':
                res.append((s, val))
            else:
                res.append((s, X(k, v2)))
        return res

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------
    def e_Call(self, st, fid, node):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and (
                not node.args):
            env = st.fr[fid]
            f = fid
            while '@self' not in env and env.get('@closure') is not None:
                f = env['@closure']
                env = st.fr[f]
            info = self.fnof[f]
            if isinstance(info, FuncInfo) and info.cls and '@self' in env:
                a = env['@self'].one
                if a:
                    return [(st, V([('super', info.cls, a)]))]
            return [(st, v_unk('super'))]
        res = []
        for s, f in self.ev(st, fid, node.func):
            if isinstance(f, X):
                res.append((s, f))
                continue
            for s2, args, kwargs in self.ev_args(s, fid, node):
                if isinstance(args, X):
                    res.append((s2, args))
                    continue
                res.extend(self.call(s2, f, args, kwargs, node, fid))
        return res

    def ev_args(self, st, fid, node):
        states = [(st, [], {})]
        for an in node.args:
            nxt = []
            for s, args, kw in states:
                if isinstance(args, X):
                    nxt.append((s, args, kw))
                    continue
                if isinstance(an, ast.Starred):
                    for s2, v in self.ev(s, fid, an.value):
                        if isinstance(v, X):
                            nxt.append((s2, v, kw))
                            continue
                        items = self.exact_items(s2, v)
                        if items is None:
                            nxt.append((s2, args + [('*', v)], kw))
                        else:
                            nxt.append((s2, args + items, kw))
                else:
                    for s2, v in self.ev(s, fid, an):
                        nxt.append((s2, v if isinstance(v, X)
                                    else args + [v], kw))
            states = nxt
        for k in node.keywords:
            nxt = []
            for s, args, kw in states:
                if isinstance(args, X):
                    nxt.append((s, args, kw))
                    continue
                for s2, v in self.ev(s, fid, k.value):
                    if isinstance(v, X):
                        nxt.append((s2, v, kw))
                        continue
                    kw2 = dict(kw)
                    if k.arg is None:
                        a = v.one
                        o = self.obj(s2, a[1]) if a and a[0] == 'o' else None
                        if o is not None and o.kind == 'dict':
                            for kk, vv in o.f.items():
                                if kk[0] == 's':
                                    kw2[kk[1]] = vv
                            if o.elem is not None:
                                kw2['**'] = o.elem
                        else:
                            kw2['**'] = v_unk('**')
                    else:
                        kw2[k.arg] = v
                    nxt.append((s2, args, kw2))
            states = nxt
        return states

    def call(self, st, f, args, kwargs, node, fid=None):
        res = []
        many = len(f.a) > 1
        for s, a, nv in self.split(st, f, lambda x: x):
            if many:
                s = s.copy() if s is st else s
            res.extend(self.call_atom(s, a, args, kwargs, node, fid))
        if many:
            res = self.merge_ev(res)
        return res

    def call_atom(self, st, a, args, kwargs, node, fid=None):
        t = a[0]
        if t == 'fn':
            return self.call_fn(st, a, args, kwargs, node)
        if t == 'bm':
            return self.call_fn(st, a[1], [V([a[2]])] + list(args), kwargs,
                                node)
        if t == 'cls':
            return self.call_class(st, a[1], args, kwargs, node)
        if t == 'sm' or t == 'cm':
            return self.call(st, a[1], args, kwargs, node)
        if t == 'o':
            o = self.obj(st, a[1])
            if o is not None and o.cls and o.cls in self.cls_info and (
                    self.find_attr(o.cls, '__call__', st=st)):
                return self.call_method(st, a, '__call__', args, kwargs,
                                        node)
            if o is not None and (o.kind in ('list', 'dict', 'set') or (
                    o.cls and not self.ext_bases(o.cls))):
                return [(st, X('x', Exc('TypeError', True, node,
                                        'not callable')))]
            return self.unknown_call(st, a, args, kwargs, node)
        if t in ('none', 's', 'y', 'i', 'b', 't'):
            return [(st, X('x', Exc('TypeError', True, node,
                                    '{} is not callable'.format(t))))]
        if t == 'x' and a[1] == 'cmfn':
            out = []
            for s, v in self.call(st, a[2], args, kwargs, node):
                out.append((s, v if isinstance(v, X) else V([(
                    'x', 'cm', v)])))
            return out
        if t == 'missing':
            return []
        return self.ext_call(st, a, args, kwargs, node, fid)

    def unknown_call(self, st, a, args, kwargs, node):
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, tuple):
                v = v[1]
            self.escape(st, v)
        h = self.hooks.get('unknown')
        if h:
            h(st, a, args, kwargs, node)
        st.event('unk', loc(node))
        return [(st, v_unk('call'))]

    def escape(self, st, v):
        """v goes to unknown code."""
        h = self.hooks.get('escape')
        if h:
            h(st, v)

    def call_method(self, st, selfatom, name, args, kwargs, node):
        o = self.obj(st, selfatom[1])
        fa = self.find_attr(o.cls, name, st=st)
        if not fa:
            return [(st, X('x', Exc('AttributeError', True, node, name)))]
        res = []
        for s, v in self.wrap_attr(st, fa[1], selfatom, ('cls', o.cls),
                                   node):
            if isinstance(v, X):
                res.append((s, v))
            else:
                res.extend(self.call(s, v, args, kwargs, node))
        return res

    def call_fn(self, st, fa, args, kwargs, node):
        qual, closure = fa[1], fa[2]
        info = self.funcs[qual]
        h = self.overrides.get(qual)
        if h is None and self.overrides:
            h = self.overrides.get('*.' + info.name)
        if h is not None:
            r = h(self, st, args, kwargs, node)
            if r is not NotImplemented:
                return r
        env, err = self.bind(st, info, args, kwargs, node)
        if err is not None:
            return [(st, X('x', err))]
        if not self.concrete and not self.exact:
            env = self.name_strings(st, info, env)
        if info.is_gen:
            env['@fn'] = (qual, closure)
            o = Obj('gen', f=env, tags=frozenset(['gen']))
            return [(st, self.new(st, ('gen', qual, node_site(node)), o))]
        outs = self.run_function(st, qual, closure, env, node, None)
        res = []
        for kind, s, v in outs:
            if kind == 'r':
                res.append((s, v))
            else:
                res.append((s, X(kind, v)))
        return res

    def name_strings(self, st, info, env):
        """Anonymous string arguments get a symbol, so what is learned of
        them in the function is remembered."""
        new = None
        for k, v in env.items():
            if isinstance(v, V) and len(v.a) <= 6:
                ys = [x for x in v.a if x[0] in ('y', 'yb')]
                if len(ys) == 1 and ys[0][1] is None:
                    if new is None:
                        new = dict(env)
                        # (the symbols to be reused may occur in env)
                        pf = ('P', 'args', len(st.fr))
                        st.fr[pf] = new
                    site = 'arg@{}@{}@{}'.format(
                        info.qual, k, self.stack.count(info.qual))
                    t = ('sym', site)
                    if t in st.syms:
                        self.kill_syms(st, {t})
                        new = dict(st.fr[pf])
                    st.syms = st.syms | {t}
                    new[k] = V([x for x in v.a if x is not ys[0]] + [
                        (ys[0][0], t, ys[0][2])])
                    st.fr[pf] = new
        if new is not None:
            del st.fr[pf]
            return new
        return env

    def bind(self, st, info, args, kwargs, node):
        env = {}
        pos = list(info.pos)
        args = list(args)
        unk = None
        flat = []
        for v in args:
            if isinstance(v, tuple):
                unk = v[1]
            else:
                flat.append(v)
        rest = flat[len(pos):]
        for n, v in zip(pos, flat):
            env[n] = v
        if rest and not info.vararg and unk is None:
            return env, Exc('TypeError', True, node,
                            'too many arguments for {}'.format(info.qual))
        if info.vararg:
            env[info.vararg] = v_tuple(rest) if unk is None else V([(
                'tt', v_unk('*'), 0)])
        extra = {}
        starkw = kwargs.get('**')
        for k, v in kwargs.items():
            if k == '**':
                continue
            if k in info.pos or k in info.kwonly:
                if k in env:
                    return env, Exc('TypeError', True, node,
                                    'multiple values for {!r} of {}'.format(
                                        k, info.qual))
                env[k] = v
            elif info.kwarg:
                extra[k] = v
            else:
                return env, Exc('TypeError', True, node,
                                'unexpected argument {!r} for {}'.format(
                                    k, info.qual))
        if info.kwarg:
            o = Obj('dict', f={('s', k): v for k, v in extra.items()},
                    elem=starkw, last=v_y() if starkw is not None else None)
            env[info.kwarg] = self.new(st, ('kw', info.qual), o)
        for n in info.pos + info.kwonly:
            if n not in env:
                if n in info.defaults:
                    env[n] = info.defaults[n]
                elif unk is not None or starkw is not None:
                    env[n] = v_unk('arg')
                else:
                    return env, Exc('TypeError', True, node,
                                    'missing argument {!r} of {}'.format(
                                        n, info.qual))
        return env, None

    def run_function(self, st, qual, closure, env, node, handler):
        info = self.funcs[qual]
        self.reached.add(qual)
        limit = self.reclimit.get(qual, 1)
        if self.exact:
            if len(self.stack) > 150:
                most = max(set(self.stack), key=self.stack.count)
                if self.stack.count(most) > self.SAME:
                    self.seems_endless(
                        st, '{} calls itself more than {} times'.format(
                            most, self.SAME), node)
                raise Limit('too deep')
        elif self.stack.count(qual) > limit or len(
                self.stack) > self.DEPTH:
            return self.recursive_result(st, qual, env, node)
        self.fidcount += 1
        fid = self.fidcount
        fr = dict(env)
        if closure is not None:
            fr['@closure'] = closure
        if info.pos and info.cls:
            fr['@self'] = env[info.pos[0]]
        st.fr[fid] = fr
        self.fnof[fid] = info
        if handler is not None:
            self.handlers[fid] = handler
        self.stack.append(qual)
        oldoids = frozenset(st.heap) if handler is None else None
        try:
            if isinstance(info.node, ast.Lambda):
                outs = [self.asout(s, v, 'r', v)
                        for s, v in self.ev(st, fid, info.node.body)]
            else:
                outs = self.block(st, fid, info.node.body)
        finally:
            self.stack.pop()
            self.handlers.pop(fid, None)
        res = []
        for kind, s, v in outs:
            if not self.keep_frames:
                s.fr.pop(fid, None)
            if oldoids is not None and not self.concrete and (
                    len(s.heap) > len(oldoids) + 3):
                self.gc(s, oldoids, v)
            if kind == 'n':
                res.append(('r', s, V_NONE))
            elif kind in 'bc':
                continue
            else:
                res.append((kind, s, v))
        if len(res) > 1:
            res = self.merge_cap(res, self.RETCAP)
        h = self.hooks.get('return')
        if h:
            h(qual, env, res)
        return res

    RETCAP = 24
    reclimit = {}
    keep_frames = False

    def recursive_result(self, st, qual, env, node):
        h = self.hooks.get('recursion')
        if h:
            r = h(st, qual, env, node)
            if r is not None:
                return r
        st.event('rec', qual)
        return [('r', st, v_unk('recursion'))]

    def call_class(self, st, qual, args, kwargs, node, meta_done=False):
        h = self.overrides.get(qual)
        if h is not None:
            r = h(self, st, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if not meta_done:
            meta = self.metaclass(qual)
            if meta:
                fa = self.find_attr(meta, '__call__', st=st)
                if fa:
                    return self.call(
                        st, V([('bm', fa[1].one, ('cls', qual))]), args,
                        kwargs, node)
        h = self.hooks.get('construct')
        if h:
            r = h(self, st, qual, args, kwargs, node)
            if r is not None:
                return r
        ext = self.ext_bases(qual)
        kind, items = 'inst', None
        tags = frozenset()
        if 'list' in ext:
            kind, items = 'list', ()
        elif 'dict' in ext or 'collections.defaultdict' in ext:
            kind = 'dict'
        elif 'set' in ext:
            kind = 'set'
        elif 'type' in ext:
            return [(st, v_unk('metaclass'))]
        elif ext and not all(e in BUILTIN_CLASSES for e in ext):
            tags = frozenset(['open'])
        site = (node_site(node) if self.site_calls else '', qual)
        v = self.new(st, site, Obj(kind, qual, {}, items, tags=tags))
        fa = self.find_attr(qual, '__new__', st=st)
        del fa
        fa = self.find_attr(qual, '__init__', st=st)
        if fa:
            res = []
            # Keep the object alive and follow renames through a frame.
            pf = ('P', 'new', len(st.fr))
            st.fr[pf] = {'o': v}
            for s, r in self.call(st, V([('bm', fa[1].one, v.one)]), args,
                                  kwargs, node):
                nv = s.fr.pop(pf)['o'] if pf in s.fr else v
                if isinstance(r, X):
                    res.append((s, r))
                else:
                    res.append((s, nv))
            return res
        if (args or kwargs) and not ext:
            return [(st, X('x', Exc('TypeError', True, node,
                                    '{} takes no arguments'.format(qual))))]
        return [(st, v)]

    site_calls = False

    # to be provided by Builtins
    def ext_call(self, st, a, args, kwargs, node, fid=None):
        raise NotImplementedError

    def run(self, st, fnatom, args, kwargs=None, node=None):
        """Entry point for rules: outcomes [(kind, st, v)]."""
        self.cur_st = st
        res = []
        for s, v in self.call_atom(st, fnatom, args, kwargs or {}, node):
            if isinstance(v, X):
                res.append((v.kind, s, v.v))
            else:
                res.append(('r', s, v))
        return res


def mentions_oid(t, oids):
    if isinstance(t, tuple):
        return t in oids or any(mentions_oid(i, oids) for i in t)
    return False


def join_opt_list(vs):
    vs = [v for v in vs if v is not None]
    return join_v(*vs) if vs else None


def tskey(ts):
    return tuple(sorted(ts.items(), key=lambda x: x[0])) if ts else ()


def trkey(tr):
    """Coarse key of a trace: the emits only."""
    return tuple(evkey(e) for e in tr if e[0] in ('emit', 'loop', 'yield',
                                                  'rule'))


def evkey(e):
    if e[0] == 'emit':
        return ('emit', e[1], e[4])
    if e[0] == 'yield':
        return ('yield',)
    if e[0] == 'rule':
        return e
    return e[:2]


def ev_oids(ev, out):
    for p in ev:
        if isinstance(p, V):
            for a in p.a:
                atom_oids(a, out)
        elif isinstance(p, tuple):
            for q in p:
                if isinstance(q, V):
                    for a in q.a:
                        atom_oids(a, out)
                elif isinstance(q, tuple):
                    for r in q:
                        if isinstance(r, V):
                            for a in r.a:
                                atom_oids(a, out)
