"""
Abstract values, heap objects and states.

A value (V) is a set of atoms. Atoms are tuples:

('none',) ('b', bool) ('i', lo, hi, term) ('f',) ('s', const)
('y', term, ne)     symbolic str; ne: 1 nonempty, 0 may be empty (evidence),
                    None not known; term None: anonymous
('by', const) ('yb', term, ne)   the same for bytes
('o', oid)          heap object
('t', (V, ...))     exact tuple; ('tt', V, lo) tuple of unknown length
('cls', qual) ('xcls', name)     class of the repository / external class
('fn', fid) ('bm', fnatom, selfatom) ('bx', selfatom, name)
('prop', V) ('sm', V) ('cm', V)
('mod', name) ('xm', dotted)     module / external thing
('x', kind, ...)    external instance (compiled regex, match, ...)
('unk', label) ('missing',)
"""

MAXY = 4
MAXC = 8
MAXI = 6
MAXT = 3


class V:
    __slots__ = ('a', '_h')

    def __init__(self, atoms):
        self.a = frozenset(atoms)
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.a)
        return self._h

    def __eq__(self, other):
        return self is other or (isinstance(other, V) and self.a == other.a)

    def __iter__(self):
        return iter(self.a)

    def __len__(self):
        return len(self.a)

    def __repr__(self):
        return '{' + ' | '.join(sorted(fmt_atom(i) for i in self.a)) + '}'

    @property
    def one(self):
        """The atom if there is only one."""
        if len(self.a) == 1:
            for i in self.a:
                return i
        return None

    def has(self, tag):
        return any(i[0] == tag for i in self.a)


def fmt_atom(a):
    t = a[0]
    if t == 'none':
        return 'None'
    if t == 'b':
        return str(a[1])
    if t == 'i':
        if a[1] is not None and a[1] == a[2]:
            return str(a[1])
        return 'int[{}..{}]{}'.format(
            '' if a[1] is None else a[1], '' if a[2] is None else a[2],
            '' if a[3] is None else ':' + fmt_term(a[3]))
    if t in ('s', 'by'):
        return repr(a[1])
    if t in ('y', 'yb'):
        return '{}{}{}'.format(
            'str' if t == 'y' else 'bytes',
            {1: '+', 0: '?', None: ''}[a[2]],
            '' if a[1] is None else ':' + fmt_term(a[1]))
    if t == 'o':
        return '<{}>'.format(fmt_oid(a[1]))
    if t == 't':
        return '({})'.format(', '.join(repr(i) for i in a[1]))
    if t == 'tt':
        return '(*{!r})'.format(a[1])
    if t in ('cls', 'xcls'):
        return 'class ' + str(a[1]).rsplit('.', 1)[-1]
    if t == 'bm':
        return 'bound {}.{}'.format(fmt_atom(a[2]), a[1][1])
    return ':'.join(str(i) for i in a)


def fmt_oid(oid):
    if isinstance(oid, tuple):
        return '.'.join(fmt_oid(i) for i in oid)
    return str(oid)


def fmt_term(t):
    if isinstance(t, tuple):
        if t[0] == 'sym':
            return str(t[1])
        return '{}({})'.format(t[0], ', '.join(fmt_term(i) for i in t[1:]))
    return repr(t)


def term_depth(t):
    if isinstance(t, tuple):
        return 1 + max([term_depth(i) for i in t] or [0])
    return 0


def mkterm(*parts):
    for p in parts:
        if p is None:
            return None
    t = tuple(parts)
    return t if term_depth(t) <= 5 else None


def term_mentions(t, syms):
    if isinstance(t, tuple):
        if t and t[0] == 'sym':
            return t in syms
        return any(term_mentions(i, syms) for i in t)
    return False


NONE = ('none',)
TRUE = ('b', True)
FALSE = ('b', False)
MISSING = ('missing',)
V_NONE = V([NONE])
V_TRUE = V([TRUE])
V_FALSE = V([FALSE])


def v_bool():
    return V([TRUE, FALSE])


def v_int(n):
    return V([('i', n, n, None)])


def v_anyint(lo=None, hi=None, term=None):
    return V([('i', lo, hi, term)])


def v_str(s):
    return V([('s', s)])


def v_y(term=None, ne=None):
    return V([('y', term, ne)])


def v_unk(label=''):
    return V([('unk', label)])


def v_tuple(items):
    return V([('t', tuple(items))])


def pyconst(value):
    """V of a Python constant; None if not representable."""
    if value is None:
        return V_NONE
    if value is True or value is False:
        return V_TRUE if value else V_FALSE
    if isinstance(value, int):
        return v_int(value)
    if isinstance(value, str):
        return v_str(value)
    if isinstance(value, bytes):
        return V([('by', value)])
    if isinstance(value, float):
        return V([('f',)])
    if isinstance(value, tuple):
        return v_tuple([pyconst(i) for i in value])
    return v_unk('const')


def const_of(atom):
    """(True, python value) for constant atoms."""
    t = atom[0]
    if t in ('s', 'b', 'by'):
        return True, atom[1]
    if t == 'none':
        return True, None
    if t == 'i' and atom[1] is not None and atom[1] == atom[2]:
        return True, atom[1]
    if t == 't':
        ret = []
        for i in atom[1]:
            if i.one is None:
                return False, None
            ok, c = const_of(i.one)
            if not ok:
                return False, None
            ret.append(c)
        return True, tuple(ret)
    return False, None


def join_ne(nes):
    nes = list(nes)
    if 0 in nes:
        return 0
    if None in nes:
        return None
    return 1


def norm(atoms):
    """Limit the number of atoms of a kind."""
    atoms = set(atoms)
    for y, s in (('y', 's'), ('yb', 'by')):
        ys = [i for i in atoms if i[0] == y]
        if ys:
            # several with one term: join
            byterm = {}
            for i in ys:
                byterm.setdefault(i[1], []).append(i)
            if len(byterm) != len(ys) or len(byterm) > MAXY:
                atoms -= set(ys)
                if len(byterm) > MAXY:
                    atoms.add((y, None, join_ne(i[2] for i in ys)))
                else:
                    for term, lst in byterm.items():
                        atoms.add((y, term, join_ne(i[2] for i in lst)))
        cs = [i for i in atoms if i[0] == s]
        if len(cs) > MAXC:
            atoms -= set(cs)
            ys = [i for i in atoms if i[0] == y and i[1] is None]
            atoms -= set(ys)
            atoms.add((y, None, join_ne(
                [i[2] for i in ys] + [1 if i[1] else 0 for i in cs])))
    ints = [i for i in atoms if i[0] == 'i']
    if len(ints) > MAXI or sum(
            1 for i in ints if i[1] != i[2] or i[1] is None) > 1:
        atoms -= set(ints)
        lo = None if any(i[1] is None for i in ints) else min(
            i[1] for i in ints)
        hi = None if any(i[2] is None for i in ints) else max(
            i[2] for i in ints)
        terms = set(i[3] for i in ints)
        atoms.add(('i', lo, hi, terms.pop() if len(terms) == 1 else None))
    ts = [i for i in atoms if i[0] == 't']
    if len(ts) > MAXT:
        bylen = {}
        for i in ts:
            bylen.setdefault(len(i[1]), []).append(i)
        atoms -= set(ts)
        for n, lst in bylen.items():
            if len(lst) > 1:
                atoms.add(('t', tuple(
                    join_v(*[j[1][k] for j in lst]) for k in range(n))))
            else:
                atoms.add(lst[0])
    return atoms


def join_v(*vs):
    first = vs[0]
    if all(i is first or i == first for i in vs):
        return first
    atoms = set()
    for i in vs:
        atoms |= i.a
    return V(norm(atoms))


def widen_v(old, new):
    """Join that forces convergence: growing ints go to infinity."""
    j = join_v(old, new)
    if j == old:
        return old
    oi = [i for i in old.a if i[0] == 'i']
    ni = [i for i in j.a if i[0] == 'i']
    if oi and set(oi) != set(ni):
        olo = None if any(i[1] is None for i in oi) else min(
            i[1] for i in oi)
        ohi = None if any(i[2] is None for i in oi) else max(
            i[2] for i in oi)
        nlo = None if any(i[1] is None for i in ni) else min(
            i[1] for i in ni)
        nhi = None if any(i[2] is None for i in ni) else max(
            i[2] for i in ni)
        if nlo is not None and olo is not None and nlo < olo:
            nlo = 0 if nlo >= 0 else None
        if nhi is not None and ohi is not None and nhi > ohi:
            nhi = None
        j = V((j.a - set(ni)) | {('i', nlo, nhi, None)})
    return j


class Obj:
    """
    Immutable heap object.

    kind: inst, list, dict, set, gen, iter, mod, cls, frame
    f: fields (dict, never changed in place)
    items: tuple of V (exact list) or None
    elem/lo: element value and minimal length if not exact
    last: value of last element or None
    """
    __slots__ = ('kind', 'cls', 'f', 'items', 'elem', 'lo', 'last', 'summ',
                 'tags')

    def __init__(self, kind, cls=None, f=None, items=None, elem=None, lo=0,
                 last=None, summ=False, tags=frozenset()):
        self.kind, self.cls = kind, cls
        self.f = f if f is not None else {}
        self.items, self.elem, self.lo, self.last = items, elem, lo, last
        self.summ = summ
        self.tags = tags

    def rep(self, **kw):
        o = Obj(self.kind, self.cls, self.f, self.items, self.elem, self.lo,
                self.last, self.summ, self.tags)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def setf(self, name, v):
        f = dict(self.f)
        f[name] = v
        return self.rep(f=f)

    def same(self, o):
        return self is o or (
            self.kind == o.kind and self.cls == o.cls and self.f == o.f and
            self.items == o.items and self.elem == o.elem and
            self.lo == o.lo and self.last == o.last and
            self.summ == o.summ and self.tags == o.tags)

    def all_elem(self):
        if self.items is not None:
            if not self.items:
                return None
            return join_v(*self.items)
        return self.elem

    def __repr__(self):
        return '<{} {} {} items={} elem={} lo={}{}>'.format(
            self.kind, self.cls, self.f, self.items, self.elem, self.lo,
            ' SUMM' if self.summ else '')


def join_opt(a, b, j=join_v):
    if a is None:
        return b
    if b is None:
        return a
    return j(a, b)


V_MISSING = V([MISSING])


def join_obj(a, b, j=join_v):
    if a is b or a.same(b):
        return a
    f = {}
    if a.f is b.f:
        f = a.f
    else:
        for k in list(a.f) + [k for k in b.f if k not in a.f]:
            x, y = a.f.get(k, V_MISSING), b.f.get(k, V_MISSING)
            if not isinstance(x, V) or not isinstance(y, V):
                f[k] = y if isinstance(x, V) else x     # (of generators)
            else:
                f[k] = j(x, y)
    items = elem = last = None
    lo = 0
    if a.items is not None and b.items is not None and (
            len(a.items) == len(b.items)):
        items = tuple(j(x, y) for x, y in zip(a.items, b.items))
    elif a.kind in ('list', 'set') or a.items is not None or (
            b.items is not None):
        elem = join_opt(a.all_elem(), b.all_elem(), j)
        la = len(a.items) if a.items is not None else a.lo
        lb = len(b.items) if b.items is not None else b.lo
        lo = min(la, lb)
        xa = a.items[-1] if a.items else a.last
        xb = b.items[-1] if b.items else b.last
        if xa is not None and xb is not None:
            last = j(xa, xb)
        elif lo == 0:
            # one of them empty: last is that of the other if there is one
            if (a.items == () and xb is not None):
                last = xb
            elif (b.items == () and xa is not None):
                last = xa
    elif a.kind == 'dict':
        elem = join_opt(a.elem, b.elem, j)
        lo = min(a.lo, b.lo)
    return Obj(a.kind, a.cls, f, items, elem, lo, last, a.summ or b.summ,
               (a.tags & b.tags) | frozenset(
                   t for t in (a.tags | b.tags)
                   if isinstance(t, str) and t.startswith('may')))


class State:
    __slots__ = ('fr', 'heap', 'facts', 'tr', 'ts', 'syms', 'path')
    TRACE = True        # (for the class: record events on the paths)

    def __init__(self):
        self.fr = {}        # fid -> env dict
        self.heap = {}      # oid -> Obj (overlay over the base heap)
        self.facts = {}
        self.tr = ()        # events
        self.ts = {}        # typestate of a rule
        self.syms = frozenset()
        self.path = None    # linked list of decisions, for reports

    def copy(self):
        s = State.__new__(State)
        s.fr = dict(self.fr)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.tr = self.tr
        s.ts = dict(self.ts)
        s.syms = self.syms
        s.path = self.path
        return s

    def getv(self, fid, name):
        env = self.fr.get(fid)
        return env.get(name) if env else None

    def setv(self, fid, name, v):
        env = dict(self.fr[fid])
        env[name] = v
        self.fr[fid] = env

    def delv(self, fid, name):
        env = dict(self.fr[fid])
        env.pop(name, None)
        self.fr[fid] = env

    def event(self, *ev):
        if self.TRACE:
            self.tr = self.tr + (ev,)

    def decide(self, what):
        self.path = (what, self.path)

    def decisions(self, n=12):
        ret, p = [], self.path
        while p and len(ret) < n:
            ret.append(p[0])
            p = p[1]
        return list(reversed(ret))


def map_v(v, fn, memo):
    """Apply fn on the atoms of v (nested in tuples too)."""
    r = memo.get(id(v))
    if r is not None:
        return r[0]
    out = []
    changed = False
    for a in v.a:
        n = map_atom(a, fn, memo)
        if n is not a:
            changed = True
        out.append(n)
    r = V(norm(out)) if changed else v
    memo[id(v)] = (r, v)    # keep v alive
    return r


def map_atom(a, fn, memo):
    t = a[0]
    if t == 't':
        items = tuple(map_v(i, fn, memo) for i in a[1])
        if all(x is y for x, y in zip(items, a[1])):
            return a
        return ('t', items)
    if t == 'tt':
        e = map_v(a[1], fn, memo)
        return a if e is a[1] else ('tt', e, a[2])
    if t == 'bm':
        s = map_atom(a[2], fn, memo)
        return a if s is a[2] else ('bm', a[1], s)
    if t == 'bx':
        s = map_atom(a[1], fn, memo)
        return a if s is a[1] else ('bx', s, a[2])
    if t == 'super':
        s = map_atom(a[2], fn, memo)
        return a if s is a[2] else ('super', a[1], s)
    if t == 'x':
        parts = []
        ch = False
        for p in a:
            if isinstance(p, V):
                n = map_v(p, fn, memo)
                ch = ch or n is not p
                parts.append(n)
            else:
                parts.append(p)
        if ch:
            a = tuple(parts)
        return fn(a)
    return fn(a)


def map_obj(o, fn, memo):
    f = None
    for k, v in o.f.items():
        if isinstance(v, V):
            n = map_v(v, fn, memo)
            if n is not v:
                if f is None:
                    f = dict(o.f)
                f[k] = n
    kw = {}
    if f is not None:
        kw['f'] = f
    if o.items is not None:
        items = tuple(map_v(i, fn, memo) for i in o.items)
        if any(x is not y for x, y in zip(items, o.items)):
            kw['items'] = items
    for name in ('elem', 'last'):
        v = getattr(o, name)
        if v is not None:
            n = map_v(v, fn, memo)
            if n is not v:
                kw[name] = n
    return o.rep(**kw) if kw else o


def map_state(st, fn):
    memo = {}
    for fid, env in list(st.fr.items()):
        new = None
        for k, v in env.items():
            if isinstance(v, V):
                n = map_v(v, fn, memo)
                if n is not v:
                    if new is None:
                        new = dict(env)
                    new[k] = n
        if new is not None:
            st.fr[fid] = new
    for oid, o in list(st.heap.items()):
        n = map_obj(o, fn, memo)
        if n is not o:
            st.heap[oid] = n


def atom_oids(a, out):
    t = a[0]
    if t == 'o':
        out.append(a[1])
    elif t == 't':
        for i in a[1]:
            for x in i.a:
                atom_oids(x, out)
    elif t == 'tt':
        for x in a[1].a:
            atom_oids(x, out)
    elif t == 'bm':
        atom_oids(a[2], out)
    elif t == 'bx':
        atom_oids(a[1], out)
    elif t == 'super':
        atom_oids(a[2], out)
    elif t in ('x', 'prop', 'sm', 'cm'):
        for p in a[1:]:
            if isinstance(p, V):
                for x in p.a:
                    atom_oids(x, out)


def obj_oids(o):
    out = []
    for v in o.f.values():
        if isinstance(v, V):
            for x in v.a:
                atom_oids(x, out)
    if o.items:
        for v in o.items:
            for x in v.a:
                atom_oids(x, out)
    for v in (o.elem, o.last):
        if v is not None:
            for x in v.a:
                atom_oids(x, out)
    return out
