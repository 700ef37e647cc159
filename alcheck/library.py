"""
Calls of builtins, methods of builtin types and the standard library.
"""
import zlib
import ast
import os
import posixpath
import re
import string

from .builtins import BYT, STR, Builtins, arb, exc, is_const, sterm
from .interp import BUILTIN_CLASSES, Exc, X, loc, node_site
from .values import (
    FALSE, MISSING, NONE, Obj, TRUE, V, V_FALSE, V_MISSING, V_NONE, V_TRUE,
    const_of, join_obj, join_v, map_state, mkterm, pyconst, v_anyint,
    v_bool, v_int, v_str, v_tuple, v_unk, v_y)

try:
    from re import _parser as sre_parse
except ImportError:
    import sre_parse


def a0(args, kw, i, name=None, default=None):
    if len(args) > i:
        return args[i]
    if name and name in kw:
        return kw[name]
    return default


def pyval(v):
    """(True, Python value) if constant"""
    a = v.one
    if a is None:
        return False, None
    if a[0] == 't':
        vals = [pyval(i) for i in a[1]]
        if all(ok for ok, x in vals):
            return True, tuple(x for ok, x in vals)
        return False, None
    return const_of(a)


def hashed(c):
    if isinstance(c, (bool, float)) and c == int(c):
        return int(c)
    if isinstance(c, tuple):
        return tuple(hashed(i) for i in c)
    if isinstance(c, frozenset):
        return sorted(repr(hashed(i)) for i in c)
    return c


class Library(Builtins):
    def ext_call(self, st, a, args, kwargs, node, fid=None):
        if any(isinstance(x, tuple) for x in args) or '**' in kwargs:
            # Unknown number of arguments.
            args = [x if isinstance(x, V) else self.elem_of(st, x[1])
                    for x in args]
            if a[0] in ('xm', 'xcls'):
                name = a[1]
                self.extcall(st, name, args, kwargs, node)
                if name in ('builtins.print', 'print'):
                    return [(st, V_NONE)]
                if name == 'itertools.chain' or name == 'zip':
                    pass
                return [(st, v_unk('call *'))]
            if a[0] == 'bx' and a[1][0] in STR and a[2] == 'format':
                return [(st, v_y(None, None))]
            if a[0] == 'bx' and a[1][0] in ('superx', 'typesuper'):
                return [(st, v_unk('super'))]
            return self.unknown_call(st, a, args, kwargs, node)
        t = a[0]
        if t == 'bx':
            return self.method(st, a, args, kwargs, node, fid)
        if t == 'xcls':
            return self.builtin_cls(st, a[1], args, kwargs, node, fid)
        if t == 'xm':
            return self.ext_fn(st, a[1], args, kwargs, node, fid)
        if t == 'x' and a[1] == 'partial':
            kw = dict(a[4].items()) if False else {}
            return self.call(st, a[2], list(a[3]) + args, kwargs, node)
        if t == 'x':
            self.extcall(st, 'x:' + str(a[1]), args, kwargs, node)
        return self.unknown_call(st, a, args, kwargs, node)

    def extcall(self, st, name, args, kwargs, node):
        h = self.hooks.get('extcall')
        if h:
            h(st, name, args, kwargs, node)
        self.extcalls.append((name, loc(node)))

    # ------------------------------------------------------------------
    # builtin classes as functions
    # ------------------------------------------------------------------
    def builtin_cls(self, st, name, args, kw, node, fid):
        m = getattr(self, 'c_' + name.replace('.', '_'), None)
        if m is not None:
            return m(st, args, kw, node, fid)
        base = BUILTIN_CLASSES.get(name)
        if base is not None and issubclass(base, BaseException):
            return [(st, V([('x', 'exc', name, v_tuple(args))]))]
        return [(st, v_unk(name))]

    def to_str(self, st, v, node, is_repr=False):
        """str(v): [(st, V|X)]"""
        res = []
        for s, a, av in self.split(st, v, lambda x: x):
            t = a[0]
            if t in STR:
                if is_repr and a[0] == 's':
                    res.append((s, v_str(repr(a[1]))))
                elif is_repr:
                    res.append((s, v_y(mkterm('repr', sterm(a)) if sterm(
                        a) is not None else None, 1)))
                else:
                    res.append((s, av))
                continue
            ok, c = const_of(a)
            if ok:
                res.append((s, v_str(repr(c) if is_repr else str(c))))
                continue
            if t == 'o':
                o = self.obj(s, a[1])
                if o.kind == 'inst' and o.cls:
                    for m in (('__repr__',) if is_repr else (
                            '__str__', '__repr__')):
                        if self.find_attr(o.cls, m, st=s):
                            for s2, r in self.call_method(
                                    s, a, m, [], {}, node):
                                if isinstance(r, X):
                                    res.append((s2, r))
                                    continue
                                bad = [x for x in r.a if x[0] in (
                                    'none', 'i', 't', 'by', 'yb')]
                                if bad:
                                    res.append(exc(
                                        s2, 'TypeError', True, node,
                                        '{} returned non-string'.format(m)))
                                else:
                                    res.append((s2, r))
                            break
                    else:
                        res.append((s, v_y(None, 1)))
                    continue
                if o.kind == 'list' and o.items is not None and len(
                        o.items) <= 6 and o.cls is None:
                    states = [s]
                    for i in o.items:
                        nx = []
                        for s2 in states:
                            for s3, r in self.to_str(s2, i, node, True):
                                if isinstance(r, X):
                                    res.append((s3, r))
                                else:
                                    nx.append(s3)
                        states = nx
                    res.extend((s2, v_y(None, 1)) for s2 in states)
                    continue
                res.append((s, v_y(None, 1)))
                continue
            if t == 'i':
                res.append((s, v_y(mkterm('str', a[3]) if a[3] is not None
                                   else None, 1)))
                continue
            if t in BYT:
                res.append((s, v_y(None, 1)))
                continue
            if t == 'missing':
                continue
            res.append((s, v_y(None, None if t in ('unk', 'x', 'xm')
                               else 1)))
        return res

    def c_str(self, st, args, kw, node, fid):
        if not args:
            return [(st, v_str(''))]
        if len(args) >= 2 or kw:
            return self.decode(st, args[0], args[1] if len(args) > 1 else
                               kw.get('encoding'), a0(args, kw, 2, 'errors'),
                               node)
        return self.to_str(st, args[0], node)

    def c_bytes(self, st, args, kw, node, fid):
        if not args:
            return [(st, V([('by', b'')]))]
        v = args[0]
        if any(x[0] in STR for x in v.a):
            if len(args) < 2 and not kw:
                return [exc(st, 'TypeError', True, node,
                            'string argument without an encoding')]
            return self.encode(st, v, a0(args, kw, 1, 'encoding'),
                               a0(args, kw, 2, 'errors'), node)
        a = v.one
        if a and a[0] in BYT:
            return [(st, v)]
        if a and a[0] == 'i':
            return [(st, V([('yb', None, None)]))]
        if a and a[0] == 'none':
            return [exc(st, 'TypeError', True, node, 'bytes(None)')]
        # of an iterable of ints
        res = []
        for s, lst in self.collect(st, v, node):
            if isinstance(lst, X):
                res.append((s, lst))
                continue
            items = self.exact_items(s, lst)
            if items is not None:
                cs = [self.int_of(i) for i in items]
                if None not in cs:
                    if all(0 <= c < 256 for c in cs):
                        res.append((s, V([('by', bytes(cs))])))
                    else:
                        res.append(exc(s, 'ValueError', True, node))
                    continue
            res.append((s, V([('yb', None, None)])))
        return res

    def c_bytearray(self, st, args, kw, node, fid):
        return [(st, v_unk('bytearray'))]

    def c_int(self, st, args, kw, node, fid):
        if not args:
            return [(st, v_int(0))]
        base = a0(args, kw, 1, 'base')
        res = []
        for s, a, av in self.split(st, args[0], lambda x: x):
            t = a[0]
            if t == 'b':
                res.append((s, v_int(int(a[1]))))
            elif t == 'i':
                res.append((s, av))
            elif t == 'f':
                res.append((s, v_anyint()))
            elif t in ('s', 'by'):
                try:
                    res.append((s, v_int(int(a[1], self.int_of(base) if base
                                             is not None else 10))))
                except (ValueError, TypeError):
                    res.append(exc(s, 'ValueError', True, node,
                                   'int({!r})'.format(a[1])))
            elif t == 'y':
                res.extend(self.int_str(s, a, node))
            elif t in ('none', 't', 'tt'):
                res.append(exc(s, 'TypeError', True, node,
                               'int() of ' + t))
            elif t == 'o':
                o = self.obj(s, a[1])
                if o.cls and self.find_attr(o.cls, '__int__', st=s):
                    res.extend(self.call_method(s, a, '__int__', [], {},
                                                node))
                elif o.kind != 'inst' or (o.cls and not self.ext_bases(
                        o.cls) and 'open' not in o.tags):
                    res.append(exc(s, 'TypeError', True, node,
                                   'int() of {}'.format(o.cls or o.kind)))
                else:
                    res.append((s, v_anyint()))
            else:
                s2 = s.copy()
                res.append((s, v_anyint()))
                res.append(exc(s2, 'ValueError', False, node))
        return res

    def int_str(self, st, a, node):
        t = a[1]
        if t is not None:
            if self.is_dec(st, t) is True:
                return [(st, v_anyint(0, None, mkterm('int', t)))]
            if self.is_dec(st, t) == 'signed':
                return [(st, v_anyint(None, None, mkterm('int', t)))]
        s2 = st.copy()
        ev = arb(t) and not any(
            k[0] in ('re', 'inset', 'sw') and v is True and k[1] == t
            for k, v in st.facts.items())
        return [(st, v_anyint(None, None,
                              mkterm('int', t) if t is not None else None)),
                exc(s2, 'ValueError', ev, node,
                    'int() of a string that need not be a number')]

    def is_dec(self, st, t):
        """Whether the string is known to be decimal."""
        if not isinstance(t, tuple):
            return t.isdecimal() if isinstance(t, str) else None
        f = st.facts.get(('isdec', t))
        if f is not None:
            return f
        if st.facts.get(('ne', t)) is False:
            return False
        # all(i in digits for i in t)
        for k, v in st.facts.items():
            if k[0] == 'allin' and k[1] == t and v is True:
                if k[2] <= frozenset('0123456789') and st.facts.get(
                        ('ne', t)):
                    return True
        # x where x[1:] is decimal and x[0] is a sign
        sl = ('slice', t, 1, 'None')
        if st.facts.get(('isdec', sl)) is True:
            for c in '-+':
                if st.facts.get(('eq', ('ch', t, 0), c)) is True or (
                        st.facts.get(('sw', t, c)) is True):
                    return 'signed'
        return None

    def c_float(self, st, args, kw, node, fid):
        if args and args[0].one and args[0].one[0] == 'y' and arb(
                args[0].one[1]):
            s2 = st.copy()
            return [(st, V([('f',)])), exc(s2, 'ValueError', True, node)]
        return [(st, V([('f',)]))]

    def c_bool(self, st, args, kw, node, fid):
        if not args:
            return [(st, V_FALSE)]
        res = []
        for s, b, _ in self.truth(st, args[0], node):
            res.append((s, b if isinstance(b, X) else (
                V_TRUE if b else V_FALSE)))
        return res

    def seq(self, st, args, node, kind):
        if not args:
            if kind == 'list':
                return [(st, self.mk_list(st, node, ()))]
            if kind == 'tuple':
                return [(st, v_tuple([]))]
            return [(st, self.new(st, node_site(node), Obj('set')))]
        res = []
        for s, a, v in self.split(st, args[0], lambda x: x):
            items = None
            if a[0] in ('none', 'i', 'b'):
                res.append(exc(s, 'TypeError', True, node,
                               '{}() of {}'.format(kind, a[0])))
                continue
            if a[0] == 'y' and kind == 'set':
                # remember what it was made of
                ne = self.atom_truth(s, a)
                if ne is False:
                    res.append((s, self.new(s, node_site(node), Obj('set'))))
                else:
                    res.append((s, self.new(s, node_site(node), Obj(
                        'set', elem=v_y(None, 1),
                        lo=1 if ne else 0, tags=frozenset([
                            ('of', a[1])]) if a[1] is not None
                        else frozenset()))))
                continue
            if a[0] == 'y' and kind in ('list', 'tuple'):
                ne = self.atom_truth(s, a)
                if ne is False:
                    res.append((s, self.mk_list(s, node, ())
                                if kind == 'list' else v_tuple([])))
                    continue
                lo = 1 if ne else 0
                if kind == 'list':
                    res.append((s, self.mk_list(
                        s, node, None, v_y(None, 1), lo,
                        tags=frozenset(['arb']) if arb(a[1])
                        else frozenset())))
                else:
                    res.append((s, V([('tt', v_y(None, 1), lo)])))
                continue
            if a[0] == 'yb':
                e = v_anyint(0, 255)
                lo = 1 if self.atom_truth(s, a) else 0
                if kind == 'list':
                    res.append((s, self.mk_list(
                        s, node, None, e, lo, tags=frozenset(['arb'])
                        if arb(a[1]) else frozenset())))
                elif kind == 'tuple':
                    res.append((s, V([('tt', e, lo)])))
                else:
                    res.append((s, self.new(s, node_site(node), Obj(
                        'set', elem=e, lo=lo))))
                continue
            if a[0] == 't' and kind == 'tuple':
                res.append((s, v))
                continue
            if a[0] == 'o':
                o = self.obj(s, a[1])
                if o.kind == 'list' and o.items is None and kind == 'list' \
                        and not (o.cls and self.find_attr(
                            o.cls, '__iter__', st=s)):
                    no = Obj('list', elem=V(o.elem.a) if o.elem is not None
                             else None, lo=o.lo, last=o.last, tags=o.tags)
                    if no.elem is None:
                        no = Obj('list', items=())
                    res.append((s, self.new(s, node_site(node), no)))
                    continue
                if o.kind == 'dict' and o.cls is None and kind == 'list':
                    e = self.elem_of(s, v)
                    if o.elem is None and not any(
                            x.has('missing') for x in o.f.values()):
                        res.append((s, self.mk_list(
                            s, node, [V([k]) for k in o.f])))
                    else:
                        res.append((s, self.mk_list(
                            s, node, None, e, 0)))
                    continue
                if o.kind == 'set' and o.cls is None and kind == 'set':
                    res.append((s, self.new(s, node_site(node), o.rep(
                        summ=False))))
                    continue
                if o.kind == 'set' and o.cls is None and kind == 'list' and (
                        o.elem is not None or len(o.f) > 1):
                    vals = list(o.f.values())
                    if self.exact and o.elem is None and not o.summ and (
                            not any(i.has('missing') for i in vals)):
                        res.append((s, self.mk_list(s, node, vals)))
                        continue
                    orders = self.set_orders(o)
                    if orders is not None and not self.concrete:
                        for n, order in enumerate(orders):
                            s2 = s.copy()
                            k = '@order:' + node_site(node)
                            s2.ts[k] = (s2.ts.get(k, ()) + (n,))[-4:]
                            res.append((s2, self.mk_list(s2, node, order)))
                        continue
                    vals = list(o.f.values()) + (
                        [o.elem] if o.elem is not None else [])
                    e = V([x for y in vals for x in y.a if x != MISSING])
                    lo = 1 if self.atom_truth(s, a) is True else 0
                    res.append((s, self.mk_list(s, node, None, e, lo)))
                    continue
            if a[0] in ('unk', 'x', 'xm'):
                if kind == 'list':
                    res.append((s, self.mk_list(s, node, None,
                                                v_unk('elem'), 0)))
                elif kind == 'tuple':
                    res.append((s, V([('tt', v_unk('elem'), 0)])))
                else:
                    res.append((s, self.new(s, node_site(node), Obj(
                        'set', elem=v_unk('elem')))))
                continue
            if kind == 'set':
                res.extend(self.collect(s, v, node, 'set'))
                continue
            for s2, lst in self.collect(s, v, node):
                if isinstance(lst, X) or kind == 'list':
                    res.append((s2, lst))
                    continue
                items = self.exact_items(s2, lst)
                if items is not None:
                    res.append((s2, v_tuple(items)))
                else:
                    o = self.obj(s2, lst.one[1])
                    e = o.all_elem()
                    res.append((s2, V([('tt', e if e is not None else
                                        v_unk('el'), o.lo)])))
        return res

    def c_list(self, st, args, kw, node, fid):
        return self.seq(st, args, node, 'list')

    def c_tuple(self, st, args, kw, node, fid):
        if len(args) > 1:
            return [exc(st, 'TypeError', True, node,
                        'tuple() takes one argument')]
        return self.seq(st, args, node, 'tuple')

    def c_set(self, st, args, kw, node, fid):
        return self.seq(st, args, node, 'set')

    c_frozenset = c_set

    def c_dict(self, st, args, kw, node, fid):
        o = Obj('dict', f={('s', k): v for k, v in kw.items()})
        if args:
            a = args[0].one
            so = self.obj(st, a[1]) if a and a[0] == 'o' else None
            if so is not None and so.kind == 'dict':
                f = dict(so.f)
                f.update(o.f)
                o = so.rep(f=f, cls=None, summ=False)
            elif so is not None and so.kind == 'list' and (
                    so.items is not None):
                for i in so.items:
                    if i.one and i.one[0] == 't' and len(i.one[1]) == 2:
                        o = self.dict_put(o, *i.one[1])
                    else:
                        o = o.rep(elem=v_unk('v'), last=v_unk('k'))
            else:
                res = []
                for s, lst in self.collect(st, args[0], node):
                    if isinstance(lst, X):
                        res.append((s, lst))
                        continue
                    items = self.exact_items(s, lst)
                    o2 = o
                    for i in ([self.elem_of(s, lst)] if items is None
                              else items):
                        if i.one and i.one[0] == 't' and len(
                                i.one[1]) == 2:
                            o2 = self.dict_put(o2, *i.one[1])
                        else:
                            o2 = o2.rep(elem=v_unk('v'), last=v_unk('k'))
                    res.append((s, self.new(s, node_site(node), o2)))
                return res
        return [(st, self.new(st, node_site(node), o))]

    def c_collections_defaultdict(self, st, args, kw, node, fid):
        tags = frozenset()
        if args and args[0].one:
            tags = frozenset([('dd', args[0].one)])
        return [(st, self.new(st, node_site(node), Obj('dict', tags=tags)))]

    def c_collections_OrderedDict(self, st, args, kw, node, fid):
        return self.c_dict(st, args, kw, node, fid)

    def c_collections_deque(self, st, args, kw, node, fid):
        return self.seq(st, args[:1], node, 'list')

    def c_io_BytesIO(self, st, args, kw, node, fid):
        return [(st, V([('x', 'file', 'rb', node_site(node))]))]

    def c_type(self, st, args, kw, node, fid):
        if len(args) == 3:
            a = args[0]
            res = []
            for x in a.a:
                if x[0] in STR:
                    continue
                res.append(exc(st.copy(), 'TypeError', x[0] != 'unk', node,
                               'type() name must be str'))
            if any(x[0] == 'y' and arb(x[1]) for x in a.a):
                # a NUL or a surrogate in the name
                res.append(exc(st.copy(), 'ValueError', True, node,
                               'type() name of input text'))
            return [(st, v_unk('class'))] + res
        a = args[0].one
        if a and a[0] == 'o':
            o = self.obj(st, a[1])
            if o.cls:
                return [(st, V([('cls', o.cls)]))]
            return [(st, V([('xcls', o.kind)]))]
        m = {'s': 'str', 'y': 'str', 'i': 'int', 'b': 'bool', 't': 'tuple',
             'tt': 'tuple', 'by': 'bytes', 'yb': 'bytes', 'none':
             'NoneType'}
        out = set()
        for x in args[0].a:
            if x[0] in m:
                out.add(('xcls', m[x[0]]))
            elif x[0] == 'o' and self.obj(st, x[1]).cls:
                out.add(('cls', self.obj(st, x[1]).cls))
            else:
                out.add(('unk', 'type'))
        return [(st, V(out))]

    def c_object(self, st, args, kw, node, fid):
        return [(st, self.new(st, node_site(node), Obj('inst', None)))]

    def c_range(self, st, args, kw, node, fid):
        ns = [self.int_of(v) for v in args]
        for v in args:
            if any(x[0] in ('s', 'y', 'none', 'f') for x in v.a):
                return [exc(st, 'TypeError', True, node, 'range()')]
        if None not in ns and ns:
            r = range(*ns)
            if len(r) <= 64:
                return [(st, v_tuple([v_int(i) for i in r]))]
        lo, hi = 0, None
        if len(args) == 1:
            a = args[0].one
            hi = a[2] if a and a[0] == 'i' else None
            term = None
            if a and a[0] == 'i' and a[3] is not None and a[3][0] == 'len':
                term = ('idx', a[3][1], 0)
            e = v_anyint(0, None if hi is None else hi - 1, term)
        else:
            a = args[0].one
            b = args[1].one
            step = ns[2] if len(ns) > 2 else 1
            alo = a[1] if a and a[0] == 'i' else None
            ahi = a[2] if a and a[0] == 'i' else None
            blo = b[1] if b and b[0] == 'i' else None
            bhi = b[2] if b and b[0] == 'i' else None
            if step is not None and step > 0:
                e = v_anyint(alo, None if bhi is None else bhi - 1)
            elif step is not None and step < 0:
                e = v_anyint(None if blo is None else blo + 1, ahi)
            else:
                e = v_anyint()
        o = Obj('iter', f={'@kind': 'range', '@elem': e})
        return [(st, self.new(st, node_site(node), o))]

    def mkiter(self, st, node, kind, **f):
        o = Obj('iter', f=dict({'@kind': kind}, **{
            '@' + k: v for k, v in f.items()}))
        return [(st, self.new(st, node_site(node), o))]

    def c_enumerate(self, st, args, kw, node, fid):
        start = a0(args, kw, 1, 'start')
        n = self.int_of(start) if start is not None else 0
        src = args[0]
        a = src.one
        if a and a[0] in ('none', 'i'):
            return [exc(st, 'TypeError', True, node, 'enumerate')]
        return self.mkiter(st, node, 'enumerate', src=src,
                           start=0 if n is None else n)

    def c_reversed(self, st, args, kw, node, fid):
        return self.mkiter(st, node, 'reversed', src=args[0])

    def c_zip(self, st, args, kw, node, fid):
        return self.mkiter(st, node, 'zip', srcs=tuple(args))

    def c_map(self, st, args, kw, node, fid):
        if len(args) != 2:
            return [(st, v_unk('map'))]
        return self.mkiter(st, node, 'map', func=args[0], src=args[1])

    def c_filter(self, st, args, kw, node, fid):
        return self.mkiter(st, node, 'filter', func=args[0], src=args[1])

    def c_property(self, st, args, kw, node, fid):
        return [(st, V([('prop', args[0])]) if args else v_unk('property'))]

    def c_classmethod(self, st, args, kw, node, fid):
        return [(st, V([('cm', args[0])]))]

    def c_staticmethod(self, st, args, kw, node, fid):
        return [(st, V([('sm', args[0])]))]

    def c_super(self, st, args, kw, node, fid):
        if len(args) == 2 and args[0].one and args[0].one[0] == 'cls' and (
                args[1].one):
            return [(st, V([('super', args[0].one[1], args[1].one)]))]
        return [(st, v_unk('super'))]

    # ------------------------------------------------------------------
    # functions
    # ------------------------------------------------------------------
    def ext_fn(self, st, name, args, kw, node, fid):
        short = name
        if name.startswith('builtins.'):
            short = name[9:]
            m = getattr(self, 'b_' + short, None)
        else:
            m = getattr(self, 'f_' + name.replace('.', '_'), None)
        self.extcall(st, name, args, kw, node)
        if m is not None:
            return m(st, args, kw, node, fid)
        if name.startswith('os.path.'):
            return [(st, v_y(None, None) if name.split('.')[2] in (
                'join', 'dirname', 'basename', 'realpath', 'abspath',
                'normpath', 'expanduser', 'relpath') else v_unk(name))]
        return self.unknown_ext(st, name, args, kw, node)

    def unknown_ext(self, st, name, args, kw, node):
        h = self.hooks.get('ext')
        if h:
            r = h(st, name, args, kw, node)
            if r is not None:
                return r
        for v in list(args) + list(kw.values()):
            self.escape(st, v)
        return [(st, v_unk(name))]

    def b_len(self, st, args, kw, node, fid):
        if len(args) != 1:
            return [exc(st, 'TypeError', True, node, 'len()')]
        res = []
        for s, a, v in self.split(st, args[0], lambda x: x):
            t = a[0]
            if t in ('s', 'by', 't'):
                res.append((s, v_int(len(a[1]))))
            elif t in ('y', 'yb'):
                tr = self.atom_truth(s, a)
                if tr is False:
                    res.append((s, v_int(0)))
                elif a[1] is not None and s.facts.get(('one', a[1])):
                    res.append((s, v_int(1)))
                else:
                    res.append((s, v_anyint(
                        self.minlen(s, a), None,
                        ('len', a[1]) if a[1] is not None else None)))
            elif t == 'tt':
                res.append((s, v_anyint(a[2])))
            elif t == 'o':
                o = self.obj(s, a[1])
                if o.cls and o.cls in self.cls_info and self.find_attr(
                        o.cls, '__len__', st=s):
                    res.extend(self.call_method(s, a, '__len__', [], {},
                                                node))
                elif o.kind == 'list':
                    if o.items is not None and not o.summ:
                        res.append((s, v_int(len(o.items))))
                    else:
                        res.append((s, v_anyint(
                            o.lo, None, ('len', ('oid', a[1]))
                            if not o.summ else None)))
                elif o.kind in ('dict', 'set'):
                    if o.kind == 'dict' and o.elem is None and not any(
                            x.has('missing') for x in o.f.values()):
                        res.append((s, v_int(len(o.f))))
                    elif o.kind == 'set' and o.elem is None and (
                            len(o.f) <= 1 or self.exact or all(
                                const_of(k)[0] for k in o.f)) and not any(
                                x.has('missing') for x in o.f.values()):
                        res.append((s, v_int(len(o.f))))
                    else:
                        res.append((s, v_anyint(
                            1 if self.atom_truth(s, a) else 0)))
                elif o.kind in ('gen', 'iter') or (
                        o.kind == 'inst' and o.cls and not self.ext_bases(
                            o.cls) and 'open' not in o.tags):
                    res.append(exc(s, 'TypeError', True, node,
                                   '{} has no len()'.format(
                                       o.cls or o.kind)))
                else:
                    res.append((s, v_anyint(0)))
            elif t in ('none', 'i', 'b', 'f', 'fn', 'bm'):
                res.append(exc(s, 'TypeError', True, node,
                               '{} has no len()'.format(t)))
            elif t == 'missing':
                continue
            else:
                res.append((s, v_anyint(0)))
        return res

    def b_isinstance(self, st, args, kw, node, fid):
        def key(a):
            r = self.isinst(st, a, args[1])
            return 'None' if r is None else r
        res = []
        for s, k, v in self.split(st, args[0], key):
            if k == 'None':
                res.extend(self.bools(s))
            else:
                res.append((s, V_TRUE if k else V_FALSE))
        return res

    def isinst(self, st, a, cv):
        outs = set()
        for c in cv.a:
            outs.add(self.isinst1(st, a, c))
        if len(outs) == 1:
            return outs.pop()
        return None

    def isinst1(self, st, a, c):
        if c[0] == 't':
            r = [self.isinst(st, a, i) for i in c[1]]
            return True if True in r else (None if None in r else False)
        if a[0] in ('unk', 'x', 'xm'):
            return None
        t = a[0]
        if c[0] == 'cls':
            if t == 'o':
                o = self.obj(st, a[1])
                if o is None:
                    return None
                if o.cls and o.cls in self.cls_info:
                    if c[1] in self.mro(o.cls):
                        return True
                    if 'open' in o.tags and self.ext_bases(o.cls):
                        return None if False else False
                    return False
                if 'open' in o.tags:
                    return None
                return False
            if t == 'cls':
                m = self.metaclass(a[1])
                return bool(m and c[1] in self.mro(m))
            return False
        if c[0] == 'xcls':
            n = c[1]
            if n == 'object':
                return True
            m = {'s': 'str', 'y': 'str', 'by': 'bytes', 'yb': 'bytes',
                 'i': 'int', 'b': 'bool', 't': 'tuple', 'tt': 'tuple',
                 'f': 'float'}
            if t in m:
                if t == 'b' and n == 'int':
                    return True
                return m[t] == n
            if t == 'o':
                o = self.obj(st, a[1])
                if o is None:
                    return None
                if o.kind in ('list', 'dict', 'set'):
                    if o.kind == n or (n == 'collections.defaultdict' and
                                       o.kind == 'dict' and any(
                                           isinstance(x, tuple) and
                                           x[0] == 'dd' for x in o.tags)):
                        return True
                    return False
                if o.cls and n in self.ext_bases(o.cls):
                    return True
                if 'open' in o.tags:
                    return None
                return False
            if t in ('cls', 'xcls') and n == 'type':
                return True
            return False
        return None

    def b_issubclass(self, st, args, kw, node, fid):
        a, b = args[0].one, args[1].one
        if a and b and a[0] == 'cls' and b[0] == 'cls':
            return [(st, V_TRUE if b[1] in self.mro(a[1]) else V_FALSE)]
        return self.bools(st)

    def b_callable(self, st, args, kw, node, fid):
        a = args[0].one
        if a and a[0] in ('fn', 'bm', 'cls', 'xcls', 'bx'):
            return [(st, V_TRUE)]
        if a and a[0] in ('none', 's', 'y', 'i', 't', 'b'):
            return [(st, V_FALSE)]
        return self.bools(st)

    def b_hasattr(self, st, args, kw, node, fid):
        na = args[1].one
        res = []
        if not na or na[0] != 's':
            return self.bools(st)
        for s, a, v in self.split(st, args[0], lambda x: x):
            if a[0] == 'o':
                o = self.obj(s, a[1])
                x = o.f.get(na[1]) if o.kind == 'inst' or o.cls else None
                if isinstance(x, V) and x.has('missing') and not (
                        o.cls and self.find_attr(o.cls, na[1], st=s)):
                    rest = V([y for y in x.a if y != MISSING])
                    s2 = s.copy()
                    if not o.summ:
                        f = dict(o.f)
                        del f[na[1]]
                        self.put(s2, a[1], o.rep(f=f))
                        if rest.a:
                            self.put(s, a[1], o.setf(na[1], rest))
                    if rest.a:
                        res.append((s, V_TRUE))
                    res.append((s2, V_FALSE))
                    continue
                if x is not None:
                    res.append((s, V_TRUE))
                    continue
                if o.cls and o.cls in self.cls_info:
                    if self.find_attr(o.cls, na[1], st=s):
                        res.append((s, V_TRUE))
                    elif self.ext_bases(o.cls) or 'open' in o.tags or (
                            self.find_attr(o.cls, '__getattr__', st=s)):
                        res.extend(self.bools(s))
                    else:
                        res.append((s, V_FALSE))
                    continue
                if o.kind in ('list', 'dict', 'set'):
                    res.append((s, V_TRUE if hasattr(
                        {'list': list, 'dict': dict, 'set': set}[o.kind],
                        na[1]) else V_FALSE))
                    continue
                res.extend(self.bools(s))
            elif a[0] in STR:
                res.append((s, V_TRUE if hasattr(str, na[1]) else V_FALSE))
            elif a[0] == 'none':
                res.append((s, V_TRUE if hasattr(None, na[1]) else V_FALSE))
            elif a[0] == 'mod':
                o = self.obj(s, ('mod', a[1]))
                res.append((s, V_TRUE if o and na[1] in o.f else V_FALSE))
            elif a[0] == 'cls':
                res.append((s, V_TRUE if self.find_attr(a[1], na[1], st=s)
                            else V_FALSE))
            else:
                res.extend(self.bools(s))
        return res

    def b_getattr(self, st, args, kw, node, fid):
        na = args[1].one
        if not na or na[0] != 's':
            return [(st, v_unk('getattr'))]
        res = []
        for s, v in self.getattr(st, args[0], na[1], node):
            if isinstance(v, X) and v.kind == 'x' and v.v.name == (
                    'AttributeError') and len(args) > 2:
                res.append((s, args[2]))
            else:
                res.append((s, v))
        return res

    def b_setattr(self, st, args, kw, node, fid):
        na = args[1].one
        if not na or na[0] != 's':
            self.escape(st, args[0])
            return [(st, V_NONE)]
        return [(s, V_NONE if r is None else r) for s, r in self.setattr(
            st, args[0], na[1], args[2], node)]

    def b_delattr(self, st, args, kw, node, fid):
        a = args[0].one
        na = args[1].one
        if a and a[0] == 'o' and na and na[0] == 's':
            o = self.obj(st, a[1])
            f = dict(o.f)
            f.pop(na[1], None)
            self.put(st, a[1], o.rep(f=f))
        return [(st, V_NONE)]

    def b_ord(self, st, args, kw, node, fid):
        a = args[0].one
        if a and a[0] == 's':
            if len(a[1]) == 1:
                return [(st, v_int(ord(a[1])))]
            return [exc(st, 'TypeError', True, node, 'ord()')]
        if a and a[0] == 'y':
            one = a[1] is not None and st.facts.get(('one', a[1]))
            if not one and arb(a[1]):
                s2 = st.copy()
                return [(st, v_anyint(0)),
                        exc(s2, 'TypeError', True, node, 'ord() of a string '
                            'that need not be one character')]
            return [(st, v_anyint(0, 0x10ffff, mkterm('ord', a[1])
                                  if a[1] is not None else None))]
        if a and a[0] in ('none', 'i'):
            return [exc(st, 'TypeError', True, node, 'ord()')]
        return [(st, v_anyint(0))]

    def b_chr(self, st, args, kw, node, fid):
        n = self.int_of(args[0])
        if n is not None and 0 <= n < 0x110000:
            return [(st, v_str(chr(n)))]
        return [(st, v_y(None, 1))]

    def b_repr(self, st, args, kw, node, fid):
        return self.to_str(st, args[0], node, True)

    def b_format(self, st, args, kw, node, fid):
        return [(st, v_y())]

    def b_abs(self, st, args, kw, node, fid):
        return [(st, v_anyint(0))]

    def b_hash(self, st, args, kw, node, fid):
        st.event('hash', args[0])
        e = self.bad_key_exc(st, args[0], node)
        if e:
            return [e]
        ok, c = pyval(args[0])
        if ok:
            # Any number will do, as long as it is the same for what is
            # equal.
            return [(st, v_int(zlib.crc32(repr(hashed(c)).encode())))]
        a = args[0].one
        if a and a[0] == 'o':
            o = self.obj(st, a[1])
            if o.cls in self.cls_info and self.find_attr(
                    o.cls, '__hash__', st=st):
                return self.call_method(st, a, '__hash__', [], {}, node)
        return [(st, v_anyint())]

    def b_id(self, st, args, kw, node, fid):
        return [(st, v_anyint())]

    def b_iter(self, st, args, kw, node, fid):
        if len(args) == 2:
            return [(st, v_unk('iter'))]
        res = []
        for s, a, v in self.split(st, args[0], lambda x: x):
            if a[0] == 'o':
                o = self.obj(s, a[1])
                if o.kind == 'gen':
                    res.append((s, v))
                    continue
                if o.cls and o.cls in self.cls_info and self.find_attr(
                        o.cls, '__iter__', st=s):
                    res.extend(self.call_method(s, a, '__iter__', [], {},
                                                node))
                    continue
                if o.kind == 'iter':
                    res.append((s, v))
                    continue
            if a[0] in ('none', 'i', 'b'):
                res.append(exc(s, 'TypeError', True, node,
                               'not iterable'))
                continue
            res.extend(self.mkiter(s, node, 'iter', src=v))
        return res

    def b_next(self, st, args, kw, node, fid):
        """First of what is left; which one is not known after that."""
        it = args[0]
        res = []
        h = self.hooks.get('next')
        if h:
            r = h(st, args, kw, node)
            if r is not None:
                return r
        for s, a, v in self.split(st, it, lambda x: x):
            if a[0] == 'o':
                o = self.obj(s, a[1])
                ex = self.next_of(s, a, node)
                if ex is not None:
                    for s2, v2 in ex:
                        if isinstance(v2, X) and v2.kind == 'x' and (
                                v2.v.name == 'StopIteration') and len(
                                    args) > 1:
                            v2 = args[1]
                        res.append((s2, v2))
                    continue
                if o.kind in ('gen', 'iter'):
                    started = '@started' in o.f
                    if started or o.summ:
                        s2 = s.copy()
                        res.append((s, v_unk('next')))
                        res.append((s2, args[1]) if len(args) > 1 else exc(
                            s2, 'StopIteration', False, node))
                        continue

                    def body(s2, val, idx):
                        return [('b', s2, val)]
                    # run up to the first element
                    for k, s2, v2 in self.for_first(s, v, node):
                        oo = self.obj(s2, a[1])
                        if oo is not None:
                            f = {x: y for x, y in oo.f.items()
                                 if x != '@done'}
                            f['@started'] = V_TRUE
                            self.put(s2, a[1], oo.rep(f=f))
                        if k == 'b':
                            res.append((s2, v2))
                        elif k == 'n':
                            res.append((s2, args[1]) if len(args) > 1
                                       else exc(s2, 'StopIteration', True,
                                                node))
                        else:
                            res.append((s2, X(k, v2)))
                    continue
                if o.kind in ('list', 'dict', 'set'):
                    res.append(exc(s, 'TypeError', True, node,
                                   'not an iterator'))
                    continue
            s2 = s.copy()
            res.append((s, v_unk('next')))
            res.append((s2, args[1]) if len(args) > 1 else exc(
                s2, 'StopIteration', False, node))
        return res

    def next_of(self, st, a, node):
        """
        The next element of an iterator, if what it iterates over is known.
        None if it isn't. The positions are kept in the iterator.
        """
        o = self.obj(st, a[1])
        if o.cls and o.cls in self.cls_info and self.find_attr(
                o.cls, '__next__', st=st):
            return self.call_method(st, a, '__next__', [], {}, node)
        if not self.exact or o.kind != 'iter' or o.summ or (
                '@started' in o.f) or o.f['@kind'] not in (
                    'iter', 'enumerate', 'zip', 'reversed', 'map', 'filter'):
            return None
        if '@pos' not in o.f:
            srcs = o.f.get('@srcs') or (o.f['@src'],)
            states = [(st, ())]
            for src in srcs:
                nxt = []
                for s, cur in states:
                    for s2, v in self.cursor(s, src, o, node):
                        if v is None or isinstance(v, X):
                            return None
                        nxt.append((s2, cur + (v,)))
                states = nxt
            if len(states) != 1:
                return None
            st, cur = states[0]
            f = dict(o.f)
            f['@pos'] = 0
            f['@srcs'] = cur
            self.put(st, a[1], o.rep(f=f))
        states = [(st, ())]
        stops = []
        for n in range(len(self.obj(st, a[1]).f['@srcs'])):
            nxt = []
            for s, got in states:
                c = self.obj(s, a[1])
                for s2, v in self.fetch(s, c.f['@srcs'][n], c.f['@pos'],
                                        node):
                    if isinstance(v, X):
                        stops.append((s2, v))
                    else:
                        nxt.append((s2, got + (v,)))
            states = nxt
        res = []
        for s, got in states:
            c = self.obj(s, a[1])
            pos = c.f['@pos']
            f = dict(c.f)
            f['@pos'] = pos + 1
            self.put(s, a[1], c.rep(f=f))
            kind = c.f['@kind']
            if kind == 'enumerate':
                res.append((s, v_tuple([
                    v_int(pos + c.f.get('@start', 0)), got[0]])))
            elif kind == 'zip':
                res.append((s, v_tuple(got)))
            elif kind == 'map':
                res.extend(self.call(s, c.f['@func'], list(got), {}, node))
            elif kind == 'filter':
                rs = [(s, got[0])] if c.f['@func'] == V_NONE else self.call(
                    s, c.f['@func'], list(got), {}, node)
                for s2, v in rs:
                    if isinstance(v, X):
                        res.append((s2, v))
                        continue
                    for s3, b, _ in self.truth(s2, v, node):
                        if isinstance(b, X):
                            res.append((s3, b))
                        elif b:
                            res.append((s3, got[0]))
                        else:
                            res.extend(self.next_of(s3, a, node) or [
                                (s3, v_unk('next'))])
            else:
                res.append((s, got[0]))
        return res + stops

    def cursor(self, st, v, it, node):
        """What next_of can take elements from."""
        a = v.one
        rev = it.f['@kind'] == 'reversed'
        if a is None:
            return [(st, None)]
        if a[0] in ('t', 's') or a[0] == 'o' and self.obj(
                st, a[1]).kind == 'list' and rev:
            items = self.exact_items(st, v)
            if items is None:
                return [(st, None)]
            return [(st, v_tuple(list(reversed(items)) if rev else items))]
        if a[0] != 'o' or rev:
            return [(st, None)]
        o = self.obj(st, a[1])
        if o.cls and o.cls in self.cls_info:
            if self.find_attr(o.cls, '__next__', st=st):
                return [(st, v)]
            if self.find_attr(o.cls, '__iter__', st=st):
                res = []
                for s, v2 in self.call_method(st, a, '__iter__', [], {},
                                              node):
                    if isinstance(v2, X):
                        return [(s, None)]
                    res.extend(self.cursor(s, v2, it, node)
                               if v2.one != a else [(s, v2)])
                return res
            if o.kind != 'list':
                return [(st, None)]
        if o.kind == 'list' and o.items is not None and not o.summ:
            return [(st, v)]
        if o.kind == 'iter' and not o.summ:
            return [(st, v)]
        if o.kind == 'dict' and o.elem is None and not any(
                x.has('missing') for x in o.f.values()):
            return [(st, v_tuple([V([k]) for k in o.f]))]
        return [(st, None)]

    def fetch(self, st, v, pos, node):
        a = v.one
        stop = X('x', Exc('StopIteration', True, node, ''))
        if a[0] == 't':
            return [(st, a[1][pos] if pos < len(a[1]) else stop)]
        o = self.obj(st, a[1])
        if o.kind == 'list':
            if o.items is None:
                return [(st, v_unk('next'))]
            return [(st, o.items[pos] if pos < len(o.items) else stop)]
        r = self.next_of(st, a, node)
        if r is None:
            s2 = st.copy()
            return [(st, v_unk('next')), exc(
                s2, 'StopIteration', False, node)]
        return r

    def for_first(self, st, it, node):
        """Like for_each with a break after the first; carries its value
        in the frame to survive joins."""
        pf = ('P', 'next' + node_site(node), len(st.fr))
        st.fr[pf] = {}
        self.fnof[pf] = None

        def body(s, val, idx):
            s.fr[pf] = {'v': val}
            return [('b', s, None)]
        out = []
        for k, s, v in self.for_each(st, it, body, node):
            env = s.fr.pop(pf, {})
            if k == 'b':
                out.append((k, s, env.get('v', V_NONE)))
            else:
                out.append((k, s, v))
        return out

    def b_any(self, st, args, kw, node, fid):
        return self.anyall(st, args[0], node, True)

    def b_all(self, st, args, kw, node, fid):
        return self.anyall(st, args[0], node, False)

    def anyall(self, st, it, node, is_any):
        # all(c in SET for c in text): remember that
        fact = self.allin_fact(st, it)

        def body(s, val, idx):
            out = []
            for s2, b, _ in self.truth(s, val, node):
                if isinstance(b, X):
                    out.append((b.kind, s2, b.v))
                elif b == is_any:
                    out.append(('b', s2, None))
                else:
                    out.append(('n', s2, None))
            return out
        res = []
        a = it.one
        if a and a[0] in ('unk', 'x'):
            return self.bools(st)
        for k, s, v in self.for_each(st, it, body, node):
            if k == 'b':
                if fact is not None and not is_any:
                    s.facts[fact] = False
                res.append((s, V_TRUE if is_any else V_FALSE))
            elif k == 'n':
                if fact is not None and not is_any:
                    s.facts[fact] = True
                res.append((s, V_FALSE if is_any else V_TRUE))
            else:
                res.append((s, X(k, v)))
        return self.merge_ev(res) if len(res) > 2 else res

    def allin_fact(self, st, it):
        a = it.one
        if not a or a[0] != 'o':
            return None
        o = self.obj(st, a[1])
        if 'genexp' not in o.tags or '@src' not in o.f:
            return None
        src = o.f['@src'].one if isinstance(o.f['@src'], V) else None
        n = o.f['@node']
        if not src or src[0] != 'y' or src[1] is None:
            return None
        if len(n.generators) != 1 or n.generators[0].ifs:
            return None
        e = n.elt
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.ops[0], ast.In) and isinstance(e.left, ast.Name) and (
                    isinstance(n.generators[0].target, ast.Name)) and (
                        e.left.id == n.generators[0].target.id):
            r = self.ev(st.copy(), o.f['@fid'], e.comparators[0])
            if len(r) == 1 and isinstance(r[0][1], V) and r[0][1].one:
                x = r[0][1].one
                if x[0] == 's':
                    return ('allin', src[1], frozenset(x[1]))
                if x[0] == 'o':
                    xo = self.obj(st, x[1])
                    if xo is not None and xo.kind == 'set' and (
                            xo.elem is None):
                        return ('allin', src[1], frozenset(
                            k[1] for k in xo.f if k[0] == 's'))
        return None

    def minmax(self, st, args, kw, node, is_min):
        if args and self.exact and not set(kw) - {'key', 'default'}:
            r = self.minmax_exact(st, args, kw, node, is_min)
            if r is not None:
                return r
        if len(args) >= 2:
            ints = [v.one for v in args]
            if all(i and i[0] == 'i' for i in ints):
                los = [i[1] for i in ints]
                his = [i[2] for i in ints]
                f = min if is_min else max
                if is_min:
                    hi = [h for h in his if h is not None]
                    return [(st, v_anyint(
                        None if None in los else min(los),
                        min(hi) if hi else None))]
                lo = [x for x in los if x is not None]
                return [(st, v_anyint(max(lo) if lo else None,
                                      None if None in his else max(his)))]
            return [(st, join_v(*args))]
        res = []
        for s, a, v in self.split(st, args[0], lambda x: x):
            items = self.exact_items(s, v)
            if items is not None and not items and 'default' not in kw:
                res.append(exc(s, 'ValueError', True, node,
                               'min()/max() of empty'))
                continue
            res.append((s, self.elem_of(s, v)))
        return res

    def minmax_exact(self, st, args, kw, node, is_min):
        """None if it is not known which one it is."""
        work = st.copy()
        lists = [(work, V([('t', tuple(args))]))] if len(args) > 1 else (
            self.collect(work, args[0], node, site=(
                'mm@' + node_site(node))))
        res = []
        for s, lst in lists:
            if isinstance(lst, X):
                res.append((s, lst))
                continue
            items = self.exact_items(s, lst)
            if items is None:
                return None
            if not items:
                if 'default' in kw:
                    res.append((s, kw['default']))
                else:
                    res.append(exc(s, 'ValueError', True, node,
                                   'min()/max() of empty'))
                continue
            got = self.sort_exact(s, tuple(items), kw.get('key'),
                                  None if is_min else V_TRUE, node)
            if got is None:
                return None
            res.extend((s2, order[0]) for s2, order in got)
        return res

    def b_min(self, st, args, kw, node, fid):
        return self.minmax(st, args, kw, node, True)

    def b_max(self, st, args, kw, node, fid):
        return self.minmax(st, args, kw, node, False)

    def b_sum(self, st, args, kw, node, fid):
        res = []
        for s, lst in self.collect(st, args[0], node):
            if isinstance(lst, X):
                res.append((s, lst))
                continue
            items = self.exact_items(s, lst)
            known = [pyval(i) for i in (items or []) + list(args[1:])
                     ] if isinstance(items, list) else [(False, None)]
            if all(ok and isinstance(i, int) for ok, i in known):
                res.append((s, pyconst(sum(i for ok, i in known))))
            else:
                res.append((s, v_anyint()))
        return res

    def b_sorted(self, st, args, kw, node, fid):
        res = []
        a = args[0].one if args else None
        so = self.obj(st, a[1]) if a and a[0] == 'o' else None
        if so is not None and so.kind == 'set' and so.cls is None and (
                not self.concrete):
            # sorted whatever the order: no ties
            got = []
            for order in self.set_orders(so) or ():
                r = self.sort_exact(st, order, kw.get('key'),
                                    kw.get('reverse'), node)
                if r is None or len(r) != 1:
                    got = []
                    break
                got.append(r[0])
            if got and all(i[1] == got[0][1] for i in got):
                s = got[0][0]
                return [(s, self.mk_list(s, node, got[0][1]))]
        for s, lst in self.seq(st, args[:1], node, 'list'):
            if isinstance(lst, X):
                res.append((s, lst))
                continue
            a = lst.one
            o = self.obj(s, a[1])
            if o.items is not None and len(o.items) > 1:
                ok = [const_of(i.one) if i.one else (False, None)
                      for i in o.items]
                if all(x[0] for x in ok) and 'key' not in kw:
                    try:
                        vals = sorted(
                            [x[1] for x in ok],
                            reverse=kw.get('reverse') == V_TRUE)
                        self.put(s, a[1], o.rep(items=tuple(
                            pyconst(x) for x in vals)))
                        res.append((s, lst))
                        continue
                    except TypeError:
                        pass
            res.extend(self.sort_list(s, lst, kw, node))
        return res

    def sort_list(self, st, lst, kw, node):
        """Order becomes unknown; what cannot be compared fails."""
        a = lst.one
        o = self.obj(st, a[1])
        e = o.all_elem()
        res = []
        n = len(o.items) if o.items is not None else o.lo
        if e is not None and 'key' not in kw:
            kinds = set()
            for x in e.a:
                if x[0] in STR:
                    kinds.add('str')
                elif x[0] in ('i', 'b', 'f'):
                    kinds.add('num')
                elif x[0] == 'none':
                    kinds.add('none')
            if len(kinds) > 1 or 'none' in kinds:
                s2 = st.copy()
                res.append(exc(s2, 'TypeError', True, node,
                               'sorting {}'.format(' and '.join(
                                   sorted(kinds)))))
        if o.items is not None and len(o.items) <= 1:
            return [(st, lst)] + res
        key = kw.get('key')
        if o.items is not None and len(o.items) > 1 and (
                (len(o.items) <= 12 or self.exact) and not o.summ):
            done = self.sort_exact(st, o.items, key, kw.get('reverse'), node)
            if done is not None:
                for s, items in done:
                    self.put(s, a[1], o.rep(items=items))
                return [(s, lst) for s, items in done]
        if e is not None:
            self.put(st, a[1], o.rep(items=None, elem=e, lo=n, last=None))
        if key is not None and e is not None and key != V_NONE:
            out = []
            for s, v in self.call(st.copy(), key, [V(e.a)], {}, node):
                if isinstance(v, X) and v.kind == 'x' and v.v.ev:
                    out.append((s, v))
            res.extend(out[:1])
        return [(st, lst)] + res

    def sort_exact(self, st, items, key, reverse, node):
        """[(st, items)] if all keys are constants, else None"""
        if reverse not in (None, V_TRUE, V_FALSE):
            return None
        states = [(st.copy(), [])]
        for item in items:
            nx = []
            for s, ks in states:
                r = [(s, item)] if key is None or key == V_NONE else (
                    self.call(s, key, [item], {}, node))
                if len(r) != 1 or isinstance(r[0][1], X):
                    return None
                ok, k = pyval(r[0][1])
                if not ok:
                    if self.exact:
                        return self.sort_cmp(st, items, key, reverse, node)
                    return None
                nx.append((r[0][0], ks + [k]))
            states = nx
        res = []
        for s, ks in states:
            try:
                order = sorted(range(len(ks)), key=lambda i: ks[i],
                               reverse=reverse == V_TRUE)
            except TypeError:
                return None
            res.append((s, tuple(items[i] for i in order)))
        return res

    def sort_cmp(self, st, items, key, reverse, node):
        """Sort by interpreting the comparison; None unless decided."""
        st = st.copy()
        out = []                # [(key, item)] sorted
        lt = ast.Lt()
        for item in items:
            k = item
            if key is not None and key != V_NONE:
                r = self.call(st, key, [item], {}, node)
                if len(r) != 1 or isinstance(r[0][1], X):
                    return None
                st, k = r[0]
            lo, hi = 0, len(out)
            while lo < hi:
                mid = (lo + hi) // 2
                a, b = (k, out[mid][0]) if reverse != V_TRUE else (
                    out[mid][0], k)
                r = self.compare(st, lt, a, b, node)
                if len(r) != 1 or r[0][1] not in (V_TRUE, V_FALSE):
                    return None
                st, less = r[0]
                if less == V_TRUE:
                    hi = mid
                else:
                    lo = mid + 1
            out.insert(lo, (k, item))
        return [(st, tuple(i for k, i in out))]

    def b_print(self, st, args, kw, node, fid):
        res = []
        states = [st]
        for v in args:
            nx = []
            for s in states:
                for s2, r in self.to_str(s, v, node):
                    if isinstance(r, X):
                        res.append((s2, r))
                    else:
                        nx.append(s2)
            states = nx
            if len(states) > self.CAP:
                states = [o[1] for o in self.merge_cap(
                    [('n', s, None) for s in states])]
        h = self.hooks.get('print')
        for s in states:
            if h:
                h(s, args, kw, node)
            res.append((s, V_NONE))
        return res

    def b_input(self, st, args, kw, node, fid):
        return [(st, self.sym(st, 'in:input@' + node_site(node), 0))]

    def b_open(self, st, args, kw, node, fid):
        mode = a0(args, kw, 1, 'mode')
        m = mode.one[1] if mode is not None and mode.one and (
            mode.one[0] == 's') else ('r' if mode is None else '?')
        s2 = st.copy()
        return [(st, V([('x', 'file', m, node_site(node))])),
                exc(s2, 'OSError', False, node)]

    def b_vars(self, st, args, kw, node, fid):
        return [(st, v_unk('vars'))]

    b_dir = b_globals = b_locals = b_vars

    def b_exit(self, st, args, kw, node, fid):
        return [(st, X('x', Exc('SystemExit', True, node, val=args[0]
                                 if args else V_NONE)))]

    f_sys_exit = b_exit

    def b___import__(self, st, args, kw, node, fid):
        return [(st, v_unk('import'))]

    def b_divmod(self, st, args, kw, node, fid):
        return [(st, v_tuple([v_anyint(), v_anyint()]))]

    # os, os.path
    def path1(self, st, args, fn, node, ne=None):
        a = args[0].one
        if a and a[0] == 's':
            return [(st, v_str(fn(a[1])))]
        if any(x[0] == 'none' for x in args[0].a):
            return [exc(st, 'TypeError', True, node, 'path is None')]
        return [(st, self.fmt_result(st, [fn.__name__], [args[0]], ne))]

    def f_os_path_dirname(self, st, args, kw, node, fid):
        return self.path1(st, args, posixpath.dirname, node)

    def f_os_path_basename(self, st, args, kw, node, fid):
        return self.path1(st, args, posixpath.basename, node)

    def f_os_path_realpath(self, st, args, kw, node, fid):
        a = args[0].one
        if a and a[0] == 's' and self.concrete:
            return [(st, v_str(os.path.realpath(a[1])))]
        if a and a[0] == 's':
            return [(st, v_str(a[1]))]
        return self.path1(st, args, posixpath.realpath, node, 1)

    f_os_path_abspath = f_os_path_realpath

    def f_os_path_normpath(self, st, args, kw, node, fid):
        return self.path1(st, args, posixpath.normpath, node, 1)

    def f_os_path_join(self, st, args, kw, node, fid):
        cs = [v.one[1] if v.one and v.one[0] == 's' else None for v in args]
        if None not in cs:
            return [(st, v_str(posixpath.join(*cs)))]
        if any(x[0] in ('none', 'i') for v in args for x in v.a):
            return [exc(st, 'TypeError', True, node, 'join of non-string')]
        return [(st, self.fmt_result(st, ['join'], args, None))]

    def exists(self, st, args, node, fn):
        a = args[0].one
        if a and a[0] == 's' and self.concrete:
            return [(st, V_TRUE if fn(a[1]) else V_FALSE)]
        if a and a[0] == 's' and self.dirs:
            d, _, b = a[1].rpartition('/')
            if fn is not os.path.isfile and a[1] in self.dirs or (
                    fn is not os.path.isdir and b in self.dirs.get(d, ())):
                return [(st, V_TRUE)]
            return [(st, V_FALSE)]
        return self.bools(st)

    def f_os_path_exists(self, st, args, kw, node, fid):
        return self.exists(st, args, node, os.path.exists)

    def f_os_path_isdir(self, st, args, kw, node, fid):
        return self.exists(st, args, node, os.path.isdir)

    def f_os_path_isfile(self, st, args, kw, node, fid):
        return self.exists(st, args, node, os.path.isfile)

    f_os_path_islink = f_os_path_isfile

    def f_os_path_splitext(self, st, args, kw, node, fid):
        a = args[0].one
        if a and a[0] == 's':
            return [(st, v_tuple([v_str(i) for i in
                                  posixpath.splitext(a[1])]))]
        return [(st, v_tuple([v_y(), v_y()]))]

    def f_os_listdir(self, st, args, kw, node, fid):
        a = args[0].one if args else None
        if a and a[0] == 's' and self.concrete:
            try:
                names = sorted(os.listdir(a[1]))
            except OSError:
                return [exc(st, 'OSError', True, node, a[1])]
            return [(st, self.mk_list(st, node, [v_str(i) for i in names]))]
        if a and a[0] == 's' and a[1] in self.dirs:
            # iterated over in all orders
            names = self.dirs[a[1]]
            return [(st, self.new(st, node_site(node), Obj(
                'set', f={v_str(i).one: v_str(i) for i in names},
                lo=min(1, len(names)))))]
        s2 = st.copy()
        return [(st, self.mk_list(st, node, None, v_y(None, 1), 0)),
                exc(s2, 'OSError', False, node)]

    def f_os_getcwd(self, st, args, kw, node, fid):
        return [(st, v_y(None, 1))]

    dirs = {}           # path -> names of files, for scenarios
    ext = {}            # name in an external module -> V, for scenarios
    environ = {}        # constant name -> V, for scenarios

    def f_os_environ_get(self, st, args, kw, node, fid):
        a = args[0].one if args else None
        if a and a[0] == 's' and a[1] in self.environ:
            e = self.environ[a[1]]
            return [(st, e if e is not None else args[1] if len(args) > 1
                     else V_NONE)]
        d = args[1] if len(args) > 1 else V_NONE
        return [(st, join_v(v_y(None, None), d))]

    f_os_getenv = f_os_environ_get

    def f_os_stat(self, st, args, kw, node, fid):
        s2 = st.copy()
        return [(st, v_unk('stat')), exc(s2, 'OSError', False, node)]

    # importlib
    def f_importlib_import_module(self, st, args, kw, node, fid):
        a = args[0].one
        if a and a[0] == 's':
            name = a[1]
            if name.startswith('.') and len(args) > 1 and args[1].one and (
                    args[1].one[0] == 's'):
                name = args[1].one[1] + name
            if self.loader.has(name) or self.loader.is_namespace(name):
                self.load_module(st, name)
                return [(st, V([('mod', name)]))]
        s2 = st.copy()
        return [(st, v_unk('module')),
                exc(s2, 'ImportError', False, node)]

    # re
    def f_re_compile(self, st, args, kw, node, fid):
        a = args[0].one
        if a and a[0] in ('s', 'by'):
            return [(st, V([('x', 're', a[1])]))]
        return [(st, v_unk('re'))]

    def re_fn(self, meth):
        def fn(st, args, kw, node, fid):
            a = args[0].one
            pat = a[1] if a and a[0] in ('s', 'by') else None
            s0 = []
            if pat is None and a and arb(sterm(a)):
                s0 = [exc(st.copy(), 're.error', True, node,
                          'input used as a regular expression')]
            return self.re_method(st, pat, meth, args[1:], kw, node) + s0
        return fn

    def f_re_match(self, st, args, kw, node, fid):
        return self.re_fn('match')(st, args, kw, node, fid)

    def f_re_search(self, st, args, kw, node, fid):
        return self.re_fn('search')(st, args, kw, node, fid)

    def f_re_fullmatch(self, st, args, kw, node, fid):
        return self.re_fn('fullmatch')(st, args, kw, node, fid)

    def f_re_sub(self, st, args, kw, node, fid):
        if args[0].one and args[0].one[0] in ('s', 'by'):
            return self.re_method(
                st, args[0].one[1], 'sub', args[1:], kw, node)
        return [(st, v_y())]

    def f_re_split(self, st, args, kw, node, fid):
        if args[0].one and args[0].one[0] in ('s', 'by'):
            return self.re_method(
                st, args[0].one[1], 'split', args[1:], kw, node)
        return [(st, self.mk_list(st, node, None, v_y(), 1))]

    def f_re_findall(self, st, args, kw, node, fid):
        if args[0].one and args[0].one[0] in ('s', 'by'):
            return self.re_method(
                st, args[0].one[1], 'findall', args[1:], kw, node)
        return [(st, self.mk_list(st, node, None, v_unk('find'), 0))]

    def f_re_escape(self, st, args, kw, node, fid):
        if any(x[0] in ('none', 'i', 'o') for x in args[0].a):
            return [exc(st, 'TypeError', True, node, 're.escape')]
        a = args[0].one
        if a and a[0] == 's':
            return [(st, v_str(re.escape(a[1])))]
        return [(st, v_y())]

    def re_parse(self, pat):
        """(number of groups, {group: (min width, optional)})"""
        try:
            p = sre_parse.parse(pat)
        except Exception:
            return None
        info = {}

        def walk(sub, opt):
            for op, av in sub:
                n = str(op)
                if n == 'SUBPATTERN':
                    g, body = av[0], av[-1]
                    if g is not None:
                        info[g] = (body.getwidth()[0], opt)
                    walk(body, opt)
                elif n in ('MAX_REPEAT', 'MIN_REPEAT',
                           'POSSESSIVE_REPEAT'):
                    walk(av[2], opt or av[0] == 0)
                elif n == 'BRANCH':
                    for b in av[1]:
                        walk(b, True)
                elif n in ('ASSERT', 'ASSERT_NOT'):
                    walk(av[1], opt)
                elif n == 'ATOMIC_GROUP':
                    walk(av, opt)
        walk(p, False)
        groups = p.state.groups if hasattr(p, 'state') else (
            p.pattern.groups)
        return groups - 1, info, dict(getattr(
            p, 'state', getattr(p, 'pattern', None)).groupdict), (
                p.getwidth()[0])

    def re_method(self, st, pat, meth, args, kw, node):
        if meth in ('match', 'search', 'fullmatch'):
            v = args[0]
            if any(x[0] in ('none', 'i', 't') for x in v.a):
                return [exc(st, 'TypeError', True, node,
                            're.{}() of {}'.format(meth, v))]
            if isinstance(pat, str) and any(
                    x[0] in BYT for x in v.a) or isinstance(
                        pat, bytes) and any(x[0] in STR for x in v.a):
                return [exc(st, 'TypeError', True, node,
                            'str/bytes regex mismatch')]
            a = v.one
            if a and a[0] in ('s', 'by') and pat is not None and (
                    self.concrete or True):
                try:
                    m = getattr(re.compile(pat), meth)(a[1])
                except Exception:
                    m = None
                if m is None:
                    return [(st, V_NONE)]
                return [(st, V([('x', 'match', pat, node_site(node),
                                 ('c',) + tuple([m.group(0)]) +
                                 m.groups())]))]
            t = sterm(a) if a else None
            key = ('re', t, pat, meth) if t is not None and (
                pat is not None) else None
            known = st.facts.get(key) if key else None
            info = self.re_parse(pat) if pat is not None else None
            if known is None and info and info[3] > 0 and a and (
                    self.atom_truth(st, a) is False):
                known = False
            res = []
            if known is not False:
                s = st.copy() if known is None else st
                if key:
                    s.facts[key] = True
                    if info and info[3] > 0:
                        s.facts[('ne', t)] = True
                res.append((s, V([('x', 'match', pat, node_site(node),
                                   ('y', t))])))
            if known is not True:
                if key:
                    st.facts[key] = False
                res.append((st, V_NONE))
            return res
        if meth in ('findall', 'split', 'sub') and pat is not None and all(
                v.one and v.one[0] in ('s', 'by') or
                self.int_of(v) is not None for v in args) and not kw:
            try:
                out = getattr(re.compile(pat), meth)(*[
                    self.int_of(v) if self.int_of(v) is not None else
                    v.one[1] for v in args])
            except Exception:
                out = None
            if out is not None:
                def const(x):
                    if isinstance(x, tuple):
                        return v_tuple([const(i) for i in x])
                    return (V_NONE if x is None else v_str(x) if isinstance(
                        x, str) else V([('by', x)]))
                if isinstance(out, list):
                    return [(st, self.mk_list(
                        st, node, [const(i) for i in out]))]
                return [(st, const(out))]
        if meth == 'findall':
            info = self.re_parse(pat) if pat is not None else None
            if info and info[0] > 1:
                e = v_tuple([v_y()] * info[0])
            else:
                e = v_y()
            return [(st, self.mk_list(st, node, None, e, 0))]
        if meth == 'split':
            return [(st, self.mk_list(st, node, None, v_y(), 1))]
        if meth in ('sub',):
            f = args[0]
            if f.one and f.one[0] in ('fn', 'bm'):
                m = V([('x', 'match', pat, node_site(node), ('y', None))])
                out = []
                for s, v in self.call(st.copy(), f, [m], {}, node):
                    if isinstance(v, X):
                        out.append((s, v))
                return [(st, v_y())] + out
            return [(st, v_y())]
        return [(st, v_unk('re'))]

    def match_group(self, st, a, keys, node, all_=False):
        _, _, pat, site, src = a
        info = self.re_parse(pat) if pat is not None else None
        if src[0] == 'c':
            vals = [pyconst(x) for x in src[1:]]
            if all_:
                return [(st, v_tuple(vals[1:]))]
            out = []
            for k in keys:
                n = self.int_of(k)
                if n is None and k.one and k.one[0] == 's' and info:
                    n = info[2].get(k.one[1])
                if n is None or n >= len(vals):
                    return [exc(st, 'IndexError', True, node, 'no group')]
                out.append(vals[n])
            return [(st, out[0] if len(out) == 1 else v_tuple(out))]

        def grp(n):
            if info is None:
                return v_unk('group')
            isb = isinstance(pat, bytes)
            if n == 0:
                return v_y(None, 1 if info[3] else None)
            w, opt = info[1].get(n, (0, True))
            term = ('sym', 'grp@{}#{}'.format(site, n))
            # The same group of the same match is the same text; the sym
            # is dropped when the match is done again.
            v = V([('yb' if isb else 'y', None, 1 if w else None)])
            if opt:
                v = join_v(v, V_NONE)
            return v
        if all_:
            if info is None:
                return [(st, v_unk('groups'))]
            return [(st, v_tuple([grp(i + 1) for i in range(info[0])]))]
        out = []
        for k in keys:
            n = self.int_of(k)
            if n is None and k.one and k.one[0] == 's' and info:
                n = info[2].get(k.one[1])
            if n is None:
                if info and k.one and k.one[0] == 's':
                    return [exc(st, 'IndexError', True, node, 'no group')]
                out.append(v_unk('group'))
                continue
            if info and n > info[0]:
                return [exc(st, 'IndexError', True, node, 'no group')]
            out.append(grp(n))
        if not out:
            out = [grp(0)]
        return [(st, out[0] if len(out) == 1 else v_tuple(out))]

    def f_contextlib_suppress(self, st, args, kw, node, fid):
        return [(st, V([('x', 'suppress', v_tuple(args))]))]

    def f_functools_partial(self, st, args, kw, node, fid):
        if kw:
            return [(st, v_unk('partial'))]
        return [(st, V([('x', 'partial', args[0]) + (tuple(args[1:]),
                                                     )]))]

    def f_itertools_chain(self, st, args, kw, node, fid):
        exact = [self.exact_items(st, v) for v in args]
        if all(e is not None for e in exact):
            return [(st, v_tuple([x for e in exact for x in e]))]
        es = [self.elem_of(st, v) for v in args]
        return [(st, self.mk_list(st, node, None, join_v(*es), 0))]

    def f_copy_copy(self, st, args, kw, node, fid):
        a = args[0].one
        if a and a[0] == 'o':
            o = self.obj(st, a[1])
            return [(st, self.new(st, node_site(node), o.rep(summ=False)))]
        return [(st, args[0])]

    f_copy_deepcopy = f_copy_copy

    # ------------------------------------------------------------------
    # methods
    # ------------------------------------------------------------------
    def method(self, st, a, args, kw, node, fid):
        _, base, name = a
        t = base[0]
        if t in STR:
            m = getattr(self, 'ms_' + name, None)
            if m:
                return m(st, base, args, kw, node)
            return self.str_other(st, base, name, args, kw, node)
        if t in BYT:
            if base[0] == 'by' and name != 'decode':
                r = self.bytes_const(st, base, name, args, kw, node)
                if r is not None:
                    return r
            m = getattr(self, 'mb_' + name, None)
            if m:
                return m(st, base, args, kw, node)
            return [(st, v_unk('bytes.' + name))]
        if t == 'o':
            o = self.obj(st, base[1])
            if o is None:
                return [(st, v_unk('dead'))]
            self.extcall(st, 'm:{}.{}'.format(o.kind, name), [V([base])] +
                         list(args), kw, node)
            m = getattr(self, 'm{}_{}'.format(
                {'list': 'l', 'dict': 'd', 'set': 'e', 'gen': 'g',
                 'iter': 'g', 'inst': 'o', 'ext': 'x'}.get(o.kind, 'q'),
                name), None)
            if m:
                return m(st, base, o, args, kw, node)
            if o.kind == 'list' and not hasattr(list, name) or (
                    o.kind == 'dict' and not hasattr(dict, name)) or (
                        o.kind == 'set' and not hasattr(set, name)):
                return [exc(st, 'AttributeError', True, node,
                            '{} has no {}'.format(o.kind, name))]
            return self.unknown_call(st, a, args, kw, node)
        if t == 'x':
            if base[1] == 're':
                return self.re_method(st, base[2], name, args, kw, node)
            if base[1] == 'match':
                if name == 'group':
                    return self.match_group(st, base, args, node)
                if name == 'groups':
                    return self.match_group(st, base, args, node, True)
                if name in ('start', 'end'):
                    return [(st, v_anyint(0))]
                return [(st, v_unk('match.' + name))]
            if base[1] == 'file':
                return self.file_method(st, base, name, args, kw, node)
            self.extcall(st, 'x:{}.{}'.format(base[1], name), args, kw,
                         node)
            h = self.hooks.get('x_call')
            if h:
                r = h(st, base, name, args, kw, node)
                if r is not None:
                    return r
            return self.unknown_call(st, a, args, kw, node)
        if t == 'superx':
            return self.superx(st, base, name, args, kw, node)
        if t == 'typesuper':
            if name == '__call__':
                cls = base[1][1]
                return self.call_class(st, cls, args, kw, node,
                                       meta_done=True)
            return [(st, v_unk('type.' + name))]
        if t == 'xcls':
            # str.lower(x), dict.fromkeys(..), object.__new__
            if (base[1] == 'type' and name == '__new__' and
                    self.pending_class):
                return [(st, V([('cls', self.pending_class[-1])]))]
            if args and name not in ('fromkeys', 'fromhex', 'maketrans'):
                res = []
                for s, x, v in self.split(st, args[0], lambda y: y):
                    if x[0] in ('s', 'y', 'by', 'yb', 'o'):
                        res.extend(self.method(
                            s, ('bx', x, name), args[1:], kw, node, fid))
                    else:
                        res.append((s, v_unk(name)))
                return res
            if name == 'fromkeys':
                items = self.exact_items(st, args[0])
                o = Obj('dict')
                v = args[1] if len(args) > 1 else V_NONE
                if items is None:
                    o = o.rep(elem=v, last=self.elem_of(st, args[0]))
                else:
                    for i in items:
                        o = self.dict_put(o, i, v)
                return [(st, self.new(st, node_site(node), o))]
            return [(st, v_unk(name))]
        if t in ('i', 'b'):
            return [(st, v_unk('int.' + name))]
        if t in ('t', 'tt'):
            c = [pyval(i) for i in base[1]] if t == 't' else [(False, 0)]
            c += [pyval(i) for i in args]
            if name in ('index', 'count') and all(ok for ok, _ in c):
                n = len(c) - len(args)
                try:
                    return [(st, v_int(getattr(tuple(
                        i for _, i in c[:n]), name)(*[
                            i for _, i in c[n:]])))]
                except ValueError:
                    return [exc(st, 'ValueError', True, node, 'not in tuple')]
            if name == 'index':
                s2 = st.copy()
                return [(st, v_anyint(0)), exc(s2, 'ValueError', False,
                                               node)]
            return [(st, v_anyint(0))]
        if t == 'cls':
            if name == '__subclasses__':
                return [(st, v_unk('subclasses'))]
            return self.unknown_call(st, a, args, kw, node)
        if t == 'prop':
            return [(st, V([base]))]
        return self.unknown_call(st, a, args, kw, node)

    def superx(self, st, base, name, args, kw, node):
        """Method of an external base class."""
        _, cls, selfatom = base
        if name == '__new__' and self.pending_class:
            return [(st, V([('cls', self.pending_class[-1])]))]
        if name in ('__init__', '__init_subclass__', '__setattr__'):
            o = self.obj(st, selfatom[1]) if selfatom[0] == 'o' else None
            if name == '__init__' and (args or kw) and o is not None and (
                    not self.ext_bases(o.cls)):
                return [exc(st, 'TypeError', True, node,
                            'object.__init__() takes no arguments')]
            if o is not None and o.kind == 'list' and args:
                return self.list_extend(st, selfatom[1], args[0], node,
                                        V_NONE)
            return [(st, V_NONE)]
        if selfatom[0] == 'o':
            o = self.obj(st, selfatom[1])
            if o.kind in ('list', 'dict', 'set'):
                m = getattr(self, 'm{}_{}'.format(
                    {'list': 'l', 'dict': 'd', 'set': 'e'}[o.kind], name),
                    None)
                if m:
                    return m(st, selfatom, o, args, kw, node)
                if name == '__getitem__' and o.kind == 'list':
                    return self.list_get(st, selfatom, o, args[0].one,
                                         node)
                if name == '__iter__':
                    return self.mkiter(st, node, 'iter', src=self.mk_list(
                        st, node, o.items, o.elem, o.lo))
                return [(st, v_unk(name))]
            if not self.ext_bases(o.cls) and 'open' not in o.tags:
                if name in ('__str__', '__repr__'):
                    return [(st, v_y(None, 1))]
                if name in ('__hash__',):
                    return [(st, v_anyint())]
                if name in ('__eq__', '__ne__'):
                    return self.bools(st)
                if not hasattr(object, name):
                    return [exc(st, 'AttributeError', True, node,
                                'super has no ' + name)]
        h = self.hooks.get('superx')
        if h:
            r = h(st, cls, selfatom, name, args, kw, node)
            if r is not None:
                return r
        return [(st, v_unk('super.' + name))]

    def file_method(self, st, base, name, args, kw, node):
        self.extcall(st, 'file.' + name, [V([base])] + list(args), kw, node)
        isb = 'b' in base[2]
        if name in ('read', 'readline', 'getvalue'):
            v = self.sym(st, 'in:{}@{}'.format(name, node_site(node)), 0,
                         'yb' if isb else 'y')
            return [(st, v)]
        if name == 'readlines':
            e = V([('yb' if isb else 'y', None, 1)])
            return [(st, self.mk_list(st, node, None, e, 0))]
        if name in ('write', 'flush', 'close', 'writelines', 'seek',
                    'truncate'):
            return [(st, V_NONE)]
        if name == '__iter__':
            return [(st, V([base]))]
        return [(st, v_unk('file.' + name))]

    def ext_iter(self, st, a, body, node):
        if a[1] == 'file':
            isb = 'b' in a[2]

            def elem(s):
                return self.sym(s, 'in:line@' + node_site(node), 1,
                                'yb' if isb else 'y')
            return self.for_summary(st, elem, 0, body, node)
        return super().ext_iter(st, a, body, node)

    # -- str -----------------------------------------------------------
    def strargs(self, st, args, node, what):
        """TypeErrors of arguments that are no strings."""
        for v in args:
            for x in v.a:
                if x[0] in ('none', 'i', 'by', 'yb'):
                    return exc(st, 'TypeError', True, node,
                               'str.{}() of {}'.format(what, x[0]))
                if x[0] == 'o':
                    o = self.obj(st, x[1])
                    if o.kind in ('list', 'dict', 'set') or (
                            o.cls and not self.ext_bases(o.cls)):
                        return exc(st, 'TypeError', True, node,
                                   'str.{}() of {}'.format(
                                       what, o.cls or o.kind))
        return None

    def const_call(self, base, name, args, kw):
        """The result when everything is constant, else None."""
        if base[0] not in ('s', 'by'):
            return None
        cs = []
        for v in args:
            ok, c = pyval(v)
            if not ok:
                return None
            cs.append(c)
        ks = {}
        for k, v in kw.items():
            ok, c = pyval(v)
            if not ok:
                return None
            ks[k] = c
        try:
            return (True, getattr(base[1], name)(*cs, **ks))
        except Exception as e:
            return (False, type(e).__name__)

    def bytes_const(self, st, base, name, args, kw, node):
        if name == 'join' and len(args) == 1 and not kw and self.exact:
            work = st.copy()
            res = []
            for s, lst in self.collect(work, args[0], node, site=(
                    'bj@' + node_site(node))):
                if isinstance(lst, X):
                    res.append((s, lst))
                    continue
                items = self.exact_items(s, lst)
                vals = [pyval(i) for i in items or ()]
                if items is None or not all(
                        ok and isinstance(i, bytes) for ok, i in vals):
                    return None
                res.append((s, pyconst(base[1].join(i for ok, i in vals))))
            return res
        r = self.const_call(base, name, args, kw)
        if r is None:
            return None
        if not r[0]:
            return [exc(st, r[1], True, node, 'bytes.' + name)]
        if isinstance(r[1], list):
            return [(st, self.mk_list(st, node, [pyconst(i) for i in r[1]]))]
        return [(st, pyconst(r[1]))]

    def str_other(self, st, a, name, args, kw, node):
        r = self.const_call(a, name, args, kw)
        if r is not None and r[0]:
            v = pyconst(r[1])
            return [(st, v)]
        if r is not None:
            return [exc(st, r[1], True, node, name)]
        if name in ('ljust', 'rjust', 'center', 'zfill', 'expandtabs',
                    'title', 'capitalize', 'swapcase', 'replace',
                    'casefold', 'translate', 'removeprefix',
                    'removesuffix'):
            if name == 'replace' and len(args) >= 2:
                e = self.strargs(st, args[:2], node, name)
                if e:
                    return [e]
                old = args[0].one
                if old and old[0] == 's' and self.known_in(
                        st, old[1], a) is False:
                    return [(st, V([a]))]
            return [(st, v_y())]
        return [(st, v_unk('str.' + name))]

    def ms_lower(self, st, a, args, kw, node, name='lower'):
        if a[0] == 's':
            return [(st, v_str(getattr(a[1], name)()))]
        t = mkterm('lower', a[1], name) if a[1] is not None else None
        if a[1] is not None and isinstance(a[1], tuple) and (
                a[1][0] == 'lower' and a[1][2] == name):
            return [(st, V([a]))]
        tr = self.atom_truth(st, a)
        if tr is not None and t is not None:
            st.facts[('ne', t)] = tr
        return [(st, v_y(t, a[2]))]

    def ms_upper(self, st, a, args, kw, node):
        return self.ms_lower(st, a, args, kw, node, 'upper')

    def strip(self, st, a, args, kw, node, side):
        r = self.const_call(a, side, args, kw)
        if r is not None and r[0]:
            return [(st, v_str(r[1]))]
        e = self.strargs(st, [v for v in args if v != V_NONE], node, side)
        if e:
            return [e]
        chars = None
        if not args or args[0] == V_NONE:
            chars = string.whitespace
        elif args[0].one and args[0].one[0] == 's':
            chars = args[0].one[1]
        if self.atom_truth(st, a) is False:
            return [(st, v_str(''))]
        base = sterm(a)
        t = mkterm('strip', base, side, chars) if (
            base is not None and chars is not None) else None
        if t is not None and isinstance(base, tuple) and (
                base[:1] == ('strip',) and base[2] == side and
                base[3] == chars):
            return [(st, V([a]))]
        # nothing to strip?
        if t is not None and self.atom_truth(st, a) is True:
            sw = ew = None
            for k, v in st.facts.items():
                if len(k) == 3 and k[1] == base and v is True:
                    if k[0] == 'sw' and k[2]:
                        sw = k[2][0] not in chars
                    if k[0] == 'ew' and k[2]:
                        ew = k[2][-1] not in chars
            if (side == 'lstrip' and sw) or (side == 'rstrip' and ew) or (
                    sw and ew):
                return [(st, V([a]))]
            if sw or ew:
                return [(st, v_y(t, 1))]
        return [(st, v_y(t, 0 if arb(base) else None))]

    def ms_strip(self, st, a, args, kw, node):
        return self.strip(st, a, args, kw, node, 'strip')

    def ms_lstrip(self, st, a, args, kw, node):
        return self.strip(st, a, args, kw, node, 'lstrip')

    def ms_rstrip(self, st, a, args, kw, node):
        return self.strip(st, a, args, kw, node, 'rstrip')

    def swew(self, st, a, args, kw, node, name):
        kind = 'sw' if name == 'startswith' else 'ew'
        if len(args) != 1:
            return self.bools(st)
        res = []
        for s, x, v in self.split(st, args[0], lambda y: y):
            if x[0] == 't':
                cs = []
                for i in x[1]:
                    if i.one and i.one[0] == 's':
                        cs.append(i.one[1])
                    else:
                        cs = None
                        break
                if cs is None:
                    res.extend(self.bools(s))
                    continue
                # fold
                states = [s]
                for c in cs:
                    nx = []
                    for s2 in states:
                        for s3, b in self.swew1(s2, a, c, kind, name):
                            if b:
                                res.append((s3, V_TRUE))
                            else:
                                nx.append(s3)
                    states = nx
                res.extend((s2, V_FALSE) for s2 in states)
                continue
            if x[0] == 's':
                res.extend((s2, V_TRUE if b else V_FALSE) for s2, b in
                           self.swew1(s, a, x[1], kind, name))
                continue
            if x[0] in ('tt', 'y', 'unk', 'x'):
                res.extend(self.bools(s))
                continue
            res.append(exc(s, 'TypeError', True, node, '{}() of {}'.format(
                name, x[0])))
        return res

    def swew1(self, st, a, c, kind, name):
        if a[0] == 's':
            return [(st, getattr(a[1], name)(c))]
        if c == '':
            return [(st, True)]
        if self.atom_truth(st, a) is False:
            return [(st, False)]
        t = a[1]
        if t is None:
            s2 = st.copy()
            return [(st, True), (s2, False)]
        key = (kind, t, c)
        known = st.facts.get(key)
        if known is None:
            for ch in set(c):
                if self.term_in(st, ch, t) is False:
                    known = False
            for k, v in st.facts.items():
                if len(k) == 3 and k[0] == kind and k[1] == t:
                    if v is True:
                        d = k[2]
                        if getattr(d, name)(c):
                            known = True
                        elif not getattr(c, name)(d):
                            known = False
                    elif getattr(c, name)(k[2]):
                        known = False
            # first or last char
            n = 0 if kind == 'sw' else -1
            for k, v in st.facts.items():
                if k[0] == 'eq' and k[1] == ('ch', t, n) and isinstance(
                        k[2], str):
                    if v is True and len(c) == 1:
                        known = (k[2] == c)
                    elif v is True and c[n] != k[2]:
                        known = False
                    elif v is False and c[n] == k[2]:
                        known = False
            if isinstance(t, tuple) and t[0] == 'strip' and t[3]:
                if kind == 'sw' and t[2] in ('strip', 'lstrip') and (
                        c[0] in t[3]):
                    known = False
                if kind == 'ew' and t[2] in ('strip', 'rstrip') and (
                        c[-1] in t[3]):
                    known = False
        if known is not None:
            return [(st, known)]
        s2 = st.copy()
        st.facts[key] = True
        st.facts[('ne', t)] = True
        s2.facts[key] = False
        return [(st, True), (s2, False)]

    def ms_startswith(self, st, a, args, kw, node):
        return self.swew(st, a, args, kw, node, 'startswith')

    def ms_endswith(self, st, a, args, kw, node):
        return self.swew(st, a, args, kw, node, 'endswith')

    def ms_isdecimal(self, st, a, args, kw, node, fact='isdec',
                     name='isdecimal'):
        if a[0] == 's':
            return [(st, V_TRUE if getattr(a[1], name)() else V_FALSE)]
        if self.atom_truth(st, a) is False:
            return [(st, V_FALSE)]
        t = a[1]
        if t is None:
            return self.bools(st)
        known = st.facts.get((fact, t))
        if known is None and fact == 'isdig' and st.facts.get(
                ('isdec', t)):
            known = True
        if known is None:
            for k, v in st.facts.items():
                if k[0] in ('sw', 'ew', 'in') and v is True:
                    c = k[2] if k[0] != 'in' else k[1]
                    tt = k[1] if k[0] != 'in' else k[2]
                    if tt == t and isinstance(c, str) and c and not (
                            getattr(c, name)()):
                        known = False
        if known is not None:
            return [(st, V_TRUE if known else V_FALSE)]
        s2 = st.copy()
        st.facts[(fact, t)] = True
        st.facts[('ne', t)] = True
        s2.facts[(fact, t)] = False
        return [(st, V_TRUE), (s2, V_FALSE)]

    def ms_isdigit(self, st, a, args, kw, node):
        return self.ms_isdecimal(st, a, args, kw, node, 'isdig', 'isdigit')

    def ms_isnumeric(self, st, a, args, kw, node):
        return self.ms_isdecimal(st, a, args, kw, node, 'isnum',
                                 'isnumeric')

    def ms_isalnum(self, st, a, args, kw, node):
        return self.ms_isdecimal(st, a, args, kw, node, 'isalnum',
                                 'isalnum')

    def ms_isalpha(self, st, a, args, kw, node):
        return self.ms_isdecimal(st, a, args, kw, node, 'isalpha',
                                 'isalpha')

    def ms_isspace(self, st, a, args, kw, node):
        return self.ms_isdecimal(st, a, args, kw, node, 'isspace',
                                 'isspace')

    def ms_isupper(self, st, a, args, kw, node):
        return self.ms_isdecimal(st, a, args, kw, node, 'isupper',
                                 'isupper')

    def ms_islower(self, st, a, args, kw, node):
        return self.ms_isdecimal(st, a, args, kw, node, 'islower',
                                 'islower')

    def ms_isidentifier(self, st, a, args, kw, node):
        return self.ms_isdecimal(st, a, args, kw, node, 'isident',
                                 'isidentifier')

    def found(self, st, a, sep, ev_ok=True):
        """[(st, bool, evidence)] whether sep is in the string."""
        if sep is None:
            s2 = st.copy()
            return [(st, True, False), (s2, False, False)]
        k = self.known_in(st, sep, a)
        if k is not None:
            return [(st, k, True)]
        if a[1] is None:
            s2 = st.copy()
            return [(st, True, False), (s2, False, False)]
        s2 = st.copy()
        st.facts[('in', sep, a[1])] = True
        st.facts[('ne', a[1])] = True
        s2.facts[('in', sep, a[1])] = False
        ev = arb(a[1]) and not any(
            f[0] == 're' and v is True and f[1] == a[1]
            for f, v in st.facts.items())
        return [(st, True, ev), (s2, False, ev)]

    def find(self, st, a, args, kw, node, name):
        r = self.const_call(a, name, args, kw)
        if r is not None:
            if r[0]:
                return [(st, v_int(r[1]))]
            return [exc(st, r[1], True, node, name)]
        e = self.strargs(st, args[:1], node, name)
        if e:
            return [e]
        x = args[0].one
        sep = x[1] if x and x[0] == 's' else None
        base = sterm(a)
        res = []
        whole = len(args) == 1 or (len(args) == 2 and self.int_of(
            args[1]) == 0)
        if not whole:
            # from some position on
            known = self.known_in(st, sep, a) if sep is not None else None
            s2 = st.copy()
            if known is not False:
                res.append((st, V([('i', 0, None, mkterm(
                    'idx', base, sep) if base is not None and sep is not
                    None else None)])))
            ev = arb(base)
            if name in ('find', 'rfind'):
                res.append((s2, v_int(-1)))
            else:
                res.append(exc(s2, 'ValueError', ev, node,
                               'substring not found'))
            return res
        for s, b, ev in self.found(st, a, sep):
            if b:
                lo = 0
                if name in ('index', 'find') and sep is not None and (
                        base is not None) and any(
                            k[0] == 'sw' and k[1] == base and v is False
                            and k[2] == sep for k, v in s.facts.items()):
                    lo = 1
                res.append((s, V([('i', lo, None, mkterm(
                    'idx', base, sep if name in ('index', 'find') else
                    ('r', sep)) if base is not None and sep is not None
                    else None)])))
            elif name in ('find', 'rfind'):
                res.append((s, v_int(-1)))
            else:
                res.append(exc(s, 'ValueError', ev, node,
                               'substring not found'))
        return res

    def ms_index(self, st, a, args, kw, node):
        return self.find(st, a, args, kw, node, 'index')

    def ms_rindex(self, st, a, args, kw, node):
        return self.find(st, a, args, kw, node, 'rindex')

    def ms_find(self, st, a, args, kw, node):
        return self.find(st, a, args, kw, node, 'find')

    def ms_rfind(self, st, a, args, kw, node):
        return self.find(st, a, args, kw, node, 'rfind')

    def ms_count(self, st, a, args, kw, node):
        r = self.const_call(a, 'count', args, kw)
        if r is not None and r[0]:
            return [(st, v_int(r[1]))]
        x = args[0].one
        res = []
        for s, b, ev in self.found(st, a, x[1] if x and x[0] == 's'
                                   else None):
            res.append((s, v_anyint(1) if b else v_int(0)))
        return res

    def partition(self, st, a, args, kw, node, right):
        name = 'rpartition' if right else 'partition'
        r = self.const_call(a, name, args, kw)
        if r is not None and r[0]:
            return [(st, pyconst(r[1]))]
        e = self.strargs(st, args[:1], node, name)
        if e:
            return [e]
        x = args[0].one
        sep = x[1] if x and x[0] == 's' else None
        if sep == '':
            return [exc(st, 'ValueError', True, node, 'empty separator')]
        res = []
        av = V([a])
        for s, b, ev in self.found(st, a, sep):
            if b:
                tag = 1 if right else 0
                p = self.piece(s, a, 'part', sep, -2 if right else 0) \
                    if sep is not None else v_y()
                q = self.piece(s, a, 'part', sep, -1 if right else 1) \
                    if sep is not None else v_y()
                del tag
                res.append((s, v_tuple([
                    p, v_str(sep) if sep is not None else v_y(None, 1),
                    q])))
            elif right:
                res.append((s, v_tuple([v_str(''), v_str(''), av])))
            else:
                res.append((s, v_tuple([av, v_str(''), v_str('')])))
        return res

    def ms_partition(self, st, a, args, kw, node):
        return self.partition(st, a, args, kw, node, False)

    def ms_rpartition(self, st, a, args, kw, node):
        return self.partition(st, a, args, kw, node, True)

    def split_(self, st, a, args, kw, node, right):
        name = 'rsplit' if right else 'split'
        r = self.const_call(a, name, args, kw)
        if r is not None:
            if r[0]:
                return [(st, self.mk_list(
                    st, node, [pyconst(i) for i in r[1]]))]
            return [exc(st, r[1], True, node, name)]
        sepv = a0(args, kw, 0, 'sep', V_NONE)
        e = self.strargs(st, [sepv] if not sepv.has('none') else [], node,
                         name)
        if e:
            return [e]
        mx = a0(args, kw, 1, 'maxsplit')
        n = self.int_of(mx) if mx is not None else -1
        x = sepv.one
        if x is None or x[0] not in ('s',):
            if x is not None and x[0] == 'none':
                lo = 0
                elem = v_y(None, 1)
            else:
                lo = 1
                elem = v_y(None, 0 if arb(sterm(a)) else None)
            return [(st, self.mk_list(
                st, node, None, elem, lo, tags=frozenset(['arb'])
                if arb(sterm(a)) else frozenset()))]
        sep = x[1]
        if sep == '':
            return [exc(st, 'ValueError', True, node, 'empty separator')]
        av = V([a])
        if n == 0:
            return [(st, self.mk_list(st, node, [av]))]
        res = []
        isarb = arb(sterm(a))
        for s, b, ev in self.found(st, a, sep):
            if not b:
                if ev or not isarb and self.known_in(
                        s, sep, a) is not None:
                    res.append((s, self.mk_list(s, node, [av])))
                else:
                    res.append((s, self.mk_list(s, node, [av])))
                    s.ts = s.ts
                continue
            if n == 1:
                if right:
                    items = [self.piece(s, a, 'part', sep, -2),
                             self.piece(s, a, 'part', sep, -1)]
                else:
                    items = [self.piece(s, a, 'part', sep, 0),
                             self.piece(s, a, 'part', sep, 1)]
                res.append((s, self.mk_list(s, node, items)))
                continue
            ne = 0 if isarb else None
            last = None
            res.append((s, self.mk_list(
                s, node, None, v_y(None, ne), 2, last=last,
                tags=frozenset(['arb']) if isarb else frozenset())))
        if not isarb and any(not x[2] for x in self.found(
                st.copy(), a, sep)) and len(res) == 2:
            # we know too little of the string: no evidence
            lists = [self.obj(s, v.one[1]) for s, v in res]
            del lists
            s, v = res[1]
            s0, v0 = res[0]
            elem = v_y(None, None)
            return [(st, self.mk_list(st, node, None, elem, 1))] if (
                False) else res
        return res

    def ms_split(self, st, a, args, kw, node):
        return self.split_(st, a, args, kw, node, False)

    def ms_rsplit(self, st, a, args, kw, node):
        return self.split_(st, a, args, kw, node, True)

    def ms_splitlines(self, st, a, args, kw, node):
        return [(st, self.mk_list(st, node, None, v_y(), 0))]

    def ms_join(self, st, a, args, kw, node):
        if args and args[0].one and args[0].one[0] in STR:
            return [(st, v_y(None, None))]
        res = []
        src = args[0]
        for s, lst in self.collect(st, src, node):
            if isinstance(lst, X):
                res.append((s, lst))
                continue
            items = self.exact_items(s, lst)
            e = self.obj(s, lst.one[1]).all_elem() if (
                lst.one[0] == 'o') else None
            bad = []
            if e is not None:
                for x in e.a:
                    if x[0] in ('none', 'i', 't', 'by', 'yb'):
                        bad.append(x[0])
                    elif x[0] == 'o':
                        o = self.obj(s, x[1])
                        if o.kind != 'inst' or (
                                o.cls and not self.ext_bases(o.cls) and
                                'open' not in o.tags):
                            bad.append(o.cls or o.kind)
            if bad:
                only = e is not None and all(
                    x[0] in ('none', 'i', 't', 'by', 'yb') or x[0] == 'o'
                    for x in e.a)
                s2 = s if only else s.copy()
                res.append(exc(s2, 'TypeError', True, node,
                               'join of {}'.format(bad[0])))
                if only:
                    continue
            if items is not None and all(
                    i.one and i.one[0] == 's' for i in items) and (
                        a[0] == 's'):
                res.append((s, v_str(a[1].join(i.one[1] for i in items))))
                continue
            if items is not None and len(items) == 1:
                res.append((s, items[0]))
                continue
            if items is not None and len(items) == 0:
                res.append((s, v_str('')))
                continue
            o = self.obj(s, lst.one[1])
            ne = None
            if items is not None and any(self.surely_ne(s, i)
                                         for i in items):
                ne = 1
            elif items is None and o.lo >= 1 and o.elem is not None and (
                    self.surely_ne(s, o.elem)):
                ne = 1
            if items is not None:
                res.append((s, self.fmt_result(s, ['join', str(a[1])],
                                               items, ne)))
            else:
                res.append((s, v_y(None, ne)))
        return res

    def ms_encode(self, st, a, args, kw, node):
        return self.encode(st, V([a]), a0(args, kw, 0, 'encoding'),
                           a0(args, kw, 1, 'errors'), node)

    LOSSLESS = ('utf-8', 'utf8', 'utf-16', 'utf-32', 'utf_8')

    def enc_name(self, v):
        if v is None:
            return 'utf-8'
        a = v.one
        return a[1].lower() if a and a[0] == 's' else None

    def strict(self, errors):
        if errors is None:
            return True
        a = errors.one
        if a and a[0] == 's':
            return a[1] == 'strict'
        return None

    def encode(self, st, v, enc, errors, node):
        res = []
        for s, a, av in self.split(st, v, lambda x: x):
            if a[0] not in STR:
                if a[0] in ('unk', 'x'):
                    res.append((s, V([('yb', None, None)])))
                else:
                    res.append(exc(s, 'TypeError', True, node, 'encode'))
                continue
            e = self.enc_name(enc)
            if a[0] == 's' and e and self.strict(errors):
                try:
                    res.append((s, V([('by', a[1].encode(e))])))
                except Exception as ex:
                    res.append(exc(s, type(ex).__name__, True, node))
                continue
            if a[0] == 's' and e and errors is not None and (
                    errors.one and errors.one[0] == 's'):
                try:
                    res.append((s, V([('by', a[1].encode(
                        e, errors.one[1]))])))
                    continue
                except Exception:
                    pass
            t = mkterm('enc', sterm(a), e) if sterm(a) is not None and e \
                else None
            ne = a[2] if a[0] == 'y' else None
            if a[0] == 'y' and self.atom_truth(s, a) is not None:
                tr = self.atom_truth(s, a)
                if t is not None:
                    s.facts[('ne', t)] = tr
            ok = V([('yb', t, ne)])
            if e is not None and e not in self.LOSSLESS and self.strict(
                    errors) and not (e == 'ascii' and False):
                s2 = s.copy()
                res.append((s, ok))
                ev = arb(sterm(a)) and a[0] == 'y'
                res.append(exc(s2, 'UnicodeEncodeError', ev, node,
                               'encode to {}'.format(e)))
                continue
            if e in self.LOSSLESS and self.strict(errors) and (
                    s.facts.get(('surr', sterm(a)))):
                s2 = s.copy()
                res.append(exc(s2, 'UnicodeEncodeError', True, node,
                               'surrogates'))
            res.append((s, ok))
        return res

    def decode(self, st, v, enc, errors, node):
        res = []
        for s, a, av in self.split(st, v, lambda x: x):
            if a[0] not in BYT:
                if a[0] in ('unk', 'x', 'o'):
                    res.append((s, v_y()))
                else:
                    res.append(exc(s, 'TypeError', True, node, 'decode'))
                continue
            e = self.enc_name(enc)
            if a[0] == 'by' and e and (errors is None or (
                    errors.one and errors.one[0] == 's')):
                try:
                    res.append((s, v_str(a[1].decode(
                        e, errors.one[1] if errors is not None else
                        'strict'))))
                except Exception as ex:
                    res.append(exc(s, type(ex).__name__, True, node))
                continue
            src = sterm(a)
            key = ('dec', src, e) if src is not None and e else None
            isarb = arb(src) and a[0] == 'yb'
            # A decoded line is input text again.
            t = None
            if src is not None and e and isinstance(src, tuple):
                if src[0] == 'sym':
                    t = ('sym', src[1] + '/' + e)
                    s.syms = s.syms | {t}
                else:
                    t = mkterm('dec', src, e)
            tr = self.atom_truth(s, a)
            if t is not None and tr is not None:
                s.facts[('ne', t)] = tr
            ok = v_y(t, a[2] if a[0] == 'yb' else None)
            if self.strict(errors) and e not in ('latin1', 'latin-1',
                                                 'iso-8859-1',
                                                 'iso8859-1'):
                known = s.facts.get(key) if key else None
                if known is True:
                    res.append((s, ok))
                    continue
                s2 = s.copy()
                if key:
                    s.facts[key] = True
                    s2.facts[key] = False
                if known is None:
                    res.append((s, ok))
                res.append(exc(s2, 'UnicodeDecodeError', bool(isarb), node,
                               'strict decode from {}'.format(e)))
                continue
            res.append((s, ok))
        return res

    def ms_format(self, st, a, args, kw, node):
        if a[0] != 's':
            if arb(sterm(a)):
                s2 = st.copy()
                return [(st, v_y()), exc(s2, 'KeyError', True, node,
                                         'input used as a format string')]
            return [(st, v_y())]
        return self.do_format(st, a[1], args, kw, node)

    def do_format(self, st, fmt, args, kw, node):
        try:
            parts = list(string.Formatter().parse(fmt))
        except ValueError:
            return [exc(st, 'ValueError', True, node, 'bad format string')]
        auto = 0
        used = []
        lit = ''
        for text, field, spec, conv in parts:
            lit += text
            if field is None:
                continue
            name = re.match(r'^[^.\[]*', field).group(0)
            rest = field[len(name):]
            if name == '':
                idx = auto
                auto += 1
            elif name.isdigit():
                idx = int(name)
            else:
                idx = name
            if isinstance(idx, int):
                if idx >= len(args):
                    return [exc(st, 'IndexError', True, node,
                                'format {!r} needs argument {}'.format(
                                    fmt, idx))]
                v = args[idx]
            else:
                if idx not in kw:
                    return [exc(st, 'KeyError', True, node,
                                'format {!r} needs {!r}'.format(fmt, idx))]
                v = kw[idx]
            used.append((v, rest, spec, conv))
        res = []
        states = [(st, [])]
        for v, rest, spec, conv in used:
            nx = []
            for s, vals in states:
                cur = [(s, v)]
                for m in re.findall(r'\.(\w+)', rest):
                    n2 = []
                    for s2, v2 in cur:
                        if isinstance(v2, X):
                            n2.append((s2, v2))
                        else:
                            n2.extend(self.getattr(s2, v2, m, node))
                    cur = n2
                for s2, v2 in cur:
                    if isinstance(v2, X):
                        res.append((s2, v2))
                        continue
                    if '[' in rest:
                        nx.append((s2, vals + [v_y()]))
                        continue
                    if spec and spec[-1:] in 'dxXob' and any(
                            x[0] in ('s', 'y', 'none') for x in v2.a):
                        s3 = s2.copy()
                        res.append(exc(s3, 'ValueError', True, node,
                                       'format :{} of string'.format(
                                           spec)))
                        continue
                    if spec and any(x[0] == 'none' for x in v2.a):
                        s3 = s2.copy()
                        res.append(exc(s3, 'TypeError', True, node,
                                       'format spec on None'))
                    for s3, r in self.to_str(s2, v2, node, conv == 'r'):
                        if isinstance(r, X):
                            res.append((s3, r))
                        else:
                            nx.append((s3, vals + [
                                r if not spec else self.with_spec(
                                    v2, r, spec, conv)]))
            if len(nx) > self.CAP:
                nx = [(o[1], o[2]) for o in self.merge_fmt(nx)]
            states = nx
        for s, vals in states:
            if all(v.one and v.one[0] == 's' for v in vals):
                out, it = '', iter(vals)
                for text, field, spec, conv in parts:
                    out += text
                    if field is not None:
                        out += next(it).one[1]
                res.append((s, v_str(out)))
            else:
                ne = 1 if lit or any(self.surely_ne(s, v) for v in vals) \
                    else None
                if fmt == '{}' and len(vals) == 1:
                    res.append((s, vals[0]))
                else:
                    res.append((s, self.fmt_result(s, [fmt], vals, ne)))
        return res

    def with_spec(self, v, text, spec, conv):
        ok, c = pyval(text if conv else v)
        if ok and '{' not in spec:
            try:
                return v_str(format(c, spec))
            except (ValueError, TypeError):
                pass
        return v_y()

    def merge_fmt(self, nx):
        outs = [('n', s, v_tuple(vals)) for s, vals in nx]
        return [(k, s, list(v.one[1]) if v.one else [])
                for k, s, v in self.merge_cap(outs) if v.one]

    def ms_format_map(self, st, a, args, kw, node):
        return [(st, v_y())]

    # -- bytes ---------------------------------------------------------
    def mb_decode(self, st, a, args, kw, node):
        return self.decode(st, V([a]), a0(args, kw, 0, 'encoding'),
                           a0(args, kw, 1, 'errors'), node)

    def mb_startswith(self, st, a, args, kw, node):
        r = self.const_call(a, 'startswith', args, kw)
        if r and r[0]:
            return [(st, V_TRUE if r[1] else V_FALSE)]
        for v in args:
            if any(x[0] in STR for x in v.a):
                return [exc(st, 'TypeError', True, node, 'bytes/str')]
        return self.bools(st)

    mb_endswith = mb_startswith

    def mb_strip(self, st, a, args, kw, node):
        return [(st, V([('yb', None, None)]))]

    mb_rstrip = mb_lstrip = mb_replace = mb_lower = mb_upper = mb_strip
    mb_join = mb_strip

    def mb_index(self, st, a, args, kw, node):
        s2 = st.copy()
        return [(st, v_anyint(0)), exc(s2, 'ValueError', arb(sterm(a)),
                                       node, 'subsection not found')]

    def mb_find(self, st, a, args, kw, node):
        return [(st, v_anyint(-1))]

    def mb_split(self, st, a, args, kw, node):
        return [(st, self.mk_list(st, node, None, V([('yb', None, None)]),
                                  1, tags=frozenset(['arb']) if arb(
                                      sterm(a)) else frozenset()))]

    def mb_partition(self, st, a, args, kw, node):
        b = V([('yb', None, None)])
        return [(st, v_tuple([b, b, b]))]

    # -- list ----------------------------------------------------------
    def ml_append(self, st, a, o, args, kw, node):
        h = self.hooks.get('append')
        if h:
            h(st, a, args[0], node)
        self.put(st, a[1], self.list_append(o, args[0]))
        return [(st, V_NONE)]

    def ml_extend(self, st, a, o, args, kw, node):
        h = self.hooks.get('append')
        if h:
            h(st, a, self.elem_of(st, args[0]), node)
        return self.list_extend(st, a[1], args[0], node, V_NONE)

    def list_extend(self, st, oid, src, node, result):
        """lst.extend(src); runs generators."""
        res = []
        for s, x, v in self.split(st, src, lambda y: y):
            if x[0] in ('none', 'i', 'b'):
                res.append(exc(s, 'TypeError', True, node,
                               '{} is not iterable'.format(x[0])))
                continue
            for s2, lst in self.seq(s, [v], node, 'list'):
                if isinstance(lst, X):
                    res.append((s2, lst))
                    continue
                o = self.obj(s2, oid)
                x = self.obj(s2, lst.one[1])
                if o is None:
                    res.append((s2, result))
                    continue
                if o.items is not None and x.items is not None and (
                        not o.summ and len(o.items) + len(x.items) < 400):
                    self.put(s2, oid, o.rep(items=o.items + x.items))
                else:
                    es = [e for e in (o.all_elem(), x.all_elem())
                          if e is not None]
                    if es:
                        lo = len(o.items) if o.items is not None else o.lo
                        lx = len(x.items) if x.items is not None else x.lo
                        last = x.items[-1] if x.items else (
                            x.last if lx else None)
                        tags = o.tags
                        self.put(s2, oid, o.rep(
                            items=None, elem=join_v(*es),
                            lo=min(lo + lx, 9), last=last, tags=tags))
                res.append((s2, result))
        return res

    def ml_insert(self, st, a, o, args, kw, node):
        n = self.int_of(args[0])
        if o.items is not None and not o.summ and n is not None:
            items = list(o.items)
            items.insert(n, args[1])
            self.put(st, a[1], o.rep(items=tuple(items)))
        else:
            e = o.all_elem()
            self.put(st, a[1], o.rep(
                items=None, elem=args[1] if e is None else join_v(
                    e, args[1]),
                lo=(len(o.items) if o.items is not None else o.lo) + 1,
                last=None))
        return [(st, V_NONE)]

    def ml_pop(self, st, a, o, args, kw, node):
        k = self.int_of(args[0]) if args else -1
        if o.items is not None and not o.summ:
            if not o.items:
                return [exc(st, 'IndexError', True, node,
                            'pop from empty list')]
            if k is not None:
                if not -len(o.items) <= k < len(o.items):
                    return [exc(st, 'IndexError', True, node, 'pop')]
                items = list(o.items)
                v = items.pop(k)
                self.put(st, a[1], o.rep(items=tuple(items)))
                return [(st, v)]
            e = o.all_elem()
            self.put(st, a[1], o.rep(items=None, elem=e, last=None,
                                     lo=len(o.items) - 1))
            return [(st, V(e.a))]
        e = o.all_elem()
        if e is None:
            return [exc(st, 'IndexError', True, node,
                        'pop from empty list')]
        v = V(e.a)
        if o.summ:
            return [(st, v)]
        if k == -1 and o.last is not None and o.lo >= 1:
            v = o.last
        if o.lo >= 1:
            self.put(st, a[1], o.rep(
                lo=o.lo - 1, last=o.last if k == 0 and o.lo > 1 else None))
            return [(st, v)]
        s2 = st.copy()
        ev = 'arb' in o.tags
        self.put(st, a[1], o.rep(lo=0, last=None))
        return [(st, v), exc(s2, 'IndexError', ev, node,
                             'pop from a list that may be empty')]

    ml_popleft = ml_pop

    def ml_remove(self, st, a, o, args, kw, node):
        res = []
        e = o.all_elem()
        if e is None:
            return [exc(st, 'ValueError', True, node, 'not in list')]
        n = len(o.items) if o.items is not None else o.lo
        kt = self.keyterm(args[0])
        known = st.facts.get(('has', a[1], kt)) if kt is not None else None
        if o.items is not None and any(
                i is args[0] or (i == args[0] and i.one and const_of(
                    i.one)[0]) for i in o.items):
            items = list(o.items)
            for n, i in enumerate(items):
                if i is args[0] or i == args[0]:
                    del items[n]
                    break
            self.put(st, a[1], o.rep(items=tuple(items)))
            return [(st, V_NONE)]
        if known is not True:
            s2 = st.copy()
            res.append(exc(s2, 'ValueError', False, node, 'not in list'))
        if known is not False:
            self.put(st, a[1], o.rep(items=None, elem=e, lo=max(0, n - 1),
                                     last=None))
            res.append((st, V_NONE))
        return res

    def ml_index(self, st, a, o, args, kw, node):
        kt = self.keyterm(args[0])
        if o.items is not None and not o.items:
            return [exc(st, 'ValueError', True, node, 'not in list')]
        c = self.const_items(o)
        ok, w = pyval(args[0])
        ns = [self.int_of(i) for i in args[1:]]
        if c is not None and ok and None not in ns:
            try:
                return [(st, v_int(c.index(w, *ns)))]
            except ValueError:
                return [exc(st, 'ValueError', True, node, 'not in list')]
        known = st.facts.get(('has', a[1], kt)) if kt is not None else None
        if known is True:
            return [(st, v_anyint(0, None, ('idx', ('oid', a[1]), 0)))]
        s2 = st.copy()
        ev = 'arb' in o.tags
        return [(st, v_anyint(0, None, ('idx', ('oid', a[1]), 0))),
                exc(s2, 'ValueError', ev, node, 'not in list')]

    def const_items(self, o):
        """The elements as Python values, if all are constants."""
        if o.items is None or o.summ:
            return None
        out = []
        for i in o.items:
            ok, c = pyval(i)
            if not ok:
                return None
            out.append(c)
        return out

    def ml_count(self, st, a, o, args, kw, node):
        c = self.const_items(o)
        ok, w = pyval(args[0])
        if c is not None and ok:
            return [(st, v_int(c.count(w)))]
        return [(st, v_anyint(0))]

    def ml_sort(self, st, a, o, args, kw, node):
        return [(s, v if isinstance(v, X) else V_NONE)
                for s, v in self.sort_list(st, V([a]), kw, node)]

    def ml_reverse(self, st, a, o, args, kw, node):
        if o.items is not None:
            self.put(st, a[1], o.rep(items=tuple(reversed(o.items))))
        else:
            self.put(st, a[1], o.rep(last=None))
        return [(st, V_NONE)]

    def ml_copy(self, st, a, o, args, kw, node):
        return [(st, self.new(st, node_site(node), o.rep(summ=False)))]

    def ml_clear(self, st, a, o, args, kw, node):
        if o.summ:
            return [(st, V_NONE)]
        self.put(st, a[1], o.rep(items=(), elem=None, lo=0, last=None))
        return [(st, V_NONE)]

    def ml___getitem__(self, st, a, o, args, kw, node):
        res = []
        for s, k, v in self.split(st, args[0], lambda x: x):
            res.extend(self.list_get(s, a, self.obj(s, a[1]), k, node))
        return res

    def ml___len__(self, st, a, o, args, kw, node):
        if o.items is not None:
            return [(st, v_int(len(o.items)))]
        return [(st, v_anyint(o.lo, None, ('len', ('oid', a[1]))))]

    def ml___iter__(self, st, a, o, args, kw, node):
        return self.mkiter(st, node, 'iter', src=V([a]))

    # -- dict ----------------------------------------------------------
    def md_get(self, st, a, o, args, kw, node):
        d = a0(args, kw, 1, 'default', V_NONE)
        o2 = o.rep(tags=frozenset(
            t for t in o.tags if not (isinstance(t, tuple) and
                                      t[0] == 'dd')))
        res = []
        for s, k, kv in self.split(st, args[0], lambda x: x):
            oo = self.obj(s, a[1])
            oo = oo.rep(tags=o2.tags)
            res.extend(self.dict_get(s, a, oo, k, kv, node, default=d))
        return res

    def md_setdefault(self, st, a, o, args, kw, node):
        d = a0(args, kw, 1, 'default', V_NONE)
        res = []
        for s, k, kv in self.split(st, args[0], lambda x: x):
            oo = self.obj(s, a[1])
            mark = V([('none',), ('unk', '@absent')])
            for s2, v in self.dict_get(s, a, oo, k, kv, node,
                                       default=mark):
                if v is mark:
                    self.put(s2, a[1], self.dict_put(
                        self.obj(s2, a[1]), kv, d))
                    v = d
                res.append((s2, v))
        return res

    def md_pop(self, st, a, o, args, kw, node):
        d = a0(args, kw, 1, 'default')
        res = []
        for s, k, kv in self.split(st, args[0], lambda x: x):
            oo = self.obj(s, a[1])
            for s2, v in self.dict_get(s, a, oo, k, kv, node, default=d):
                o2 = self.obj(s2, a[1])
                if k in o2.f and not o2.summ:
                    f = dict(o2.f)
                    f.pop(k)
                    self.put(s2, a[1], o2.rep(f=f))
                res.append((s2, v))
        return res

    def dict_items(self, st, a, o, node, what):
        pairs = []
        for k, v in o.f.items():
            v2 = V([x for x in v.a if x != MISSING])
            if v2.a:
                pairs.append((V([k]), v2, v.has('missing')))
        if o.elem is None and not any(p[2] for p in pairs) and len(
                pairs) <= 400:
            sel = {'items': lambda p: v_tuple(p[:2]),
                   'keys': lambda p: p[0], 'values': lambda p: p[1]}[what]
            return [(st, self.mk_list(st, node, [sel(p) for p in pairs]))]
        ks = [p[0] for p in pairs] + (
            [o.last] if o.last is not None else [])
        vs = [p[1] for p in pairs] + (
            [o.elem] if o.elem is not None else [])
        k = join_v(*ks) if ks else v_unk('key')
        v = self.summarise(st, vs) if vs else v_unk('value')
        e = {'items': v_tuple([k, v]), 'keys': k, 'values': v}[what]
        return [(st, self.mk_list(st, node, None, e, 0))]

    def md_items(self, st, a, o, args, kw, node):
        return self.dict_items(st, a, o, node, 'items')

    def md_keys(self, st, a, o, args, kw, node):
        return self.dict_items(st, a, o, node, 'keys')

    def md_values(self, st, a, o, args, kw, node):
        return self.dict_items(st, a, o, node, 'values')

    def md_update(self, st, a, o, args, kw, node):
        if args:
            x = args[0].one
            so = self.obj(st, x[1]) if x and x[0] == 'o' else None
            if so is not None and so.kind == 'dict':
                for k, v in so.f.items():
                    o = self.dict_put(o, V([k]), v)
                if so.elem is not None:
                    o = o.rep(elem=so.elem if o.elem is None else join_v(
                        o.elem, so.elem),
                        last=so.last if o.last is None else join_v(
                            o.last, so.last or v_unk('k')))
            else:
                o = o.rep(elem=v_unk('v'), last=v_unk('k'))
        for k, v in kw.items():
            o = self.dict_put(o, v_str(k), v)
        self.put(st, a[1], o)
        return [(st, V_NONE)]

    def md_copy(self, st, a, o, args, kw, node):
        return [(st, self.new(st, node_site(node), o.rep(summ=False)))]

    def md_clear(self, st, a, o, args, kw, node):
        if not o.summ:
            self.put(st, a[1], o.rep(f={}, elem=None, last=None, lo=0))
        return [(st, V_NONE)]

    # -- set -----------------------------------------------------------
    def me_add(self, st, a, o, args, kw, node):
        h = self.hooks.get('append')
        if h:
            h(st, a, args[0], node)
        e = self.bad_key_exc(st, args[0], node)
        if e:
            return [e]
        if self.exact:
            return [(s, V_NONE if r is None else r)
                    for s, r in self.set_insert(st, a[1], args[0], node)]
        self.put(st, a[1], self.set_add(o, args[0]))
        kt = self.keyterm(args[0])
        if kt is not None:
            st.facts[('has', a[1], kt)] = True
        return [(st, V_NONE)]

    def me_update(self, st, a, o, args, kw, node):
        res = []
        states = [(st, None)]
        for v in args:
            nx = []
            for s, r in states:
                if isinstance(r, X):
                    nx.append((s, r))
                    continue
                for s2, lst in self.collect(s, v, node):
                    if isinstance(lst, X):
                        nx.append((s2, lst))
                        continue
                    items = self.exact_items(s2, lst)
                    oo = self.obj(s2, a[1])
                    if items is not None:
                        e = None
                        for i in items:
                            e = e or self.bad_key_exc(s2, i, node)
                            oo = self.set_add(oo, i)
                        if e:
                            nx.append(e)
                            continue
                    else:
                        e = self.elem_of(s2, lst)
                        oo = oo.rep(elem=e if oo.elem is None else join_v(
                            oo.elem, e))
                    self.put(s2, a[1], oo)
                    nx.append((s2, None))
            states = nx
        return [(s, r if isinstance(r, X) else V_NONE) for s, r in states]

    def me_discard(self, st, a, o, args, kw, node):
        x = args[0].one
        if x in o.f and not o.summ:
            f = dict(o.f)
            f.pop(x)
            self.put(st, a[1], o.rep(f=f, lo=0))
        else:
            self.put(st, a[1], o.rep(lo=0))
        return [(st, V_NONE)]

    def me_remove(self, st, a, o, args, kw, node):
        x = args[0].one
        if x in o.f and not o.f[x].has('missing') and not o.summ:
            return self.me_discard(st, a, o, args, kw, node)
        s2 = st.copy()
        return self.me_discard(st, a, o, args, kw, node) + [
            exc(s2, 'KeyError', False, node)]

    def me_pop(self, st, a, o, args, kw, node):
        e = self.elem_of(st, V([a]))
        s2 = st.copy()
        return [(st, e), exc(s2, 'KeyError', False, node)]

    def me_clear(self, st, a, o, args, kw, node):
        if not o.summ:
            self.put(st, a[1], o.rep(f={}, elem=None, lo=0))
        return [(st, V_NONE)]

    def me_copy(self, st, a, o, args, kw, node):
        return [(st, self.new(st, node_site(node), o.rep(summ=False)))]

    def set_meth(op):
        def fn(self, st, a, o, args, kw, node):
            if len(args) != 1:
                return [(st, v_unk('set'))]
            res = []
            for s, x, v in self.split(st, args[0], lambda y: y):
                for s2, other in self.seq(s, [v], node, 'set'):
                    if isinstance(other, X):
                        res.append((s2, other))
                        continue
                    res.append((s2, self.set_op(
                        s2, op(), self.obj(s2, a[1]),
                        self.obj(s2, other.one[1]), node)))
            return res
        return fn

    me_intersection = set_meth(ast.BitAnd)
    me_union = set_meth(ast.BitOr)
    me_difference = set_meth(ast.Sub)

    def me_isdisjoint(self, st, a, o, args, kw, node):
        return self.bools(st)

    me_issubset = me_issuperset = me_isdisjoint

    # -- generators ----------------------------------------------------
    def mg_close(self, st, a, o, args, kw, node):
        return [(st, V_NONE)]

    def mg___next__(self, st, a, o, args, kw, node):
        return self.b_next(st, [V([a])], {}, node, None)

    def mg___iter__(self, st, a, o, args, kw, node):
        return [(st, V([a]))]
