"""
Builtins, string/list/dict operations and the standard library, as far as
the code under analysis needs them.
"""
import ast
import posixpath
import re
import string

from .interp import (
    BUILTIN_CLASSES, Exc, Interp, X, loc, node_site)
from .values import (
    FALSE, MISSING, NONE, Obj, TRUE, V, V_FALSE, V_MISSING, V_NONE, V_TRUE,
    const_of, join_obj, join_v, map_state, mkterm, pyconst, v_anyint,
    v_bool, v_int, v_str, v_tuple, v_unk, v_y)

try:
    from re import _parser as sre_parse
except ImportError:
    import sre_parse


def is_const(t):
    return not isinstance(t, tuple)


def arb(term):
    """
    Whether the term stands for text that may be anything at all: part of
    the input, or cut from it.
    """
    if term is None:
        return False
    if not isinstance(term, tuple):
        return True
    if term[0] == 'sym':
        return isinstance(term[1], str) and term[1].startswith('in:')
    if term[0] in ('slice', 'part', 'strip', 'lower', 'rest'):
        return arb(term[1])
    return False


def sterm(a):
    """Term of a string atom (the constant itself for a constant)."""
    if a[0] in ('s', 'by'):
        return a[1]
    if a[0] in ('y', 'yb'):
        return a[1]
    return None


def exc(st, name, ev, node, msg=''):
    return (st, X('x', Exc(name, ev, node, msg)))


STR = ('s', 'y')
BYT = ('by', 'yb')

# External functions that only compute or read.
PURE = {
    'os.path.join', 'os.path.dirname', 'os.path.basename',
    'os.path.realpath', 'os.path.abspath', 'os.path.normpath',
    'os.path.expanduser', 'os.path.splitext', 'os.path.exists',
    'os.path.isdir', 'os.path.isfile', 'os.path.islink', 'os.path.relpath',
    'os.stat', 'os.listdir', 'os.getcwd', 're.compile', 're.match',
    're.search', 're.sub', 're.split', 're.escape', 're.fullmatch',
    'os.getenv', 'os.getpid',
}


class Builtins(Interp):
    # ------------------------------------------------------------------
    # helpers
    # ------------------------------------------------------------------
    def dist(self, st, v, fn):
        """Run fn(st, atom, narrowed V) for every atom of v."""
        res = []
        for s, a, nv in self.split(st, v, lambda x: x):
            if a == MISSING:
                continue
            res.extend(fn(s, a, nv))
        return res

    def subst(self, st, term, atoms):
        """Replace the symbolic string by constants."""
        atoms = list(atoms)
        if len(atoms) == 1:
            at = atoms[0]

            def fn(a):
                if a[0] in ('y', 'yb') and a[1] == term:
                    return at
                return a
            map_state(st, fn)

    def fork_facts(self, st, key, node=None):
        """[(st, bool)] for a boolean fact."""
        known = st.facts.get(key)
        if known is not None:
            return [(st, known)]
        s2 = st.copy()
        st.facts[key] = True
        s2.facts[key] = False
        return [(st, True), (s2, False)]

    def known_in(self, st, needle, a):
        """True/False/None: needle (const) in the string of atom a."""
        if a[0] in ('s', 'by'):
            try:
                return needle in a[1]
            except TypeError:
                return None
        t = a[1]
        if t is None:
            return None
        return self.term_in(st, needle, t)

    def term_in(self, st, needle, t):
        if not isinstance(t, tuple):
            return needle in t
        if needle == '' or needle == b'':
            return True
        f = st.facts.get(('in', needle, t))
        if f is not None:
            return f
        if st.facts.get(('ne', t)) is False:
            return False
        # parts cannot contain what the whole does not
        if t[0] in ('slice', 'part', 'strip', 'rest'):
            if t[0] == 'part' and t[2] == needle and t[3] == 0:
                return False
            if t[0] == 'part' and t[2] == needle and t[3] == -1:
                return False
            if self.term_in(st, needle, t[1]) is False:
                return False
            # stripping does not lose what is not stripped
            if t[0] == 'strip' and t[3] is not None and not (
                    set(needle) & set(t[3])) and len(needle) == 1:
                return self.term_in(st, needle, t[1])
        for k, v in st.facts.items():
            if k[0] in ('sw', 'ew') and v is True and k[1] == t and (
                    needle in k[2]):
                return True
        return None

    def ne_of(self, st, a):
        t = self.atom_truth(st, a)
        return t

    def piece(self, st, base, op, *extra, kind=None):
        """A string derived from another one."""
        kind = kind or base[0]
        k = 'y' if kind in STR else 'yb'
        t = mkterm(op, sterm(base), *extra) if sterm(base) is not None \
            else None
        return V([(k, t, 0 if arb(sterm(base)) else None)])

    def mk_list(self, st, node, items=None, elem=None, lo=0, tag='', **kw):
        return self.new(st, tag + node_site(node), Obj(
            'list', items=tuple(items) if items is not None else None,
            elem=elem, lo=lo, **kw))

    def int_of(self, v):
        a = v.one
        if a and a[0] == 'b':
            return int(a[1])
        if a and a[0] == 'i' and a[1] == a[2]:
            return a[1]
        return None

    # ------------------------------------------------------------------
    # operators
    # ------------------------------------------------------------------
    def e_BinOp(self, st, fid, node):
        res = []
        for s, left in self.ev(st, fid, node.left):
            if isinstance(left, X):
                res.append((s, left))
                continue
            for s2, right in self.ev(s, fid, node.right):
                if isinstance(right, X):
                    res.append((s2, right))
                    continue
                res.extend(self.binop(s2, node.op, left, right, node))
        return res

    def binop(self, st, op, left, right, node, inplace=False):
        res = []
        for s, a, lv in self.split(st, left, self.opkey):
            for s2, b, rv in self.split(s, right, self.opkey):
                res.extend(self.binop1(s2, op, lv, rv, node, inplace))
        return res

    @staticmethod
    def opkey(a):
        return a if a[0] in ('o', 't', 'x') else a[0]

    def binop1(self, st, op, left, right, node, inplace):
        la, ra = next(iter(left.a)), next(iter(right.a))
        lt, rt = la[0], ra[0]
        if lt == 'b':
            left = V([('i', int(x[1]), int(x[1]), None) for x in left.a])
            la, lt = next(iter(left.a)), 'i'
        if rt == 'b' and lt == 'i':
            right = V([('i', int(x[1]), int(x[1]), None) for x in right.a])
            ra, rt = next(iter(right.a)), 'i'
        # constants
        if len(left.a) == 1 and len(right.a) == 1:
            ok1, c1 = const_of(la)
            ok2, c2 = const_of(ra)
            if ok1 and ok2 and lt != 'none' and rt != 'none':
                r = self.const_op(op, c1, c2)
                if r is not None:
                    return [(st, r)]
        if isinstance(op, ast.Mod) and lt in STR:
            return self.percent(st, left, right, node)
        if lt in ('unk', 'f', 'x', 'xm') or rt in ('unk', 'f', 'x', 'xm'):
            if lt == 'o' and inplace and isinstance(op, ast.Add):
                o = self.obj(st, la[1])
                if o.kind == 'list':
                    self.put(st, la[1], o.rep(
                        items=None, elem=v_unk('+='), last=None,
                        lo=len(o.items) if o.items is not None else o.lo))
                    return [(st, left)]
            return [(st, v_unk('op'))]
        if lt == 'i' and rt == 'i':
            return [(st, self.int_op(op, left, right))]
        if isinstance(op, ast.Add):
            if lt in STR and rt in STR:
                return [(st, self.concat(st, left, right))]
            if lt in BYT and rt in BYT:
                return [(st, V([('yb', None, None)]))]
            if lt == 't' and rt == 't':
                return [(st, v_tuple(la[1] + ra[1]))]
            if lt in ('t', 'tt') and rt in ('t', 'tt'):
                vals = [x for x in (self.elem_of(st, left), self.elem_of(
                    st, right)) if not x.has('unk')]
                return [(st, V([('tt', join_v(*vals) if vals else v_unk(
                    'el'), 0)]))]
            if lt == 'o':
                lo = self.obj(st, la[1])
                if lo.kind == 'list' and lo.cls is None:
                    if inplace:
                        return self.list_extend(st, la[1], right, node,
                                                left)
                    if rt == 'o' and self.obj(st, ra[1]).kind == 'list':
                        return [(st, self.list_concat(
                            st, lo, self.obj(st, ra[1]), node))]
                    if rt != 'o':
                        return [exc(st, 'TypeError', True, node,
                                    'list + ' + rt)]
                if lo.kind == 'inst' and lo.cls:
                    m = {'Add': '__add__'}[type(op).__name__]
                    if self.find_attr(lo.cls, m, st=st):
                        return self.call_method(st, la, m, [right], {},
                                                node)
                    ro = self.obj(st, ra[1]) if rt == 'o' else None
                    if not self.ext_bases(lo.cls) and (
                            'open' not in lo.tags) and not (
                            ro is not None and ro.cls and self.find_attr(
                                ro.cls, '__radd__', st=st)):
                        return [exc(st, 'TypeError', True, node,
                                    '{} + {}'.format(lo.cls, rt))]
                    return [(st, v_unk('op'))]
                return [(st, v_unk('op'))]
            if rt == 'o':
                ro = self.obj(st, ra[1])
                if ro.kind == 'inst' and (
                        not ro.cls or self.find_attr(
                            ro.cls, '__radd__', st=st) or self.ext_bases(
                                ro.cls) or 'open' in ro.tags):
                    return [(st, v_unk('op'))]
                if lt in STR or lt in ('i', 'none', 't'):
                    return [exc(st, 'TypeError', True, node, '{} + {}'.format(
                        lt, ro.cls or ro.kind))]
            if lt != rt and lt not in ('tt', 'b', 'cls') and (
                    rt not in ('tt', 'b', 'cls')):
                return [exc(st, 'TypeError', True, node, '{} + {}'.format(
                    lt, rt))]
            return [(st, v_unk('op'))]
        if isinstance(op, ast.Mult):
            if (lt in STR and rt == 'i') or (lt == 'i' and rt in STR):
                return [(st, v_y())]
            if lt == 't' and rt == 'i' or lt == 'i' and rt == 't':
                return [(st, V([('tt', self.elem_of(
                    st, left if lt == 't' else right), 0)]))]
            if lt == 'o' and rt == 'i':
                o = self.obj(st, la[1])
                if o.kind == 'list':
                    e = o.all_elem()
                    return [(st, self.mk_list(st, node, elem=e)
                             if e is not None else self.mk_list(
                                 st, node, ()))]
            return [(st, v_unk('op'))]
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            if lt == 'o' and rt == 'o':
                lo, ro = self.obj(st, la[1]), self.obj(st, ra[1])
                if lo.kind == 'set' and ro.kind == 'set':
                    return [(st, self.set_op(st, op, lo, ro, node))]
                return [(st, v_unk('op'))]
        if lt in ('none',) or rt in ('none',) or (
                lt in STR and rt in ('i',) and isinstance(op, ast.Sub)):
            return [exc(st, 'TypeError', True, node, '{} {} {}'.format(
                lt, type(op).__name__, rt))]
        return [(st, v_unk('op'))]

    def set_op(self, st, op, a, b, node):
        if a.elem is None and b.elem is None and not any(
                v.has('missing') for o in (a, b) for v in o.f.values()) and (
                    all(k[0] == 's' for o in (a, b) for k in o.f)):
            f = {'BitOr': lambda: dict(list(a.f.items()) + list(b.f.items())),
                 'BitAnd': lambda: {k: v for k, v in a.f.items()
                                    if k in b.f},
                 'Sub': lambda: {k: v for k, v in a.f.items()
                                 if k not in b.f},
                 'BitXor': lambda: {k: v for k, v in list(a.f.items()) +
                                    list(b.f.items())
                                    if (k in a.f) != (k in b.f)}}[
                type(op).__name__]()
            return self.new(st, node_site(node), Obj('set', f=f,
                                                     lo=min(1, len(f))))
        ea = [x for x in (a.elem,) if x is not None] + list(a.f.values())
        eb = [x for x in (b.elem,) if x is not None] + list(b.f.values())
        if isinstance(op, (ast.BitAnd, ast.Sub)):
            if not ea or (isinstance(op, ast.BitAnd) and not eb):
                return self.new(st, node_site(node), Obj('set'))
            if isinstance(op, ast.BitAnd) and not a.f and not b.f:
                pass
            e = join_v(*ea)
            if isinstance(op, ast.BitAnd) and any(
                    k[0] == 's' for k in b.f) and b.elem is None:
                e = join_v(*eb)
        else:
            es = ea + eb
            if not es:
                return self.new(st, node_site(node), Obj('set'))
            e = join_v(*es)
        e = V([x for x in e.a if x != MISSING])
        return self.new(st, node_site(node), Obj('set', elem=e))

    def const_op(self, op, a, b):
        try:
            t = type(op).__name__
            if t == 'Add':
                r = a + b
            elif t == 'Sub':
                r = a - b
            elif t == 'Mult':
                if isinstance(a, (str, bytes, tuple)) and b > 500 or (
                        isinstance(b, (str, bytes)) and a > 500):
                    return None
                r = a * b
            elif t == 'Mod':
                r = a % b
            elif t == 'FloorDiv':
                r = a // b
            elif t == 'BitAnd':
                r = a & b
            elif t == 'BitOr':
                r = a | b
            elif t == 'LShift' and b < 64:
                r = a << b
            elif t == 'RShift':
                r = a >> b
            else:
                return None
        except Exception:
            return None
        return pyconst(r)

    def int_op(self, op, left, right):
        if len(left.a) > 1 or len(right.a) > 1:
            outs = []
            for x in left.a:
                for y in right.a:
                    outs.append(self.int_op(op, V([x]), V([y])))
            return join_v(*outs)
        a, b = left.one, right.one
        t = type(op).__name__

        def add(x, y):
            return None if x is None or y is None else x + y
        if t == 'Add':
            n = b[1] if b[1] == b[2] and b[1] is not None else None
            term = mkterm('plus', a[3], n) if n is not None else None
            if n is not None and a[3] is not None and a[3][0] == 'plus':
                term = mkterm('plus', a[3][1], a[3][2] + n) \
                    if a[3][2] + n else a[3][1]
            return V([('i', add(a[1], b[1]), add(a[2], b[2]), term)])
        if t == 'Sub':
            neg = V([('i', None if b[2] is None else -b[2],
                      None if b[1] is None else -b[1], None)])
            return self.int_op(ast.Add(), left, neg)
        if t == 'BitAnd':
            if b[1] == b[2] and b[1] is not None and b[1] >= 0:
                return v_anyint(0, b[1])
            return v_anyint(0 if (a[1] or -1) >= 0 else None)
        if t == 'Mod' and b[1] is not None and b[1] > 0:
            return v_anyint(0, None if b[2] is None else b[2] - 1)
        if t in ('Mult', 'BitOr', 'RShift', 'LShift', 'FloorDiv') and (
                a[1] is not None and a[1] >= 0 and
                b[1] is not None and b[1] >= 0):
            return v_anyint(0)
        if t == 'Div':
            return V([('f',)])
        return v_anyint()

    def concat(self, st, left, right):
        la, ra = left.one, right.one
        if la is None or ra is None:
            ne = 1 if self.surely_ne(st, left) or self.surely_ne(
                st, right) else None
            return v_y(None, ne)
        if la[0] == 's' and la[1] == '':
            return right
        if ra[0] == 's' and ra[1] == '':
            return left
        ne = 1 if self.surely_ne(st, left) or self.surely_ne(st, right) \
            else None
        return v_y(mkterm('cat', sterm(la), sterm(ra))
                   if sterm(la) is not None and sterm(ra) is not None
                   else None, ne)

    def list_concat(self, st, a, b, node):
        if a.items is not None and b.items is not None:
            return self.mk_list(st, node, a.items + b.items)
        es = [x for x in (a.all_elem(), b.all_elem()) if x is not None]
        la = len(a.items) if a.items is not None else a.lo
        lb = len(b.items) if b.items is not None else b.lo
        last = b.items[-1] if b.items else b.last
        return self.mk_list(st, node, None, join_v(*es) if es else None,
                            min(la + lb, 9), last=last)

    def percent(self, st, left, right, node):
        a = left.one
        if a is None or a[0] != 's':
            if a is not None and arb(a[1]):
                s2 = st.copy()
                return [(st, v_y()), exc(s2, 'TypeError', True, node,
                                         'input used as % format')]
            return [(st, v_y())]
        specs = re.findall(
            r'%(?:\((\w+)\))?[-+ #0]*(\*|\d+)?(?:\.(?:\*|\d+))?([a-zA-Z%])',
            a[1])
        specs = [i for i in specs if i[2] != '%']
        ra = right.one
        items = None
        if ra is not None and ra[0] == 't':
            items = list(ra[1])
        elif ra is not None and ra[0] in ('s', 'y', 'i', 'none', 'b'):
            items = [right]
        elif right.a and all(x[0] in ('s', 'y', 'i', 'none') for x in
                             right.a):
            items = [right]
        if specs and specs[0][0]:
            return [(st, v_y())]
        res = [(st, ())]
        out = []
        if items is not None:
            if len(items) != len(specs):
                return [exc(st, 'TypeError', True, node,
                            '{} arguments for {} % specifiers'.format(
                                len(items), len(specs)))]
            for item, spec in zip(items, specs):
                if spec[2] in 'di':
                    bad = [x for x in item.a if x[0] in (
                        's', 'y', 'none', 't')]
                    good = [x for x in item.a if x not in bad]
                    if bad:
                        s2 = st.copy() if good else st
                        out.append(exc(s2, 'TypeError', True, node,
                                       '%d of non-number'))
                        if not good:
                            return out
                nr = []
                for s, done in res:
                    if spec[2] not in 'sr':
                        nr.append((s, done + (item,)))
                        continue
                    for s2, v in self.to_str(s, item, node, spec[2] == 'r'):
                        if isinstance(v, X):
                            out.append((s2, v))
                        else:
                            nr.append((s2, done + (v,)))
                res = nr
            lit = re.sub(r'%.', '', a[1])
            for s, done in res:
                consts = [const_of(i.one) if i.one else (False, None)
                          for i in done]
                if all(c[0] for c in consts):
                    # What %r gives was made already.
                    fmt = re.sub(r'(%%|%[-+ #0]*\d*(?:\.\d+)?r)',
                                 lambda m: m.group().replace('r', 's'), a[1])
                    try:
                        r = fmt % tuple(c[1] for c in consts)
                    except Exception:
                        pass
                    else:
                        out.append((s, v_str(r)))
                        continue
                out.append((s, self.fmt_result(s, [a[1]], items, 1 if lit
                                               else None)))
            return out
        return [(st, v_y())]

    # ------------------------------------------------------------------
    # comparison
    # ------------------------------------------------------------------
    def e_Compare(self, st, fid, node):
        states = []
        for s, left in self.ev(st, fid, node.left):
            states.append((s, left, None))
        res = []
        for i, (op, cn) in enumerate(zip(node.ops, node.comparators)):
            nxt = []
            for s, left, _ in states:
                if isinstance(left, X):
                    res.append((s, left))
                    continue
                for s2, right in self.ev(s, fid, cn):
                    if isinstance(right, X):
                        res.append((s2, right))
                        continue
                    for s3, r in self.compare(s2, op, left, right, node):
                        if isinstance(r, X):
                            res.append((s3, r))
                        elif i == len(node.ops) - 1:
                            res.append((s3, r))
                        else:
                            for s4, b, _ in self.truth(s3, r, node):
                                if isinstance(b, X):
                                    res.append((s4, b))
                                elif b:
                                    nxt.append((s4, right, None))
                                else:
                                    res.append((s4, V_FALSE))
            states = nxt
        return res

    def compare(self, st, op, left, right, node):
        t = type(op).__name__
        if t in ('Is', 'IsNot'):
            return self.cmp_is(st, left, right, t == 'IsNot')
        if t in ('In', 'NotIn'):
            return self.negate(self.contains(st, right, left, node),
                               t == 'NotIn')
        if t in ('Eq', 'NotEq'):
            return self.negate(self.equals(st, left, right, node),
                               t == 'NotEq')
        return self.order(st, t, left, right, node)

    def negate(self, rs, neg):
        if not neg:
            return rs
        out = []
        for s, v in rs:
            if isinstance(v, X):
                out.append((s, v))
            elif v == V_TRUE:
                out.append((s, V_FALSE))
            elif v == V_FALSE:
                out.append((s, V_TRUE))
            else:
                out.append((s, V([('b', not x[1]) if x[0] == 'b' else x
                                  for x in v.a])))
        return out

    def cmp_is(self, st, left, right, neg):
        res = []
        # Only None, True, False and identities are of interest. Keep the
        # atoms that give the same answer together.
        ra = right.one
        la = left.one
        if ra is None and la is not None:
            left, right = right, left
            ra = la
        if ra is None:
            return [(st, v_bool())]

        def key(a):
            if a[0] == 'unk' or ra[0] == 'unk':
                return '?'
            if a[0] in ('none', 'b') and ra[0] in ('none', 'b'):
                return a == ra
            if a[0] != ra[0]:
                if {a[0], ra[0]} <= {'s', 'y'} or {
                        a[0], ra[0]} <= {'by', 'yb'} or {
                        a[0], ra[0]} <= {'t', 'tt'}:
                    return '?'
                return False
            if a[0] in ('cls', 'xcls', 'mod', 'fn'):
                return a[1] == ra[1]
            if a[0] == 'o':
                if a[1] != ra[1]:
                    return False if not (
                        self.obj(st, a[1]).summ and
                        self.obj(st, ra[1]).summ) else '?'
                return '?' if self.obj(st, a[1]).summ else True
            if a[0] in ('none',):
                return True
            if a[0] == 'b':
                return a[1] == ra[1]
            return '?'
        for s, k, _ in self.split(st, left, key):
            if k == '?':
                res.append((s, v_bool()))
            else:
                res.append((s, V_TRUE if k != neg else V_FALSE))
                continue
        return res

    def bools(self, st, cond=None):
        """Both."""
        s2 = st.copy()
        return [(st, V_TRUE), (s2, V_FALSE)]

    def equals(self, st, left, right, node):
        res = []
        for s, a, av in self.split(st, left, lambda x: x):
            for s2, b, bv in self.split(s, right, lambda x: x):
                res.extend(self.eq1(s2, a, b, av, bv, node))
        if len(res) > 2:
            res = self.merge_ev(res)
        return res

    def eq1(self, st, a, b, av, bv, node):
        at, bt = a[0], b[0]
        if at == 'unk' or bt == 'unk':
            o = None
            return [(st, v_bool())]
        if at == 'missing' or bt == 'missing':
            return []
        ok1, c1 = const_of(a)
        ok2, c2 = const_of(b)
        if ok1 and ok2:
            return [(st, V_TRUE if c1 == c2 else V_FALSE)]
        # objects with their own __eq__
        for x, y, yv in ((a, b, bv), (b, a, av)):
            if x[0] == 'o':
                o = self.obj(st, x[1])
                if o.cls and o.cls in self.cls_info:
                    if self.find_attr(o.cls, '__eq__', st=st):
                        return self.call_method(st, x, '__eq__', [yv], {},
                                                node)
        if at in ('y', 's') and bt in ('y', 's') or (
                at in ('yb', 'by') and bt in ('yb', 'by')):
            return self.eq_str(st, a, b)
        if at == 'i' and bt == 'i' or (at == 'i' and bt == 'b') or (
                at == 'b' and bt == 'i'):
            if at == 'b':
                a = ('i', int(a[1]), int(a[1]), None)
            if bt == 'b':
                b = ('i', int(b[1]), int(b[1]), None)
            return self.eq_int(st, a, b, av, bv)
        if at == 'o' and bt == 'o':
            if a[1] == b[1]:
                o = self.obj(st, a[1])
                return [(st, v_bool() if o.summ else V_TRUE)]
            oa, ob = self.obj(st, a[1]), self.obj(st, b[1])
            if oa.kind == 'inst' and ob.kind == 'inst':
                if 'open' in oa.tags or 'open' in ob.tags:
                    return [(st, v_bool())]
                return [(st, V_FALSE)]
            if oa.kind != ob.kind:
                return [(st, V_FALSE)]
            if oa.kind == 'list' and not oa.summ and not ob.summ:
                # an empty list on one side
                for x, y in ((oa, b), (ob, a)):
                    if x.items == ():
                        out = []
                        for s, t, _ in self.truth(st, V([y]), node):
                            out.append((s, V_FALSE if t else V_TRUE))
                        return out
                if oa.items is not None and ob.items is not None:
                    if len(oa.items) != len(ob.items):
                        return [(st, V_FALSE)]
                    if len(oa.items) <= 6:
                        return self.eq_seq(st, oa.items, ob.items, node)
                elif oa.items is not None and len(oa.items) < ob.lo or (
                        ob.items is not None and len(ob.items) < oa.lo):
                    return [(st, V_FALSE)]
            return self.bools(st)
        if at == 't' and bt == 't':
            if len(a[1]) != len(b[1]):
                return [(st, V_FALSE)]
            return self.eq_seq(st, a[1], b[1], node)
        if at in ('cls', 'xcls') and bt in ('cls', 'xcls'):
            return [(st, V_TRUE if a[1] == b[1] else V_FALSE)]
        kinds = {'s': 'str', 'y': 'str', 'by': 'bytes', 'yb': 'bytes',
                 'i': 'num', 'b': 'num', 'f': 'num', 't': 'tuple',
                 'tt': 'tuple', 'none': 'none', 'o': 'o', 'cls': 'cls',
                 'xcls': 'cls', 'fn': 'fn', 'bm': 'fn'}
        ka, kb = kinds.get(at), kinds.get(bt)
        if ka is None or kb is None:
            return self.bools(st)
        if ka != kb:
            for x in (a, b):
                if x[0] == 'o':
                    o = self.obj(st, x[1])
                    if o.kind == 'inst' and ('open' in o.tags or (
                            o.cls and self.ext_bases(o.cls))):
                        return self.bools(st)
            return [(st, V_FALSE)]
        return self.bools(st)

    def eq_seq(self, st, xs, ys, node):
        states = [st]
        res = []
        for x, y in zip(xs, ys):
            nxt = []
            for s in states:
                for s2, v in self.equals(s, x, y, node):
                    if isinstance(v, X):
                        res.append((s2, v))
                        continue
                    for s3, b, _ in self.truth(s2, v, node):
                        if isinstance(b, X):
                            res.append((s3, b))
                        elif b:
                            nxt.append(s3)
                        else:
                            res.append((s3, V_FALSE))
            states = nxt
        return res + [(s, V_TRUE) for s in states]

    def eq_str(self, st, a, b):
        if b[0] not in ('s', 'by') and a[0] in ('s', 'by'):
            a, b = b, a
        ta, tb = sterm(a), sterm(b)
        if b[0] in ('s', 'by'):
            if b[1] == '' or b[1] == b'':
                t = self.atom_truth(st, a)
                if t is True:
                    return [(st, V_FALSE)]
                if t is False:
                    return [(st, V_TRUE)]
                s2 = st.copy()
                if ta is not None:
                    st.facts[('ne', ta)] = False
                    s2.facts[('ne', ta)] = True
                    self.subst(st, ta, [b])
                return [(st, V_TRUE), (s2, V_FALSE)]
            if ta is None:
                s2 = st.copy()
                return [(st, V_TRUE), (s2, V_FALSE)]
            r = self.known_eq(st, ta, b[1])
            if r is not None:
                return [(st, V_TRUE if r else V_FALSE)]
            s2 = st.copy()
            st.facts[('eq', ta, b[1])] = True
            st.facts[('ne', ta)] = True
            self.subst(st, ta, [b])
            s2.facts[('eq', ta, b[1])] = False
            return [(st, V_TRUE), (s2, V_FALSE)]
        if ta is None or tb is None:
            s2 = st.copy()
            return [(st, V_TRUE), (s2, V_FALSE)]
        if ta == tb:
            return [(st, V_TRUE)]
        x, y = sorted((ta, tb), key=str)
        r = st.facts.get(('eq', x, y))
        if r is not None:
            return [(st, V_TRUE if r else V_FALSE)]
        s2 = st.copy()
        st.facts[('eq', x, y)] = True
        s2.facts[('eq', x, y)] = False
        # what is known of the one holds for the other
        for k, v in list(st.facts.items()):
            if len(k) >= 2 and k[1] == x and k[0] in (
                    'ne', 'isdec', 'isdig', 'eq') and k[2:] != (y,):
                st.facts.setdefault((k[0], y) + k[2:], v)
            elif len(k) >= 2 and k[1] == y and k[0] in (
                    'ne', 'isdec', 'isdig', 'eq') and k[2:] != (x,):
                st.facts.setdefault((k[0], x) + k[2:], v)
        return [(st, V_TRUE), (s2, V_FALSE)]

    def known_eq(self, st, t, c):
        r = st.facts.get(('eq', t, c))
        if r is not None:
            return r
        for k, v in st.facts.items():
            if k[0] == 'eq' and k[1] == t and v is True and (
                    isinstance(k[2], (str, bytes))):
                return k[2] == c
        if st.facts.get(('one', t)) and len(c) != 1:
            return False
        for k, v in st.facts.items():
            if len(k) == 3 and k[1] == t:
                if k[0] == 'sw' and v != c.startswith(k[2]):
                    if v is True or c.startswith(k[2]):
                        return False
                if k[0] == 'ew' and v != c.endswith(k[2]):
                    return False
            if len(k) == 3 and k[0] == 'in' and k[2] == t and isinstance(
                    k[1], (str, bytes)):
                if v != (k[1] in c):
                    return False
            if k[0] == 'isdec' and k[1] == t and isinstance(c, str):
                if v != c.isdecimal():
                    return False
            if k[0] == 'inset' and k[1] == t:
                if v is False and c in k[2]:
                    return False
                if v is True and c not in k[2]:
                    return False
        if isinstance(t, tuple) and t[0] in ('part', 'slice', 'strip',
                                             'rest'):
            for ch in set(c) if isinstance(c, str) else ():
                if self.term_in(st, ch, t) is False:
                    return False
        if isinstance(t, tuple) and t[0] == 'lower' and isinstance(c, str):
            if c != c.lower() and t[2] == 'lower':
                return False
        return None

    def eq_int(self, st, a, b, av, bv):
        if a[3] is not None and a[3] == b[3]:
            return [(st, V_TRUE)]
        if (a[1] is not None and b[2] is not None and a[1] > b[2]) or (
                b[1] is not None and a[2] is not None and b[1] > a[2]):
            return [(st, V_FALSE)]
        if b[1] is not None and b[1] == b[2]:
            return self.int_split(st, a, av, b[1], 'Eq')
        if a[1] is not None and a[1] == a[2]:
            return self.int_split(st, b, bv, a[1], 'Eq')
        return self.bools(st)

    def int_split(self, st, a, av, n, op):
        """Compare symbolic int with constant; narrows."""
        lo, hi, term = a[1], a[2], a[3]
        parts = []      # (lo, hi, truth)
        if op == 'Eq':
            parts = [(n, n, True), (lo, n - 1, False), (n + 1, hi, False)]
        elif op == 'Lt':
            parts = [(lo, n - 1, True), (n, hi, False)]
        elif op == 'LtE':
            parts = [(lo, n, True), (n + 1, hi, False)]
        elif op == 'Gt':
            parts = [(n + 1, hi, True), (lo, n, False)]
        elif op == 'GtE':
            parts = [(n, hi, True), (lo, n - 1, False)]
        res = []
        seen = []
        for plo, phi, truth in parts:
            plo2 = lo if plo is None else (
                plo if lo is None else max(lo, plo))
            phi2 = hi if phi is None else (
                phi if hi is None else min(hi, phi))
            if plo2 is not None and phi2 is not None and plo2 > phi2:
                continue
            if (plo, phi) == (lo, n - 1) and op == 'Eq' and phi is None:
                continue
            seen.append((plo2, phi2, truth))
        if op == 'Eq':
            # not equal on both sides: keep as one unless useful
            neg = [i for i in seen if not i[2]]
            if len(neg) == 2 and term is None:
                seen = [i for i in seen if i[2]] + [(lo, hi, False)]
        many = len(seen) > 1
        for plo, phi, truth in seen:
            s = st.copy() if many else st
            nv = V([('i', plo, phi, term)])
            if many:
                self.narrow(s, av, nv)
                if term is not None:
                    if not self.int_fact(s, term, plo, phi):
                        continue
                    self.narrow_int_term(s, term, plo, phi)
            res.append((s, V_TRUE if truth else V_FALSE))
        return res

    def narrow_int_term(self, st, term, lo, hi):
        def fn(a):
            if a[0] == 'i' and a[3] == term:
                l2 = a[1] if lo is None else (
                    lo if a[1] is None else max(a[1], lo))
                h2 = a[2] if hi is None else (
                    hi if a[2] is None else min(a[2], hi))
                if l2 is not None and h2 is not None and l2 > h2:
                    return a
                return ('i', l2, h2, term)
            return a
        map_state(st, fn)

    def int_fact(self, st, term, lo, hi):
        """The int with this term is in [lo, hi]. False: impossible."""
        if term[0] == 'plus':
            n = term[2]
            return self.int_fact(st, term[1], None if lo is None else lo - n,
                                 None if hi is None else hi - n)
        if term[0] == 'len':
            what = term[1]
            if isinstance(what, tuple) and what[0] == 'oid':
                return self.len_fact(st, what[1], lo, hi)
            if hi is not None and hi < 0:
                return False
            known = self.atom_truth(st, ('y', what, None))
            if lo is not None and lo >= 1:
                if known is False:
                    return False
                st.facts[('ne', what)] = True
                if lo > 1:
                    old = st.facts.get(('minlen', what), 0)
                    st.facts[('minlen', what)] = max(old, lo)
            if hi == 0:
                if known is True:
                    return False
                st.facts[('ne', what)] = False
            if lo == 1 and hi == 1:
                st.facts[('one', what)] = True
            return True
        return True

    def len_fact(self, st, oid, lo, hi):
        o = self.obj(st, oid)
        if o is None or o.summ or o.kind != 'list':
            return True
        if o.items is not None:
            n = len(o.items)
            return (lo is None or n >= lo) and (hi is None or n <= hi)
        lo = max(o.lo, lo or 0)
        if hi is not None and hi < lo:
            return False
        if hi is not None and lo == hi and hi <= 8:
            e = o.elem if o.elem is not None else v_unk('elem')
            items = [self.fresh_elem(st, e, oid, i) for i in range(hi)]
            if o.last is not None and items:
                items[-1] = o.last
            st.heap[oid] = o.rep(items=tuple(items), elem=None, last=None,
                                 lo=0)
        else:
            st.heap[oid] = o.rep(lo=lo)
        return True

    def fresh_elem(self, st, e, oid, i):
        """Separate items of a list whose length becomes known."""
        ys = [a for a in e.a if a[0] == 'y' and a[1] is None]
        if not ys or len(e.a) != len(ys):
            return V(e.a)
        ne = ys[0][2]
        name = 'in:el' if ne == 0 else 'el'
        t = ('sym', '{}@{}#{}'.format(name, oid, i))
        st.syms = st.syms | {t}
        for k in [k for k in st.facts if len(k) > 1 and k[1] == t]:
            del st.facts[k]
        return V([('y', t, ne)])

    def order(self, st, t, left, right, node):
        flip = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}
        meth = {'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__',
                'GtE': '__ge__'}
        res = []
        for s, a, av in self.split(st, left, lambda x: x):
            for s2, b, bv in self.split(s, right, lambda x: x):
                if a[0] == 'b':
                    a = ('i', int(a[1]), int(a[1]), None)
                if b[0] == 'b':
                    b = ('i', int(b[1]), int(b[1]), None)
                if a[0] == 'unk' or b[0] == 'unk':
                    res.extend(self.bools(s2))
                    continue
                if a[0] == 'i' and b[0] == 'i':
                    if b[1] is not None and b[1] == b[2]:
                        res.extend(self.int_split(s2, a, av, b[1], t))
                    elif a[1] is not None and a[1] == a[2]:
                        res.extend(self.int_split(s2, b, bv, a[1], flip[t]))
                    else:
                        res.extend(self.int_order(s2, t, a, b))
                    continue
                ok1, c1 = const_of(a)
                ok2, c2 = const_of(b)
                if ok1 and ok2:
                    try:
                        r = {'Lt': lambda: c1 < c2, 'Gt': lambda: c1 > c2,
                             'LtE': lambda: c1 <= c2,
                             'GtE': lambda: c1 >= c2}[t]()
                        res.append((s2, V_TRUE if r else V_FALSE))
                    except TypeError:
                        res.append(exc(s2, 'TypeError', True, node,
                                       'unorderable'))
                    continue
                if a[0] == 'o' and self.obj(s2, a[1]).kind == 'inst' and (
                        self.obj(s2, a[1]).cls):
                    o = self.obj(s2, a[1])
                    if self.find_attr(o.cls, meth[t], st=s2):
                        res.extend(self.call_method(
                            s2, a, meth[t], [bv], {}, node))
                        continue
                    node_ = self.classes.get(o.cls)
                    if node_ is not None and node_.decorator_list:
                        res.extend(self.bools(s2))
                        continue
                bad = {'none'} & {a[0], b[0]}
                strs = (a[0] in STR) != (b[0] in STR) and (
                    a[0] in ('i', 's', 'y') and b[0] in ('i', 's', 'y'))
                if (bad and a[0] not in ('o', 'x') and
                        b[0] not in ('o', 'x')) or strs or (
                            'none' in bad and (a[0] == 'o' or b[0] == 'o')
                            and not any(
                                x[0] == 'o' and (
                                    self.obj(s2, x[1]).cls or 'open' in
                                    self.obj(s2, x[1]).tags)
                                for x in (a, b))):
                    res.append(exc(s2, 'TypeError', True, node,
                                   'unorderable {} {}'.format(a[0], b[0])))
                    continue
                res.extend(self.bools(s2))
        return res

    def int_order(self, st, t, a, b):
        alo, ahi, blo, bhi = a[1], a[2], b[1], b[2]
        if t in ('Lt', 'LtE'):
            if ahi is not None and blo is not None and (
                    ahi < blo or (t == 'LtE' and ahi == blo)):
                return [(st, V_TRUE)]
            if alo is not None and bhi is not None and (
                    alo > bhi or (t == 'Lt' and alo == bhi)):
                return [(st, V_FALSE)]
        else:
            if alo is not None and bhi is not None and (
                    alo > bhi or (t == 'GtE' and alo == bhi)):
                return [(st, V_TRUE)]
            if ahi is not None and blo is not None and (
                    ahi < blo or (t == 'Gt' and ahi == blo)):
                return [(st, V_FALSE)]
        # i < len(x), for indices
        if a[3] is not None and b[3] is not None:
            key = ('cmp', t, a[3], b[3])
            known = st.facts.get(key)
            if known is not None:
                return [(st, V_TRUE if known else V_FALSE)]
            s2 = st.copy()
            st.facts[key] = True
            s2.facts[key] = False
            return [(st, V_TRUE), (s2, V_FALSE)]
        return self.bools(st)

    def contains(self, st, container, item, node):
        res = []
        for s, c, cv in self.split(st, container, lambda x: x):
            res.extend(self.contains1(s, c, cv, item, node))
        return res

    def contains1(self, st, c, cv, item, node):
        t = c[0]
        if t in STR:
            return self.in_str(st, c, item, node)
        if t == 'by':
            ok, w = const_of(item.one) if item.one else (False, None)
            if ok and isinstance(w, (int, bytes)):
                try:
                    return [(st, V_TRUE if w in c[1] else V_FALSE)]
                except ValueError:
                    return [exc(st, 'ValueError', True, node)]
        if t in BYT:
            return self.bools(st)
        if t == 't':
            return self.in_items(st, list(c[1]), item, node)
        if t == 'o':
            o = self.obj(st, c[1])
            h = self.hooks.get('contains')
            if h:
                r = h(self, st, c, o, item, node)
                if r is not None:
                    return r
            if o.cls and o.cls in self.cls_info and self.find_attr(
                    o.cls, '__contains__', st=st):
                return self.call_method(st, c, '__contains__', [item], {},
                                        node)
            if o.kind == 'list' and (o.cls is None or not self.find_attr(
                    o.cls, '__iter__', st=st)):
                if o.items is not None and not o.summ and len(
                        o.items) <= 60:
                    return self.in_items(st, list(o.items), item, node)
                if o.items is not None and not o.items:
                    return [(st, V_FALSE)]
                return self.fork_key(st, ('has', c[1], self.keyterm(item)))
            if o.kind in ('dict', 'set'):
                return self.in_dict(st, c, o, item, node)
            if o.kind in ('gen', 'iter') or (
                    o.cls and o.cls in self.cls_info):
                return self.in_iter(st, cv, item, node)
            return self.bools(st)
        if t == 'none' or t == 'i' or t == 'b':
            return [exc(st, 'TypeError', True, node,
                        'argument of type {} is not iterable'.format(t))]
        if t in ('x', 'unk', 'xm', 'tt'):
            return self.bools(st)
        return self.bools(st)

    def keyterm(self, v):
        """Something to remember the membership of."""
        a = v.one
        if a is None:
            return None
        ok, c = const_of(a)
        if ok:
            return ('c', c)
        if a[0] in ('y', 'yb') and a[1] is not None:
            return a[1]
        if a[0] in ('o', 'cls'):
            return ('oid', a[1])
        if a[0] == 'i':
            return a[3]
        if a[0] == 't':
            ks = [self.keyterm(i) for i in a[1]]
            return None if None in ks else ('tup',) + tuple(ks)
        return None

    def fork_key(self, st, key):
        if None in key:
            return self.bools(st)
        return [(s, V_TRUE if b else V_FALSE)
                for s, b in self.fork_facts(st, key)]

    def in_iter(self, st, cv, item, node):
        """x in an iterable object: compare with every element."""
        res = []

        def body(s, val, idx):
            out = []
            for s2, r in self.equals(s, val, item, node):
                if isinstance(r, X):
                    out.append((r.kind, s2, r.v))
                    continue
                for s3, b, _ in self.truth(s2, r, node):
                    if isinstance(b, X):
                        out.append((b.kind, s3, b.v))
                    elif b:
                        out.append(('b', s3, None))
                    else:
                        out.append(('n', s3, None))
            return out
        for k, s, v in self.for_each(st, cv, body, node):
            if k == 'b':
                res.append((s, V_TRUE))
            elif k == 'n':
                res.append((s, V_FALSE))
            else:
                res.append((s, X(k, v)))
        return res

    def in_str(self, st, c, item, node):
        res = []
        for s, a, av in self.split(st, item, lambda x: x):
            if a[0] in ('unk', 'x'):
                res.extend(self.bools(s))
                continue
            if a[0] not in STR:
                if a[0] == 'missing':
                    continue
                res.append(exc(s, 'TypeError', True, node,
                               "{} in str".format(a[0])))
                continue
            if c[0] == 's' and a[0] == 's':
                res.append((s, V_TRUE if a[1] in c[1] else V_FALSE))
                continue
            if a[0] == 's':
                k = self.known_in(s, a[1], c)
                if k is not None:
                    res.append((s, V_TRUE if k else V_FALSE))
                elif c[1] is None:
                    # True only if it's not empty
                    s2 = s.copy()
                    if a[1]:
                        self.narrow_ne(s, c)
                    res.extend([(s, V_TRUE), (s2, V_FALSE)])
                else:
                    s2 = s.copy()
                    s.facts[('in', a[1], c[1])] = True
                    if a[1]:
                        s.facts[('ne', c[1])] = True
                    s2.facts[('in', a[1], c[1])] = False
                    res.extend([(s, V_TRUE), (s2, V_FALSE)])
                continue
            # symbolic in constant: one of the characters, mostly
            if c[0] == 's':
                if a[1] is None:
                    res.extend(self.bools(s))
                    continue
                if self.atom_truth(s, a) is False:
                    res.append((s, V_TRUE))
                    continue
                one = s.facts.get(('one', a[1]))
                chars = sorted(set(c[1]))
                if one and len(chars) <= 8:
                    res.extend(self.in_consts(s, a, chars))
                    continue
                res.extend(self.fork_key(s, ('in', a[1], c[1])))
                continue
            if a[1] is not None and c[1] is not None:
                if a[1] == c[1]:
                    res.append((s, V_TRUE))
                    continue
                res.extend(self.fork_key(s, ('in', a[1], c[1])))
                continue
            res.extend(self.bools(s))
        return res

    def narrow_ne(self, st, c):
        for fid, env in list(st.fr.items()):
            for k, v in env.items():
                if isinstance(v, V) and v.one is c:
                    st.setv(fid, k, V([(c[0], c[1], 1)]))

    def in_consts(self, st, a, consts):
        """Symbolic string in a number of constants: one state each."""
        res = []
        t = a[1]
        for c in consts:
            if self.known_eq(st, t, c) is False or (
                    c == '' and self.atom_truth(st, a) is True):
                continue
            s = st.copy()
            s.facts[('eq', t, c)] = True
            s.facts[('ne', t)] = bool(c)
            self.subst(s, t, [('s', c) if isinstance(c, str)
                              else ('by', c)])
            res.append((s, V_TRUE))
        s = st
        for c in consts:
            if c == '':
                s.facts[('ne', t)] = True
            else:
                s.facts[('eq', t, c)] = False
        res.append((s, V_FALSE))
        return res

    def in_items(self, st, items, item, node):
        a = item.one
        consts = []
        for i in items:
            ok, c = const_of(i.one) if i.one else (False, None)
            if not ok:
                break
            consts.append(c)
        else:
            if not items:
                return [(st, V_FALSE)]
            if a is None:
                res = []
                for s, x, nv in self.split(st, item, lambda y: y):
                    res.extend(self.in_items(s, items, nv, node))
                return res
            ok, c = const_of(a)
            if ok:
                return [(st, V_TRUE if any(
                    c == x and type(c) == type(x) or c == x
                    for x in consts) else V_FALSE)]
            if a[0] == 'y':
                strs = [x for x in consts if isinstance(x, str)]
                if not strs:
                    return [(st, V_FALSE)]
                if a[1] is not None:
                    if len(strs) <= 6:
                        return self.in_consts(st, a, strs)
                    return self.in_set_consts(st, a, frozenset(strs))
                return self.bools(st)
            if a[0] in ('none', 't') or (a[0] == 'o' and self.obj(
                    st, a[1]).kind != 'inst'):
                return [(st, V_FALSE)]
            if a[0] == 'o':
                o = self.obj(st, a[1])
                if not (o.cls and self.find_attr(o.cls, '__eq__', st=st)) \
                        and 'open' not in o.tags:
                    return [(st, V_FALSE)]
            if a[0] == 'i':
                ints = [x for x in consts if isinstance(x, int)]
                if not ints:
                    return [(st, V_FALSE)]
            return self.bools(st)
        # general
        states = [st]
        res = []
        for i in items[:20]:
            nxt = []
            for s in states:
                for s2, v in self.equals(s, i, item, node):
                    if isinstance(v, X):
                        res.append((s2, v))
                        continue
                    for s3, b, _ in self.truth(s2, v, node):
                        if isinstance(b, X):
                            res.append((s3, b))
                        elif b:
                            res.append((s3, V_TRUE))
                        else:
                            nxt.append(s3)
            states = nxt
        return res + [(s, V_FALSE) for s in states]

    def in_set_consts(self, st, a, strs):
        t = a[1]
        key = ('inset', t, strs)
        k = st.facts.get(key)
        if k is None:
            for f, v in st.facts.items():
                if f[0] == 'eq' and f[1] == t and v is True and isinstance(
                        f[2], str):
                    k = f[2] in strs
        if k is not None:
            return [(st, V_TRUE if k else V_FALSE)]
        if self.atom_truth(st, a) is False:
            return [(st, V_TRUE if '' in strs else V_FALSE)]
        s2 = st.copy()
        st.facts[key] = True
        if '' not in strs:
            st.facts[('ne', t)] = True
        s2.facts[key] = False
        return [(st, V_TRUE), (s2, V_FALSE)]

    def in_dict(self, st, c, o, item, node):
        res = []
        for s, a, av in self.split(st, item, lambda x: x):
            o = self.obj(s, c[1])
            if a[0] == 'b':
                a = ('i', int(a[1]), int(a[1]), None)
            e = self.bad_key_exc(s, V([a]), node)
            if e:
                res.append(e)
                continue
            if a in o.f:
                v = o.f[a]
                if not v.has('missing'):
                    if not o.summ:
                        res.append((s, V_TRUE))
                        continue
                else:
                    s2 = s.copy()
                    if not o.summ:
                        nf = dict(o.f)
                        nf[a] = V([x for x in v.a if x != MISSING])
                        if nf[a].a:
                            self.put(s, c[1], o.rep(f=nf))
                        nf2 = dict(o.f)
                        del nf2[a]
                        self.put(s2, c[1], o.rep(f=nf2))
                        if not nf[a].a:
                            res.append((s2, V_FALSE))
                            continue
                    res.extend([(s, V_TRUE), (s2, V_FALSE)])
                    continue
            ok, cc = const_of(a)
            if ok and o.elem is None and not any(
                    k[0] in ('y', 'o') for k in o.f):
                res.append((s, V_FALSE))
                continue
            if not o.f and o.elem is None:
                res.append((s, V_FALSE))
                continue
            if a[0] == 'cls' and o.elem is None:
                res.append((s, V_FALSE))
                continue
            if o.elem is None and a[0] == 'y' and a[1] is not None and (
                    not o.summ):
                strs = [k[1] for k in o.f if k[0] == 's']
                others = [k for k in o.f if k[0] in ('y', 'o')]
                if not others and not any(
                        v.has('missing') for v in o.f.values()):
                    if not strs:
                        res.append((s, V_FALSE))
                    elif len(strs) <= 6:
                        res.extend(self.in_consts(s, a, strs))
                    else:
                        res.extend(self.in_set_consts(
                            s, a, frozenset(strs)))
                    continue
            kt = self.keyterm(av)
            res.extend(self.fork_key(s, ('has', c[1], kt)))
        return res

    def bad_key(self, st, v):
        """What is not hashable in the value, if it certainly isn't."""
        a = v.one
        if a is None:
            return None
        if a[0] == 't':
            for i in a[1]:
                bad = self.bad_key(st, i)
                if bad:
                    return bad
            return None
        if a[0] != 'o':
            return None
        o = self.obj(st, a[1])
        if o.cls is None:
            return o.kind if o.kind in ('list', 'dict', 'set') else None
        if o.cls in self.cls_info:
            return self.unhashable(st, o.cls)
        return None

    def bad_key_exc(self, st, v, node):
        bad = self.bad_key(st, v)
        return bad and exc(st, 'TypeError', True, node, 'unhashable ' + bad)

    def unhashable(self, st, qual):
        for c in self.mro(qual):
            if c.startswith('ext:'):
                return 'list' if c in ('ext:list', 'ext:dict',
                                       'ext:set') else None
            o = self.obj(st, ('cls', c)) or self.base.get(('cls', c))
            if o is None:
                return None
            if '__hash__' in o.f:
                return c if o.f['__hash__'] == V_NONE else None
            if '__eq__' in o.f:
                return c
        return None

    # ------------------------------------------------------------------
    # subscripts
    # ------------------------------------------------------------------
    def e_Subscript(self, st, fid, node):
        res = []
        for s, base in self.ev(st, fid, node.value):
            if isinstance(base, X):
                res.append((s, base))
                continue
            for s2, key in self.ev_slice(s, fid, node.slice):
                if isinstance(key, X):
                    res.append((s2, key))
                    continue
                res.extend(self.getitem(s2, base, key, node))
        return res

    def ev_slice(self, st, fid, sl):
        if isinstance(sl, ast.Slice):
            parts = [sl.lower, sl.upper, sl.step]
            nodes = [p for p in parts if p is not None]
            res = []
            for s, vals in self.ev_list(st, fid, nodes):
                if isinstance(vals, X):
                    res.append((s, vals))
                    continue
                it = iter(vals)
                vs = [next(it) if p is not None else V_NONE for p in parts]
                res.append((s, V([('x', 'slice', vs[0], vs[1], vs[2])])))
            return res
        if isinstance(sl, ast.Index):   # old pythons
            return self.ev(st, fid, sl.value)
        return self.ev(st, fid, sl)

    def getitem(self, st, base, key, node):
        self.inexact_item = False
        res = []
        for s, a, av in self.split(st, base, lambda x: x):
            for s2, k, kv in self.split(s, key, lambda x: x):
                res.extend(self.getitem1(s2, a, k, kv, node))
        return res

    def getitem1(self, st, a, k, kv, node):
        t = a[0]
        if t == 'o':
            o = self.obj(st, a[1])
            if o is None:
                return [(st, v_unk('dead'))]
            if o.cls and o.cls in self.cls_info and self.find_attr(
                    o.cls, '__getitem__', st=st):
                return self.call_method(st, a, '__getitem__', [kv], {},
                                        node)
            if o.kind == 'list':
                return self.list_get(st, a, o, k, node)
            if o.kind == 'dict':
                return self.dict_get(st, a, o, k, kv, node)
            if o.kind == 'set' or o.kind == 'gen':
                return [exc(st, 'TypeError', True, node,
                            'not subscriptable')]
            if o.kind == 'inst' and not (o.cls and self.ext_bases(
                    o.cls)) and 'open' not in o.tags:
                return [exc(st, 'TypeError', True, node,
                            '{} is not subscriptable'.format(o.cls))]
            return [(st, v_unk('item'))]
        if t == 't':
            return self.tuple_get(st, a, k, node)
        if t == 'tt':
            if k[:2] == ('x', 'slice'):
                return [(st, V([('tt', a[1], 0)]))]
            s2 = st.copy()
            return [(st, V(a[1].a)), exc(s2, 'IndexError', False, node)]
        if t in STR or t in BYT:
            return self.str_get(st, a, k, node)
        if t == 'none':
            return [exc(st, 'TypeError', True, node,
                        'None is not subscriptable')]
        if t in ('i', 'b', 'f', 'fn', 'bm'):
            return [exc(st, 'TypeError', True, node,
                        '{} is not subscriptable'.format(t))]
        if t == 'missing':
            return []
        if t == 'x' and a[1] == 'match':
            return self.match_group(st, a, [V([k])], node)
        if a == ('xm', 'os.environ') and k[0] == 's' and (
                k[1] in self.environ):
            if self.environ[k[1]] is None:
                return [exc(st, 'KeyError', True, node)]
            return [(st, self.environ[k[1]])]
        if a == ('xm', 'sys.argv') and k[0] == 'i':
            return [(st, v_y())]
        if a == ('xm', 'sys.argv') and k[:2] == ('x', 'slice'):
            return [(st, self.mk_list(st, node, elem=v_y()))]
        if a == ('xm', 'os.environ') or t == 'xm':
            s2 = st.copy()
            return [(st, v_y() if a[1] == 'os.environ' else v_unk('item')),
                    exc(s2, 'KeyError', False, node)]
        return [(st, v_unk('item'))]

    def slice_ints(self, k):
        """(lo, hi, step) of constant slices, else None."""
        out = []
        for v in k[2:5]:
            if v == V_NONE:
                out.append(None)
                continue
            n = self.int_of(v)
            if n is None:
                return None
            out.append(n)
        return out

    def bad_slice(self, st, k):
        """A bound that can not be one: a reason to fail."""
        for v in k[2:5]:
            for a in v.a:
                if a[0] in ('s', 'y', 't', 'by', 'yb'):
                    return a[0]
                if a[0] == 'o':
                    o = self.obj(st, a[1])
                    if o.kind != 'inst' or (o.cls and not self.find_attr(
                            o.cls, '__index__', st=st) and not
                            self.ext_bases(o.cls) and 'open' not in o.tags):
                        return o.cls or o.kind
        return None

    def list_get(self, st, a, o, k, node):
        if k[:2] == ('x', 'slice'):
            bad = self.bad_slice(st, k)
            if bad:
                return [exc(st, 'TypeError', True, node,
                            'slice with ' + str(bad))]
            if o.items is not None:
                sl = self.slice_ints(k)
                if sl is not None:
                    return [(st, self.mk_list(
                        st, node, o.items[slice(*sl)], tag='sl@'))]
            else:
                self.inexact_item = True
                sl = self.slice_ints(k)
                if o.elem is None:
                    return [(st, self.mk_list(st, node, (), tag='sl@'))]
                lo = 0
                last = None
                if sl is not None and sl[2] in (None, 1):
                    x, y = sl[0] or 0, sl[1]
                    if y is None and x >= 0:
                        lo = max(0, o.lo - x)
                        if lo:
                            last = o.last
                    elif x >= 0 and y is not None and y >= 0:
                        lo = max(0, min(o.lo, y) - x)
                    elif y is not None and y < 0 and x >= 0:
                        lo = max(0, o.lo + y - x)
                return [(st, self.mk_list(
                    st, node, None, V(o.elem.a), lo, tag='sl@', last=last))]
            e = o.all_elem()
            self.inexact_item = True
            return [(st, self.mk_list(st, node, None if e is not None else (),
                                      V(e.a) if e is not None else None,
                                      tag='sl@'))]
        if k[0] == 'b':
            k = ('i', int(k[1]), int(k[1]), None)
        if k[0] != 'i':
            if k[0] in ('unk', 'x', 'o', 'xm'):
                self.inexact_item = True
                e = o.all_elem()
                s2 = st.copy()
                return ([(st, V(e.a))] if e is not None else []) + [
                    exc(s2, 'IndexError', False, node)]
            return [exc(st, 'TypeError', True, node, 'list index ' + k[0])]
        n = k[1] if k[1] == k[2] else None
        if o.items is not None and not o.summ:
            if n is not None:
                if -len(o.items) <= n < len(o.items):
                    return [(st, o.items[n])]
                return [exc(st, 'IndexError', True, node,
                            'list has {} items, index {}'.format(
                                len(o.items), n))]
            self.inexact_item = True
            e = o.all_elem()
            if e is None:
                return [exc(st, 'IndexError', False, node)]
            if k[1] is not None and k[1] >= 0 and k[2] is not None and (
                    k[2] < len(o.items)):
                return [(st, join_v(*o.items[k[1]:k[2] + 1]))]
            s2 = st.copy()
            return [(st, V(e.a)), exc(s2, 'IndexError', False, node)]
        self.inexact_item = True
        e = o.all_elem()
        if e is None:
            return [exc(st, 'IndexError', True, node, 'empty list')]
        if n is not None:
            if (0 <= n < o.lo) or (n < 0 and -n <= o.lo):
                if n == -1 and o.last is not None:
                    return [(st, o.last)]
                return [(st, V(e.a))]
            # May be out of range: evidence when nothing is known about
            # where the items come from.
            ev = 'arb' in o.tags and (('filtered' not in o.tags))
            if ev and self.len_known(st, a[1], n):
                return [(st, V(e.a))]
            s2 = st.copy()
            if not o.summ:
                need = n + 1 if n >= 0 else -n
                self.put(st, a[1], o.rep(lo=max(o.lo, need)))
            v = o.last if (n == -1 and o.last is not None) else V(e.a)
            return [(st, v), exc(s2, 'IndexError', ev, node,
                                 'list may have less than {} items'.format(
                                     n + 1 if n >= 0 else -n))]
        if k[3] is not None and k[3][0] == 'idx' and k[3][1] == ('oid', a[1]):
            return [(st, V(e.a))]
        s2 = st.copy()
        return [(st, V(e.a)), exc(s2, 'IndexError', False, node)]

    def len_known(self, st, oid, n):
        for key, v in st.facts.items():
            if key[0] == 'cmp' and ('len', ('oid', oid)) in key:
                return True
        return False

    def tuple_get(self, st, a, k, node):
        if k[:2] == ('x', 'slice'):
            sl = self.slice_ints(k)
            if sl is not None:
                return [(st, v_tuple(a[1][slice(*sl)]))]
            e = self.elem_of(st, V([a]))
            return [(st, V([('tt', e, 0)]))]
        if k[0] == 'b':
            k = ('i', int(k[1]), int(k[1]), None)
        if k[0] == 'i' and k[1] == k[2] and k[1] is not None:
            if -len(a[1]) <= k[1] < len(a[1]):
                return [(st, a[1][k[1]])]
            return [exc(st, 'IndexError', True, node, 'tuple index')]
        if k[0] in ('s', 'y', 'none'):
            return [exc(st, 'TypeError', True, node, 'tuple index')]
        s2 = st.copy()
        self.inexact_item = True
        if not a[1]:
            return [exc(st, 'IndexError', True, node)]
        return [(st, join_v(*a[1])), exc(s2, 'IndexError', False, node)]

    def str_get(self, st, a, k, node):
        isb = a[0] in BYT
        const = a[0] in ('s', 'by')
        if k[:2] == ('x', 'slice'):
            bad = self.bad_slice(st, k)
            if bad:
                return [exc(st, 'TypeError', True, node,
                            'slice with ' + str(bad))]
            sl = self.slice_ints(k)
            if const and sl is not None:
                return [(st, pyconst(a[1][slice(*sl)]))]
            if sl == [None, None, None] or sl == [0, None, None]:
                return [(st, V([a]))]
            ks = []
            for v in k[2:5]:
                x = v.one
                if x is None:
                    ks.append(None)
                elif x[0] == 'none':
                    ks.append('None')
                elif x[0] == 'i' and x[1] == x[2] and x[1] is not None:
                    ks.append(x[1])
                elif x[0] == 'i' and x[3] is not None:
                    ks.append(x[3])
                else:
                    ks.append(None)
            base = sterm(a)
            term = None
            ne = 0 if arb(base) else None
            if base is not None and None not in ks:
                if (ks[0] in ('None', 0) and isinstance(ks[1], tuple) and
                        ks[1][0] == 'idx' and ks[1][1] == base):
                    term = mkterm('part', base, ks[1][2], 0)
                elif ks[1] == 'None' and isinstance(ks[0], tuple) and (
                        ks[0][0] == 'plus' and ks[0][1][0] == 'idx' and
                        ks[0][1][1] == base and ks[0][2] == 1):
                    term = mkterm('part', base, ks[0][1][2], 1)
                elif ks[1] == 'None' and isinstance(ks[0], tuple) and (
                        ks[0][0] == 'idx' and ks[0][1] == base):
                    ne = 1
                    term = mkterm('rest', base, ks[0][2])
                else:
                    term = mkterm('slice', base, *ks)
            if sl is not None and sl[2] is None:
                # a non-empty head or tail of a non-empty string
                x, y = sl[0] or 0, sl[1]
                if x == 0 and y is not None and y > 0 and (
                        self.atom_truth(st, a) is True):
                    ne = 1
                if x < 0 and y is None and self.atom_truth(st, a) is True:
                    ne = 1
                ml = self.minlen(st, a)
                if x >= 0 and y is None and ml > x:
                    ne = 1
                if y == -1 and ml > x + 1 and x >= 0:
                    ne = 1
            kind = 'yb' if isb else 'y'
            if self.atom_truth(st, a) is False:
                return [(st, pyconst(b'' if isb else ''))]
            return [(st, V([(kind, term, ne)]))]
        if k[0] == 'b':
            k = ('i', int(k[1]), int(k[1]), None)
        if k[0] in ('unk', 'x', 'o', 'xm'):
            s2 = st.copy()
            return [(st, v_anyint(0, 255) if isb else v_y(None, 1)),
                    exc(s2, 'IndexError', False, node)]
        if k[0] != 'i':
            return [exc(st, 'TypeError', True, node,
                        'string index ' + k[0])]
        n = k[1] if k[1] == k[2] else None
        if const and n is not None:
            if -len(a[1]) <= n < len(a[1]):
                return [(st, pyconst(a[1][n]))]
            return [exc(st, 'IndexError', True, node, 'string index')]
        res = []
        term = None
        base = sterm(a)
        if base is not None:
            kk = n if n is not None else k[3]
            term = mkterm('ch', base, kk) if kk is not None else None
        if term is not None:
            st.syms = st.syms
        ok = None       # certainly valid?
        ev = False
        if n is not None:
            need = n + 1 if n >= 0 else -n
            ml = self.minlen(st, a)
            if ml >= need:
                ok = True
            else:
                ev = arb(base) or a[2] == 0
                if need > 1 and base is not None and any(
                        f[0] in ('cmp',) and ('len', base) in f
                        for f in st.facts):
                    ev = False
        elif k[3] is not None and isinstance(k[3], tuple):
            if k[3][0] == 'idx' and k[3][1] == base:
                ok = True
            elif k[3][0] == 'plus' and k[3][1][0] == 'idx' and (
                    k[3][1][1] == base) and k[3][2] >= 1 and arb(base):
                ev = not any(f[0] == 'cmp' for f in st.facts)
            elif k[3][0] == 'plus' and k[3][1][0] == 'idx' and (
                    k[3][1][1] == base) and k[3][2] == -1 and (
                        k[1] is not None and k[1] >= 0):
                ok = True
        if self.atom_truth(st, a) is False and n is not None:
            return [exc(st, 'IndexError', True, node, 'empty string')]
        if ok is None:
            s2 = st.copy()
            if n is not None and base is not None and n in (0, -1):
                s2.facts[('ne', base)] = False
            res.append(exc(s2, 'IndexError', bool(ev), node,
                           'string may be too short for [{}]'.format(
                               n if n is not None else k)))
            if n is not None and base is not None:
                st.facts[('ne', base)] = True
                if isinstance(base, tuple) and need > 1:
                    st.facts[('minlen', base)] = need
        if isb:
            return [(st, v_anyint(0, 255))] + res
        if term is not None:
            st.facts[('one', term)] = True
            # starts or ends with?
            if n in (0, -1):
                kind = 'sw' if n == 0 else 'ew'
                for f, v in st.facts.items():
                    if f[0] == kind and f[1] == base and v is True and (
                            len(f[2]) >= 1):
                        return [(st, v_str(f[2][n]))] + res
        return [(st, V([('y', term, 1)]))] + res

    def minlen(self, st, a):
        if a[0] in ('s', 'by'):
            return len(a[1])
        ml = 1 if self.atom_truth(st, a) is True else 0
        if a[1] is not None:
            ml = max(ml, st.facts.get(('minlen', a[1]), 0))
            for k, v in st.facts.items():
                if k[0] in ('sw', 'ew') and k[1] == a[1] and v is True:
                    ml = max(ml, len(k[2]))
                if k[0] == 'in' and k[2] == a[1] and v is True and (
                        isinstance(k[1], (str, bytes))):
                    ml = max(ml, len(k[1]))
        return ml

    MANY = 24

    def dict_get(self, st, a, o, k, kv, node, default=None, evok=True):
        """d[k]; with default: d.get(k, default)."""
        if k[0] == 'b':
            k = ('i', int(k[1]), int(k[1]), None)
        dd = [t for t in o.tags if isinstance(t, tuple) and t[0] == 'dd']
        e = self.bad_key_exc(st, V([k]), node)
        if e:
            return [e]

        def absent(s, ev):
            if default is not None:
                return [(s, default)]
            if dd and not ev and (k[0] == 'unk' or (
                    k[0] in ('y', 'yb') and k[1] is None)):
                # we might have asked before
                return [(s, v_unk('default'))]
            if dd:
                out = []
                for s2, v in self.call(s, V([dd[0][1]]), [], {}, node):
                    if isinstance(v, X):
                        out.append((s2, v))
                        continue
                    oo = self.obj(s2, a[1])
                    self.put(s2, a[1], self.dict_put(oo, kv, v))
                    out.append((s2, v))
                return out
            return [exc(s, 'KeyError', ev, node, repr(kv))]

        if k in o.f and not o.summ:
            v = o.f[k]
            if v.has('missing'):
                rest = V([x for x in v.a if x != MISSING])
                res = []
                s2 = st.copy()
                nf = dict(o.f)
                del nf[k]
                self.put(s2, a[1], o.rep(f=nf))
                res.extend(absent(s2, True if rest.a else True))
                if rest.a:
                    nf = dict(o.f)
                    nf[k] = rest
                    self.put(st, a[1], o.rep(f=nf))
                    res.append((st, rest))
                return res
            return [(st, v)]
        ok, c = const_of(k)
        vals = []
        if o.elem is not None:
            vals.append(o.elem)
        symkeys = [x for x in o.f if not const_of(x)[0] and x[0] != 'cls']
        if ok or k[0] == 'cls':
            vals += [o.f[x] for x in symkeys]
            if k in o.f:
                vals.append(o.f[k])
        else:
            kinds = ('s', 'y') if k[0] == 'y' else None
            vals += [v for x, v in o.f.items()
                     if kinds is None or x[0] in kinds]
        if not vals:
            return absent(st, 'may-open' not in o.tags)
        kt = self.keyterm(V([k]))
        key = ('has', a[1], kt) if kt is not None else None
        known = st.facts.get(key) if key else None
        if k[0] == 'y' and k[1] is not None and o.elem is None and (
                not symkeys):
            strs = frozenset(x[1] for x in o.f if x[0] == 's')
            known = st.facts.get(('inset', k[1], strs), known)
        v = self.summarise(st, vals)
        v = V([x for x in v.a if x != MISSING])
        if not v.a:
            return absent(st, False)
        res = []
        if known is not True:
            s2 = st.copy() if known is None else st
            if key and known is None:
                s2.facts[key] = False
            ev = k[0] == 'y' and arb(k[1])
            if ok and not symkeys and False:
                ev = True
            res.extend(absent(s2, ev))
        if known is not False:
            if key:
                st.facts[key] = True
            res.append((st, v))
        return res

    def summarise(self, st, vals):
        """Join of many values, with one representative of the objects
        that behave the same."""
        if len(vals) <= 8:
            return join_v(*vals)
        atoms = set()
        seen = {}
        for v in vals:
            for a in v.a:
                if a[0] == 'o':
                    o = self.obj(st, a[1])
                    if o is not None and o.kind == 'inst' and o.cls:
                        k = self.behaviour(o)
                        if k in seen:
                            continue
                        seen[k] = a
                atoms.add(a)
        return V(atoms)

    def behaviour(self, o):
        key = []
        for c in self.mro(o.cls):
            if c.startswith('ext:'):
                key.append(c)
                continue
            co = self.base.get(('cls', c))
            if co is None:
                key.append(c)
                continue
            if any(v.one and v.one[0] in ('fn', 'prop', 'cm', 'sm')
                   for n, v in co.f.items() if isinstance(v, V)):
                key.append(c)
        return tuple(key) + tuple(sorted(
            (n, str(sorted(x[0] for x in v.a)))
            for n, v in o.f.items() if isinstance(v, V)))

    def setitem(self, st, base, key, v, node):
        res = []
        for s, a, av in self.split(st, base, lambda x: x):
            t = a[0]
            if t == 'o':
                o = self.obj(s, a[1])
                if o.cls and o.cls in self.cls_info and self.find_attr(
                        o.cls, '__setitem__', st=s):
                    for s2, r in self.call_method(
                            s, a, '__setitem__', [key, v], {}, node):
                        res.append((s2, r if isinstance(r, X) else None))
                    continue
                h = self.hooks.get('setitem')
                if h:
                    h(s, a, key, v, node)
                if o.kind == 'dict':
                    e = self.bad_key_exc(s, key, node)
                    if e:
                        res.append(e)
                        continue
                    self.put(s, a[1], self.dict_put(o, key, v))
                    kt = self.keyterm(key)
                    if kt is not None:
                        s.facts[('has', a[1], kt)] = True
                elif o.kind == 'list':
                    ka = key.one
                    if ka and ka[0] == 'i' and ka[1] == ka[2] and (
                            o.items is not None and not o.summ):
                        n = ka[1]
                        if -len(o.items) <= n < len(o.items):
                            items = list(o.items)
                            items[n] = v
                            self.put(s, a[1], o.rep(items=tuple(items)))
                        else:
                            res.append((s, exc(s, 'IndexError', True,
                                               node)[1]))
                            continue
                    elif ka and ka[:2] == ('x', 'slice'):
                        e = o.all_elem()
                        ve = self.elem_of(s, v)
                        new = self.exact_items(s, v)
                        sl = self.slice_ints(ka)
                        if (new is not None and sl and sl[2] is None and
                                o.items is not None and not o.summ):
                            items = list(o.items)
                            items[slice(*sl)] = new
                            self.put(s, a[1], o.rep(items=tuple(items)))
                            res.append((s, None))
                            continue
                        self.put(s, a[1], o.rep(
                            items=None, lo=0, last=None,
                            elem=ve if e is None else join_v(e, ve)))
                    elif o.items is not None and not o.summ:
                        self.put(s, a[1], o.rep(items=tuple(
                            join_v(i, v) for i in o.items)))
                    else:
                        e = o.all_elem()
                        last = o.last
                        if last is not None:
                            last = join_v(last, v)
                        if ka and ka[0] == 'i' and ka[1] == ka[2] == -1:
                            last = v
                        self.put(s, a[1], o.rep(
                            items=None, last=last,
                            lo=len(o.items) if o.items is not None
                            else o.lo,
                            elem=v if e is None else join_v(e, v)))
                elif o.kind == 'inst' and not self.ext_bases(
                        o.cls or '') and 'open' not in o.tags:
                    res.append((s, exc(s, 'TypeError', True, node,
                                       'item assignment')[1]))
                    continue
                res.append((s, None))
            elif t in ('s', 'y', 't', 'none', 'i', 'b'):
                res.append((s, exc(s, 'TypeError', True, node,
                                   '{} does not support item '
                                   'assignment'.format(t))[1]))
            else:
                h = self.hooks.get('setitem')
                if h:
                    h(s, a, key, v, node)
                res.append((s, None))
        return res

    def delitem(self, st, base, key, node):
        res = []
        for s, a, av in self.split(st, base, lambda x: x):
            if a[0] == 'o':
                o = self.obj(s, a[1])
                if o.kind == 'dict':
                    ka = key.one
                    if ka in o.f and not o.summ:
                        f = dict(o.f)
                        had = f.pop(ka)
                        if had.has('missing'):
                            s2 = s.copy()
                            res.append(exc(s2, 'KeyError', False, node))
                        self.put(s, a[1], o.rep(f=f))
                    else:
                        s2 = s.copy()
                        res.append(exc(s2, 'KeyError', False, node))
                elif o.kind == 'list':
                    ka = key.one
                    e = o.all_elem()
                    if o.items is not None and ka and ka[0] == 'i' and (
                            ka[1] == ka[2]) and not o.summ:
                        n = ka[1]
                        if -len(o.items) <= n < len(o.items):
                            items = list(o.items)
                            del items[n]
                            self.put(s, a[1], o.rep(items=tuple(items)))
                        else:
                            res.append(exc(s, 'IndexError', True, node))
                            continue
                    elif o.items is not None and ka and ka[:2] == (
                            'x', 'slice') and self.slice_ints(ka) and (
                                not o.summ):
                        items = list(o.items)
                        del items[slice(*self.slice_ints(ka))]
                        self.put(s, a[1], o.rep(items=tuple(items)))
                    elif e is not None:
                        self.put(s, a[1], o.rep(items=None, elem=e, lo=0,
                                                last=None))
                res.append((s, None))
            else:
                res.append((s, None))
        return res
