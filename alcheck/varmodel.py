"""
Summaries of the string-like class Var and of the scanners on such values.

A string with dynamic parts is a Var: it is either atomic (it has a name) or
joined (two or more parts). The callers need only know which kinds of values
the operations give; the operations themselves are analysed against these
summaries in drivers/vars.py.
"""
from .builtins import exc
from .interp import X, node_site
from .values import (
    NONE, Obj, V, V_NONE, const_of, join_v, v_anyint, v_bool, v_int, v_str,
    v_y)

VAR = 'asterisklint.variable:Var'
STR = ('s', 'y')


def is_var(it, st, a):
    if a[0] != 'o':
        return False
    o = it.obj(st, a[1])
    return bool(o is not None and o.cls and o.cls in it.cls_info and
                it.is_subclass(o.cls, VAR))


def atom_var(it, st, node, name='name'):
    return it.new(st, ('var', 'atom'), Obj('inst', VAR, {
        'name': v_y(None, None)}, tags=frozenset(['vatom'])))


def joined(it, st, node):
    parts = join_v(v_y(None, 1), atom_var(it, st, node))
    lst = it.new(st, ('var', 'parts'), Obj('list', elem=parts, lo=2,
                                           tags=frozenset(['arb'])))
    return it.new(st, ('var', 'joined'), Obj('inst', VAR, {
        'name': V_NONE, '_list': lst}, tags=frozenset(['vjoined'])))


def any_var(it, st, node):
    lst = it.new(st, ('var', 'parts'), Obj('list', elem=join_v(
        v_y(None, 1), atom_var(it, st, node)), lo=1))
    return it.new(st, ('var', 'any'), Obj('inst', VAR, {
        'name': V([NONE, ('y', None, None)]), '_list': lst}))


def shape(it, st, a):
    """'atom', 'joined' or None (not known)"""
    o = it.obj(st, a[1])
    n = o.f.get('name')
    if n is None:
        return None
    if all(x[0] in ('none',) for x in n.a):
        return 'joined'
    if not n.has('none') and not n.has('missing') and not n.has('unk'):
        return 'atom'
    return None


def kinds(it, st, v):
    """Which of 'str', 'var', 'other' the value may be; the others."""
    ks, other = set(), []
    for a in v.a:
        if a[0] in STR:
            ks.add('str')
        elif is_var(it, st, a):
            ks.add('var')
        elif a[0] in ('unk', 'missing', 'x', 'xm'):
            ks.add('unk')
        else:
            ks.add('other')
            other.append(a)
    return ks, other


def surely_nonempty(it, st, v):
    for a in v.a:
        if a[0] in STR:
            if it.atom_truth(st, a) is not True:
                return False
        elif not is_var(it, st, a):
            return False
    return True


def join_items(it, st, items, node):
    """(V or None, bad): the result of joining the known items."""
    need_var = any(all(is_var(it, st, a) for a in i.a) for i in items)
    may_var = any(any(is_var(it, st, a) for a in i.a) for i in items)
    full = [i for i in items if not (
        i.one and i.one[0] == 's' and not i.one[1])]
    if not full:
        return v_str('')
    if len(full) == 1:
        return full[0]
    atoms = set()
    if not need_var:
        if all(i.one and i.one[0] == 's' for i in full):
            atoms.add(('s', ''.join(i.one[1] for i in full)))
        else:
            ne = None
            for i in full:
                ys = [a for a in i.a if a[0] in STR]
                if ys and all(it.atom_truth(st, a) is True for a in ys) and (
                        not any(is_var(it, st, a) for a in i.a)):
                    ne = 1
            if ne is None and all(
                    any(a[0] == 'y' and a[2] == 0 for a in i.a)
                    for i in full):
                ne = 0
            atoms.add(('y', None, ne))
    if may_var:
        atoms |= joined(it, st, node).a
        strong = sum(1 for i in full if surely_nonempty(it, st, i))
        if strong < 2:
            for i in full:
                others = [j for j in full if j is not i]
                if any(surely_nonempty(it, st, j) for j in others):
                    continue
                atoms |= set(a for a in i.a if is_var(it, st, a))
    return V(atoms)


def f_join(it, st, args, kwargs, node):
    src = args[-1]
    res = []
    for s, lst in it.collect(st, src, node):
        if isinstance(lst, X):
            res.append((s, lst))
            continue
        items = it.exact_items(s, lst)
        if items is None:
            e = it.elem_of(s, lst)
            if e is None:
                res.append((s, v_str('')))
                continue
            todo = [e, e]
        else:
            todo = list(items)
        bad = None
        for i in todo:
            ks, other = kinds(it, s, i)
            if other:
                bad = other[0]
        if bad is not None:
            res.append(exc(s.copy(), 'TypeError', True, node,
                           'Var.join of {}'.format(bad[0])))
            if any(kinds(it, s, i)[0] == {'other'} for i in todo) and (
                    items is not None):
                continue
        if items is None:
            atoms = set()
            ks = kinds(it, s, e)[0]
            a = lst.one
            o = it.obj(s, a[1]) if a and a[0] == 'o' else None
            if 'str' in ks or (o is None or o.lo == 0):
                ne = None
                if o is not None and o.lo > 0 and ks == {'str'} and (
                        surely_nonempty(it, s, e)):
                    ne = 1
                atoms.add(('y', None, ne))
            if 'var' in ks or 'unk' in ks:
                atoms |= joined(it, s, node).a
                atoms |= set(x for x in e.a if is_var(it, s, x))
            res.append((s, V(atoms)))
        else:
            items = [V([a for a in i.a if a[0] in STR or is_var(
                it, s, a)] or [('y', None, None)]) for i in items]
            res.append((s, join_items(it, s, items, node)))
    return res


def chars(it, st, a, node):
    """The list that a Var is when iterated."""
    sh = shape(it, st, a)
    if sh == 'atom':
        return it.new(st, ('var', 'iter1'), Obj('list', items=(V([a]),)))
    e = join_v(v_y(None, 1), atom_var(it, st, node))
    if sh is None:
        e = join_v(e, V([a]))
    return it.new(st, ('var', 'iter'), Obj(
        'list', elem=e, lo=2 if sh == 'joined' else 1,
        tags=frozenset(['arb'])))


def f_iter(it, st, args, kwargs, node):
    a = args[0].one
    if not a or not is_var(it, st, a):
        return NotImplemented
    return [(st, chars(it, st, a, node))]


def f_len(it, st, args, kwargs, node):
    a = args[0].one
    if not a or not is_var(it, st, a):
        return NotImplemented
    sh = shape(it, st, a)
    if sh == 'atom':
        return [(st, v_int(1))]
    return [(st, v_anyint(2 if sh == 'joined' else 1, None,
                          ('len', ('oid', a[1]))))]


def char_or_atom(it, st, node):
    v = it.sym(st, 'vch@' + node_site(node), 1)
    st.facts[('one', v.one[1])] = True
    return join_v(v, atom_var(it, st, node))


def f_getitem(it, st, args, kwargs, node):
    a = args[0].one
    if not a or not is_var(it, st, a) or len(args) != 2 or not args[1].one:
        return NotImplemented
    k = args[1].one
    sh = shape(it, st, a)
    if k[0] == 'x' and k[1] == 'slice':
        ok, part = slice_kind(k)
        if sh == 'atom':
            if ok == 'nonempty1':
                return [(st, V([a]))]
            if ok in ('tail', 'head'):
                return [(st, v_str(''))]
            return [(st, V([a, ('s', '')]))]
        ne = 1 if ok in ('nonempty1', 'head1', 'tail1') or (
            ok in ('tail', 'head') and part == 1 and sh == 'joined') else None
        return [(st, join_v(v_y(None, ne), any_var(it, st, node)))]
    if k[0] == 'i':
        lo, hi = k[1], k[2]
        if lo is not None and lo == hi:
            n = lo if lo >= 0 else -lo - 1
            if sh == 'atom':
                if n == 0:
                    return [(st, V([a]))]
                return [exc(st, 'IndexError', True, node)]
            if n == 0 or (n == 1 and sh == 'joined'):
                return [(st, char_or_atom(it, st, node))]
            s2 = st.copy()
            return [(st, char_or_atom(it, st, node)),
                    exc(s2, 'IndexError', sh == 'joined', node)]
        s2 = st.copy()
        if sh == 'atom':
            v = V([a])
        else:
            v = char_or_atom(it, st, node)
        return [(st, v), exc(s2, 'IndexError', False, node)]
    if k[0] in ('unk', 'x', 'missing'):
        return [(st, char_or_atom(it, st, node))]
    return NotImplemented


def slice_kind(k):
    """nonempty1: [0:n>0]; head: [..:-n]; tail: [n:]; None"""
    def c(v):
        if v is None:
            return None
        a = v.one if isinstance(v, V) else v
        if a is None:
            return '?'
        ok, x = const_of(a)
        return x if ok else '?'
    lo, hi, step = c(k[2]), c(k[3]), c(k[4]) if len(k) > 4 else None
    if step not in (None, 1):
        return None, 0
    if lo in (None, 0):
        if hi is None:
            return 'nonempty1', 0
        if isinstance(hi, int):
            if hi > 0:
                return 'nonempty1', 0
            if hi < 0:
                return 'head', -hi
        return None, 0
    if isinstance(lo, int) and hi is None:
        return ('tail', lo) if lo > 0 else ('nonempty1', 0)
    return None, 0


def f_contains(it, st, c, o, item, node):
    if not is_var(it, st, c):
        return None
    ia = item.one
    if not ia or ia[0] != 's':
        return it.bools(st)
    if shape(it, st, c) == 'atom' or len(ia[1]) != 1:
        return [(st, V([('b', False)]))]
    key = ('vin', ia[1], c[1])
    if key in st.facts:
        return [(st, V([('b', st.facts[key])]))]
    s2 = st.copy()
    st.facts[key] = True
    s2.facts[key] = False
    return [(st, V([('b', True)])), (s2, V([('b', False)]))]


def f_split(it, st, args, kwargs, node):
    a = args[0].one
    if not a or not is_var(it, st, a):
        return NotImplemented
    names = ['token', 'maxsplit']
    tok, mx = v_str(':'), v_int(-1)
    vals = list(args[1:])
    if len(vals) > 0:
        tok = vals[0]
    if len(vals) > 1:
        mx = vals[1]
    tok = kwargs.get('token', tok)
    mx = kwargs.get('maxsplit', mx)
    if not tok.one or tok.one[0] != 's' or not mx.one or mx.one[0] != 'i' or (
            mx.one[1] is None or mx.one[1] != mx.one[2]):
        return NotImplemented
    t, m = tok.one[1], mx.one[1]
    if (t, m) not in it.var_split_ok:
        return [exc(st, 'AssertionError', True, node,
                    'Var.split({!r}, {})'.format(t, m))]
    if shape(it, st, a) == 'atom':
        return [(st, it.new(st, ('var', 'split'), Obj(
            'list', items=(V([a]),))))]

    def part(s):
        return join_v(v_y(None, None), any_var(it, s, node))
    res = []
    for s, b in f_contains(it, st, a, it.obj(st, a[1]), v_str(t), node):
        if b.one[1] is False:
            res.append((s, it.new(s, ('var', 'split'), Obj(
                'list', items=(V([a]),)))))
        elif m == 1:
            res.append((s, it.new(s, ('var', 'split'), Obj(
                'list', items=(part(s), part(s))))))
        else:
            # 2, 3, or more parts
            for n in (2, 3, 4):
                s2 = s.copy()
                res.append((s2, it.new(s2, ('var', 'split'), Obj(
                    'list', items=tuple(part(s2) for _ in range(n))))))
    return res


def f_strip(it, st, args, kwargs, node):
    a = args[0].one
    if not a or not is_var(it, st, a) or len(args) != 1:
        return NotImplemented
    if shape(it, st, a) == 'atom':
        return [(st, args[0])]
    return [(st, join_v(V([a]), joined(it, st, node),
                        atom_var(it, st, node)))]


def f_str(it, st, args, kwargs, node):
    a = args[0].one
    if not a or not is_var(it, st, a):
        return NotImplemented
    return [(st, v_y(None, 1))]


def f_format(it, st, args, kwargs, node):
    a = args[0].one
    if not a or not is_var(it, st, a):
        return NotImplemented
    s2 = st.copy()
    return [(st, v_y(None, None)),
            exc(s2, 'KeyError', True, node, 'Var.format')]


def f_could_match(it, st, args, kwargs, node):
    a = args[0].one
    if not a or not is_var(it, st, a):
        return NotImplemented
    return [(st, V([('b', True), NONE]))]


def f_eq(it, st, args, kwargs, node):
    return [(st, v_bool())]


METHODS = {
    'join': f_join, '__iter__': f_iter, '__len__': f_len,
    '__getitem__': f_getitem, 'split': f_split, 'strip': f_strip,
    '__str__': f_str, 'format': f_format, 'could_match': f_could_match,
    '__eq__': f_eq}


def text_arg(it, st, v):
    """Whether v is a str or Var."""
    ks, other = kinds(it, st, v)
    return not other


def f_check_balance(it, st, args, kwargs, node):
    v = args[0] if args else kwargs.get('data')
    if v is None or not text_arg(it, st, v):
        return NotImplemented
    s2 = st.copy()
    return [(st, V_NONE), exc(s2, 'ValueError', True, node, 'balance')]


def f_separate_args(it, st, args, kwargs, node):
    args = [a for a in args if not (a.one and is_app(it, st, a.one))]
    v = args[0] if args else kwargs.get('data')
    if v is None or not text_arg(it, st, v):
        return NotImplemented
    if any(it.atom_truth(st, a) is False for a in v.a) and len(v.a) == 1:
        return [(st, it.new(st, ('separgs', node_site(node)), Obj(
            'list', items=(v_str(''),))))]
    has_var = any(is_var(it, st, a) for a in v.a)
    res = []
    for n in (1, 2, 3, 4, 5):
        s = st.copy()
        e = v_y(None, 0)
        if has_var:
            e = join_v(e, atom_var(it, s, node), joined(it, s, node))
        if n < 5:
            o = Obj('list', items=(e,) * n)
        else:
            o = Obj('list', elem=e, lo=5, tags=frozenset(['arb']))
        res.append((s, it.new(s, ('separgs', node_site(node)), o)))
    return res


def is_app(it, st, a):
    if a[0] == 'cls':
        return True
    if a[0] != 'o':
        return False
    o = it.obj(st, a[1])
    return o.kind == 'inst' and not is_var(it, st, a)


def install(it, exclude=(), scanners=True):
    """Use the summaries, except for the methods in exclude."""
    for qual in list(it.cls_info):
        if not it.is_subclass(qual, VAR):
            continue
        for name, h in METHODS.items():
            if name in exclude:
                continue
            fa = it.find_attr(qual, name)
            if fa:
                for a in fa[1].a:
                    q = fnqual(a)
                    if q:
                        it.overrides[q] = h
    if 'split' not in exclude:
        it.var_split_ok = {(':', -1), ('=', 1), ('(', 1)}
    it.hooks['contains'] = f_contains
    if scanners:
        for qual, h in (
                ('asterisklint.variable:variable_check_balance',
                 f_check_balance),
                ('asterisklint.app.base:AppBase.separate_args',
                 f_separate_args)):
            if qual.split(':')[1] not in exclude:
                it.overrides[qual] = h


def fnqual(a):
    if a[0] == 'fn':
        return a[1]
    if a[0] in ('sm', 'cm', 'prop'):
        for x in a[1].a:
            return fnqual(x)
    return None
