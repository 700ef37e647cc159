"""
(a) Each pair of patterns out of several hundred (all forms of one and two
parts: characters, wildcards, sets written in different ways, with and without
dashes and the underscore) is interpreted. Obligations: equality agrees with
the sequence of character sets that the patterns denote; patterns that are
equal have the same hash and the same canonical form; of two patterns exactly
one of a < b, a == b and b < a holds, and sorting all of them gives one order,
whatever the order before; what has been done with a pattern (comparing, sorting, hashing, its
canonical form, matching) changes none of that.
(b) Every pair of patterns that denote the same is read as a dialplan: the
second step with the same priority is reported as a duplicate, and with
another priority both belong to one extension in the listing.
(c) The attributes that equality, hash and order read are stored only while a
pattern is constructed (or once, as the memory of a value that depends on
nothing else).
"""
import ast
import functools
import itertools

from ..scenario import Plan, const, names
from ..values import v_str

PARTS = ('X', 'x', 'Z', 'z', 'N', 'n', '0', '1', '2', '9', 'a', 'A', '*', '#',
         '.', '!', '-', '[123]', '[321]', '[1-3]', '[1-23]', '[12-3]',
         '[1-33]', '[113]', '[13]', '[31]', '[1]', '[0-9]', '[0123456789]',
         '[9-0]', '[1-9]', '[2-9]', '[23456789]', '[12-9]', '[a]', '[X]',
         '[x]', '[.]', '[!]', '[1-]', '[-1]', '[a-c]', '[abc]', '[cba]',
         '[1-3a-c]', '[a-c1-3]', '[*#]', '[1-35-7]', '[1235-7]', '[1-57]',
         '[0-8]', '[a-z]', '[0-46-9]', '[98]', '[89]', '\xe9', '[\xe9]')
FIRST = ('X', '[0-9]', '1', '[1]', '-', '[13]', '[31]', '[1-3]', 'a', 'Z',
         '[1-9]', 'N')
SECOND = ('X', '[9-0]', '1', '1-', '-1', '.', '!', '[123]', '[3-1]', '[13]',
          'z', 'n', '*')


def texts():
    out = []
    for part in PARTS:
        out.append('_' + part)
        if part[0] != '[':
            out.append(part)
    for a, b in itertools.product(FIRST, SECOND):
        out.append('_' + a + b)
        if '[' not in a + b:
            out.append(a + b)
    out += ['_', '_1-2-3', '_123', '123', '1-2-3', '_12', '12', '_-', '-1',
            '_[', '_[]', '_1[', '_1[2', '_]', '_[1', '_1[]2', '_X[]', '_X[',
            '_[]X', '_[9-0]', '_NXXNXXXXXX', '_NXX-NXX-XXXX', 's', 'i', 't',
            'S', '_s', '_S', '_[s]', '_[Ss]', '_[sS]']
    return list(dict.fromkeys(out))


def members(body):
    """The characters of a set; they are bytes."""
    body = list(body.encode())
    out = set()
    while len(body) >= 3:
        if body[1] == ord('-'):
            a, b = sorted((body[0], body[2]))
            out |= set(range(a, b + 1))
            body = body[3:]
        else:
            out.add(body.pop(0))
    return frozenset(out | set(body))


def denotes(text):
    """(is a pattern, ((set of bytes or '.' or '!'), ...)), None: broken"""
    if text[0] != '_':
        return False, tuple(frozenset([i]) for i in text.encode()
                            if i != ord('-'))
    out = []
    rest = text[1:]
    while rest:
        if rest[0] == '[':
            end = rest.find(']')
            if end <= 1:
                return None
            out.append(members(rest[1:end]))
            rest = rest[end + 1:]
            continue
        c, rest = rest[0], rest[1:]
        if c in '.!':
            out.append(c)
        elif c.upper() in 'XZN':
            out.append(frozenset(range(
                ord({'X': '0', 'Z': '1', 'N': '2'}[c.upper()]),
                ord('9') + 1)))
        elif c != '-':
            out.extend(frozenset([i]) for i in c.encode())
    return True, tuple(out)


def yes(x):
    return x if isinstance(x, bool) else None


def row(ctx, p, text, others):
    ctx.count('pairs', len(others))
    paths = p.run('row', [v_str(text), names(others)])
    if not paths or len(paths) != 1 or paths[0].kind != 'r' or (
            paths[0].unknown):
        ctx.undecided('pair', text, paths and (paths[0].kind, paths[0].v,
                                               len(paths)))
        return
    me = denotes(text)
    found = []
    for e in paths[0].events:
        if not isinstance(e, tuple) or e[0] not in ('self', 'pair'):
            continue
        vals = [yes(i) for i in e[-6 if e[0] == 'pair' else -7:]]
        if None in vals:
            ctx.undecided('pair', text, e)
            return
        if e[0] == 'self':
            if vals != [True, True, True, False, False, True, True]:
                found.append((
                    'fixed', text, 'after use it is not the same: equal {} '
                    '{}, same hash {}, less {}, greater {}, same canonical '
                    'form {}, same parsed value {}'.format(*vals)))
            continue
        other = e[1] if isinstance(e[1], str) else const(e[1])
        eq, ne, lt, gt, samehash, canon = vals
        where = '{} and {}'.format(text, other)
        if eq == ne:
            found.append(('equality', where, 'both or neither of == and !='))
        if eq + lt + gt != 1:
            found.append(('order', where, 'equal {}, less {}, greater {}'
                          .format(eq, lt, gt)))
        if eq and not samehash:
            found.append(('hash', where, 'equal with different hashes'))
        if eq and not canon:
            found.append(('canonical', where,
                          'equal with different canonical forms'))
        it = denotes(other)
        if me and it and (me == it) != eq:
            found.append((
                'meaning', where, 'they denote {}, but are {}'.format(
                    'the same' if me == it else 'different extensions',
                    'equal' if eq else 'not equal')))
    for rule, where, t in found:
        ctx.violation(rule, where, t)
    if not found:
        ctx.ok('pair', '{} and {} others'.format(text, len(others)))


def ranks(ctx, p, every):
    """Sorting gives an order that agrees with all pairs."""
    orders = []
    for texts_ in (every, every[::-1], sorted(every)):
        paths = p.run('ordered', [names(texts_)])
        ctx.count('sorted')
        if not paths or len(paths) != 1 or paths[0].kind != 'r':
            ctx.undecided('sort', texts_[0], paths)
            return
        path = paths[0]
        a = path.v.one
        o = p.it.obj(path.st, a[1]) if a and a[0] == 'o' else None
        if o is None or not o.items:
            ctx.undecided('sort', texts_[0], path.v)
            return
        orders.append([denotes(const(i)) for i in o.items])
    if orders[0] == orders[1] == orders[2]:
        ctx.ok('sort', '{} patterns'.format(len(every)))
    else:
        ctx.violation('sort', '{} patterns'.format(len(every)),
                      'the result of sorting depends on the order before')


STEPS = ('NoOp(one)', 'NoOp(two)', 'NoOp(sep)')


def duplicate(ctx, p, a, b):
    ctx.count('dialplans')
    where = '{} and {}'.format(a, b)
    paths = p.files('lint', [('a.conf', (
        b'[general]\n', b'[globals]\n', b'[ctx]\n',
        'exten => {},1,NoOp()\n'.format(a).encode(),
        'exten => {},1,NoOp()\n'.format(b).encode()))])
    if not paths or any(i.kind != 'r' or i.unknown for i in paths):
        ctx.undecided('duplicate', where, paths)
    elif any([(d.line, d.prev) for d in i.diags
              if d.name == 'E_DP_PRIO_DUPE'] == [(5, 4)] for i in paths):
        ctx.ok('duplicate', where)
    else:
        ctx.violation('duplicate', where,
                      'they denote the same, but the second is not reported '
                      'as a duplicate')
    ctx.count('dialplans')
    paths = p.files('everything', [('a.conf', (
        b'[general]\n', b'[globals]\n', b'[ctx]\n',
        'exten => {},1,NoOp(one)\n'.format(a).encode(),
        b'exten => sep,1,NoOp(sep)\n',
        'exten => {},2,NoOp(two)\n'.format(b).encode()))])
    text = None
    if paths and len(paths) == 1 and paths[0].kind == 'r' and (
            not paths[0].unknown):
        text = const(paths[0].v)
    if not isinstance(text, str):
        ctx.undecided('listing', where, paths)
        return
    times = [text.count(i) for i in STEPS]
    pos = [text.find(i) for i in STEPS]
    if times != [1, 1, 1]:
        ctx.violation('listing', where, 'the steps are listed {}, {} and {} '
                      'times'.format(*times))
    elif min(pos[:2]) < pos[2] < max(pos[:2]):
        ctx.violation('listing', where,
                      'the steps are not listed as one extension')
    else:
        ctx.ok('listing', where)


def stores(ctx, it):
    """(c)"""
    cls = next((n for m in it.loader.all() for n in m.tree.body
                if m.name == 'asterisklint.pattern' and
                isinstance(n, ast.ClassDef) and n.name == 'Pattern'), None)
    if cls is None:
        ctx.undecided('stored', 'Pattern', 'no such class')
        return
    methods = {n.name: n for n in cls.body if isinstance(n, ast.FunctionDef)}
    read = {}
    todo = [i for i in ('__eq__', '__hash__', '__lt__') if i in methods]
    seen = set()
    while todo:
        name = todo.pop()
        if name in seen:
            continue
        seen.add(name)
        for n in ast.walk(methods[name]):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name):
                if n.attr in methods:
                    todo.append(n.attr)
                elif isinstance(n.ctx, ast.Load):
                    read.setdefault(n.attr, name)
    # what is called while it is constructed
    making = {'__init__', '__new__'}
    todo = ['__init__']
    while todo:
        name = todo.pop()
        for n in ast.walk(methods.get(name, ast.Pass())):
            if isinstance(n, ast.Attribute) and n.attr in methods and (
                    n.attr not in making):
                making.add(n.attr)
                todo.append(n.attr)
    ctx.count('attributes', len(read))
    for attr in sorted(read):
        places = []
        for m in it.loader.all():
            if m.name.startswith('aldriver'):
                continue
            for fn in ast.walk(m.tree):
                if not isinstance(fn, ast.FunctionDef):
                    continue
                if fn in cls.body and fn.name in making | seen:
                    continue
                own = fn in cls.body
                for n in ast.walk(fn):
                    for t in changed(n):
                        if t.attr != attr:
                            continue
                        base = ast.unparse(t.value)
                        if own and base == 'self' or base.split('.')[-1] in (
                                'pattern', 'pat'):
                            places.append('{}: {}: {}'.format(
                                m.rel, fn.name, ast.unparse(n)))
        if places:
            ctx.violation('stored', 'Pattern.' + attr, 'read by {}, but '
                          'changed later: {}'.format(read[attr], places[0]))
        else:
            ctx.ok('stored', 'Pattern.' + attr)


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
            'clear', 'add', 'discard', 'update'}


def changed(n):
    """Attributes that the node stores to or changes in place."""
    targets = []
    if isinstance(n, ast.Assign):
        targets = [t for t in n.targets
                   if ast.dump(n.value).replace('Load()', 'Store()') !=
                   ast.dump(t)]
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        targets = [n.target]
    elif isinstance(n, ast.Delete):
        targets = n.targets
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
            n.func.attr in MUTATORS):
        targets = [n.func.value]
    for t in targets:
        for i in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
            while isinstance(i, ast.Subscript):
                i = i.value
            if isinstance(i, ast.Attribute):
                yield i


def check(ctx):
    p = Plan(driver='patterns')
    p.STEPS = 3000000
    every = [i for i in texts() if denotes(i)]
    if not ctx.thorough:
        many = every[:len(PARTS) * 2 - 10] + every[-20:]
        rest = [i for i in every if i not in many]
        many += rest[::2]
    else:
        many = every
    jobs = [functools.partial(row, ctx, p, i, many) for i in many]
    jobs.append(functools.partial(
        ranks, ctx, p, many))
    q = Plan(driver='files')
    same = {}
    for i in every:
        if denotes(i) and '\xe9' not in i:
            same.setdefault(denotes(i), []).append(i)
    for group in same.values():
        for a, b in itertools.permutations(group, 2) if ctx.thorough else (
                list(zip(group, group[1:] + group[:1]))
                if len(group) > 1 else ()):
            jobs.append(functools.partial(duplicate, ctx, q, a, b))
    stores(ctx, p.it)
    ctx.parallel(jobs)
    ctx.need('pairs', 10000)
    ctx.need('dialplans', 40)
