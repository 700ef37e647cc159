"""
(a) Interpreted from the bytes of the lines on, with loops and recursion
followed as they run: all include graphs over three files (and the same file
under other names), all include graphs over three contexts with jumps into
them, and the malformed configuration of alcheck/malformed.py. Inputs on which
the interpretation does not end are taken apart until one line is left.
Obligation: no loop makes thousands of rounds, and no function nests in itself
dozens of times, on an input of a few short lines.
(b) For each while loop in the source, all paths around it: a path that leads
back to the head without storing to any name, attribute or element that the
loop reads, and without a call that could change something, repeats forever.
"""
import ast
import functools
import itertools

from .. import malformed
from ..scenario import Plan
from . import c02

STEPS = 400000


# -- (a) ---------------------------------------------------------------

def run(p, fname, files):
    """(ended, text): text is the evidence that it does not end"""
    p.it.endless = None
    paths = p.files(fname, files)
    if paths is not None:
        return True, None
    return False, p.it.endless


def single(ctx, p, rule, construct, fname, files):
    ended, text = run(p, fname, files)
    ctx.count('inputs')
    if ended:
        ctx.ok(rule, construct)
    elif text:
        ctx.violation(rule, construct, text)
    else:
        ctx.undecided(rule, construct, 'too long')


def batch(ctx, p, rule, fname, build, texts):
    ctx.count('lines', len(texts))
    ended, text = run(p, fname, build(texts))
    if ended:
        ctx.ok(rule, '{} lines from {!r}'.format(len(texts), texts[0]))
    elif len(texts) == 1:
        if text:
            ctx.violation(rule, repr(texts[0]), text)
        else:
            ctx.undecided(rule, repr(texts[0]), 'too long')
    else:
        half = len(texts) // 2
        batch(ctx, p, rule, fname, build, texts[:half])
        batch(ctx, p, rule, fname, build, texts[half:])


def file_graphs():
    """All include graphs over three files."""
    names = ('a.conf', 'b.conf', 'c.conf')
    for edges in itertools.product((0, 1), repeat=9):
        files = []
        for i, name in enumerate(names):
            lines = ['[x{}]'.format(i), 'exten => 1,1,NoOp()']
            lines += ['#include ' + names[j] for j in range(3)
                      if edges[3 * i + j]]
            lines += ['exten => 1,n,NoOp()']
            files.append((name, tuple((j + '\n').encode() for j in lines)))
        yield str(edges), files


SPELLINGS = ('#include a.conf', '#include "a.conf"', '#include <a.conf>',
             '#include ./a.conf', '#tryinclude a.conf', ' #include a.conf',
             '#include sub/../a.conf', '#include sub/./a.conf',
             '#include .//a.conf', '#include\ta.conf')


def spelled():
    """Includes of itself, directly and through another file."""
    names = ['a.conf', './a.conf', 'sub/../a.conf', 'sub/./a.conf',
             './/a.conf']
    for text in SPELLINGS:
        body = ['[x]', 'exten => 1,1,NoOp()', text, text]
        yield text, [(n, tuple((j + '\n').encode() for j in body))
                     for n in names]
        other = ['; b', text]
        yield text + ' through b.conf', [
            (n, (b'[x]\n', b'#include b.conf\n', b'#include ./b.conf\n'))
            for n in names] + [
            (n, tuple((j + '\n').encode() for j in other))
            for n in ('b.conf', './b.conf')]


def deep(n):
    """A chain of includes, the last one leads back to each of them."""
    files = []
    for i in range(n):
        lines = ['[x{}]'.format(i), '#include f{}.conf'.format((i + 1) % n)]
        lines += ['#include f{}.conf'.format(j) for j in range(i)]
        files.append(('f{}.conf'.format(i),
                      tuple((j + '\n').encode() for j in lines)))
    return files


def context_graphs(every):
    """
    All include graphs over three contexts, with jumps into the first one or
    into each of them.
    """
    names = ('ca', 'cb', 'cc')
    for edges in itertools.product((0, 1), repeat=9):
        lines = ['[general]', '[globals]', '[jump]']
        n = 1
        for name in names if every else names[:1]:
            for dest in ('5,1', '5,nope', '${X},nope', '5,${L}', 'i,1', '5,7',
                         's,x${L}'):
                lines.append('exten => 9,{},Goto({},{})'.format(
                    n, name, dest))
                n += 1
        for i, name in enumerate(names):
            lines.append('[{}]'.format(name))
            lines += ['include => ' + names[j] for j in range(3)
                      if edges[3 * i + j]]
            if i == 1:
                lines.append('exten => 1,1,NoOp()')
            if i == 2:
                lines.append('exten => i,2(x),NoOp()')
        yield str(edges), [('a.conf', tuple(
            (j + '\n').encode() for j in lines))]


def context_chain(n):
    lines = ['[general]', '[globals]', '[jump]', 'exten => 9,1,Goto(c0,5,1)',
             'include => c0']
    for i in range(n):
        lines.append('[c{}]'.format(i))
        lines.append('include => c{}'.format((i + 1) % n))
        lines.append('include => c{}'.format(i // 2))
        lines.append('include => jump')
    return [('a.conf', tuple((j + '\n').encode() for j in lines))]


# -- (b) ---------------------------------------------------------------

PURE_FUNCS = {'len', 'isinstance', 'ord', 'chr', 'str', 'int', 'bool', 'any',
              'all', 'min', 'max', 'sum', 'abs', 'sorted', 'tuple', 'list',
              'set', 'dict', 'repr', 'hasattr', 'getattr', 'range', 'type',
              'enumerate', 'zip', 'bytes', 'isdigit'}
PURE_METHODS = {'startswith', 'endswith', 'index', 'find', 'rfind', 'strip',
                'lstrip', 'rstrip', 'split', 'lower', 'upper', 'isdigit',
                'isdecimal', 'join', 'format', 'count', 'get', 'keys',
                'values', 'items', 'encode', 'decode', 'replace', 'copy'}
MAXPATHS = 2000


class TooMany(Exception):
    pass


class Cond(ast.Expr):
    """A condition that holds on the path."""


OPPOSITE = {ast.Eq: ast.NotEq, ast.Is: ast.IsNot, ast.In: ast.NotIn,
            ast.Lt: ast.GtE, ast.Gt: ast.LtE}
OPPOSITE.update({b: a for a, b in list(OPPOSITE.items())})


def literals(test, positive=True):
    """[(text, positive)] that hold if the test has this outcome"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return literals(test.operand, not positive)
    if isinstance(test, ast.BoolOp) and (
            isinstance(test.op, ast.And) == positive):
        return [j for i in test.values for j in literals(i, positive)]
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and (
            isinstance(test.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn,
                                     ast.GtE, ast.LtE))):
        test = ast.Compare(test.left, [OPPOSITE[type(test.ops[0])]()],
                           test.comparators)
        positive = not positive
    return [(ast.unparse(test), positive)]


def possible(loop, path):
    """
    False: two conditions of the path exclude each other. None: several
    conditions about the same thing, of which maybe one holds always.
    """
    conds = [loop.test] + [i.value for i in path if isinstance(i, Cond)]
    lits = {j for i in conds for j in literals(i)}
    if any((text, not positive) in lits for text, positive in lits):
        return False
    seen = set()
    for i in conds:
        if isinstance(i, ast.Constant):
            continue
        names = reads(i) - PURE_FUNCS
        if names & seen:
            return None
        seen |= names
    return True


def paths_around(stmts):
    """
    [[statement or expression, ...]]: the paths through the statements that
    reach the head of the loop again. What else may happen (exceptions) is
    left out: these paths are there in any case.
    """
    out = []
    live = [[]]
    for st in stmts:
        nxt = []
        for path in live:
            for kind, more in one(st):
                if kind == 'next':
                    nxt.append(path + more)
                elif kind == 'head':
                    out.append(path + more)
        live = nxt
        if len(live) + len(out) > MAXPATHS:
            raise TooMany()
        if not live:
            break
    return out, live


def seq(stmts):
    """[(kind, nodes)] of a block"""
    heads, live = paths_around(stmts)
    return [('head', i) for i in heads] + [('next', i) for i in live]


def one(st):
    if isinstance(st, (ast.Return, ast.Raise, ast.Break)):
        return []
    if isinstance(st, ast.Continue):
        return [('head', [])]
    if isinstance(st, ast.If):
        res = []
        for body, test in ((st.body, st.test), (
                st.orelse, ast.UnaryOp(ast.Not(), st.test))):
            res += [(k, [Cond(test)] + i) for k, i in (
                seq(body) if body else [('next', [])])]
        return res
    if isinstance(st, (ast.With, ast.AsyncWith)):
        head = [i.context_expr for i in st.items] + [
            i.optional_vars for i in st.items if i.optional_vars]
        # leaving and entering may do anything
        return [(k, head + [ast.Yield()] + i) for k, i in seq(st.body)]
    if isinstance(st, ast.Try):
        res = [(k, i) for k, i in seq(list(st.body) + list(st.orelse))]
        for h in st.handlers:
            # at least what the handler does; the part of the body that
            # ran before is not known, so it counts as a whole
            res += [(k, list(st.body) + i) for k, i in seq(h.body)]
        if st.finalbody:
            fin = seq(st.finalbody)
            res = [(k if k2 == 'next' else k2, i + j)
                   for k, i in res for k2, j in fin]
        return res
    if isinstance(st, (ast.For, ast.While, ast.AsyncFor, ast.Match)):
        # inner loops and the like count as a whole
        return [('next', [st])]
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [('next', [ast.Name(st.name, ast.Store())])]
    return [('next', [st])]


def reads(node):
    """Names that occur; attributes count by the name of the attribute."""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add('.' + n.attr)
    return out


def base_names(target):
    out = set()
    for n in ast.walk(target):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add('.' + n.attr)
    return out


def changes(node):
    """Names that it may store to; None: anything."""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return None
        if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and (
                isinstance(n.ctx, (ast.Store, ast.Del))):
            out |= base_names(n)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in PURE_FUNCS:
                continue
            if isinstance(n.func, ast.Attribute) and (
                    n.func.attr in PURE_METHODS):
                continue
            return None
        elif isinstance(n, (ast.Import, ast.ImportFrom, ast.Global,
                            ast.Nonlocal)):
            return None
    return out


def stuck(loop):
    """(A path around the loop that changes nothing, as text, is sure)"""
    heads, live = paths_around(loop.body)
    read = reads(loop)
    maybe = None
    for path in heads + live:
        nodes = [loop.test] + path
        stored = set()
        for n in nodes:
            c = changes(n)
            if c is None:
                stored = None
                break
            stored |= c
        if stored is None or stored & read:
            continue
        sure = possible(loop, path)
        if sure is False:
            continue
        text = ' -> '.join(ast.unparse(
            i.value if isinstance(i, Cond) else i).split('\n')[0][:60]
            for i in nodes)
        if sure:
            return text, True
        maybe = text
    return maybe, False


def loops(ctx, loader):
    for module in loader.all():
        if module.name.startswith('aldriver'):
            continue
        for fn in ast.walk(module.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in own(fn):
                if not isinstance(n, ast.While):
                    continue
                ctx.count('while loops')
                construct = '{}: {}: while {}'.format(
                    module.rel, fn.name, ast.unparse(n.test))
                try:
                    text, sure = stuck(n)
                except TooMany:
                    ctx.undecided('progress', construct, 'too many paths')
                    continue
                if text and not sure:
                    ctx.undecided('progress', construct, text)
                elif text:
                    ctx.violation(
                        'progress', construct,
                        'line {}: this path around the loop changes nothing '
                        'that the loop looks at: {}'.format(n.lineno, text))
                else:
                    ctx.ok('progress', construct)


def own(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.Lambda)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def check(ctx):
    p = Plan(driver='files')
    p.STEPS = STEPS
    loops(ctx, p.it.loader)
    jobs = []

    def add(rule, items, fname='everything'):
        for name, files in items:
            jobs.append(functools.partial(
                single, ctx, p, rule, name, fname, files))
    graphs = list(file_graphs())
    add('files', graphs)
    add('files', graphs[::1 if ctx.thorough else 8], 'odbc')
    add('spelling', spelled())
    add('chain', [(str(n), deep(n)) for n in (1, 2, 3, 4)])
    add('contexts', context_graphs(ctx.thorough))
    add('context chain', [(str(n), context_chain(n)) for n in (2, 5, 9)])
    part = 1 if ctx.thorough else 2
    for rule, fname, build, texts, size in c02.sources(ctx.thorough):
        for n in malformed.batches(list(texts)[::part], size):
            jobs.append(functools.partial(
                batch, ctx, p, rule, fname, build, n))
    ctx.parallel(jobs)
    ctx.need('while loops', 8)
    ctx.need('inputs', 1000)
