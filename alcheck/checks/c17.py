"""
Order taint over the syntax trees of all functions: sets and directory
listings have no defined order; lists, dicts, generators, text and attributes
built in their order carry the taint through assignments, returns and calls,
until sorted with a key that tells distinct items apart. Obligation, per
function: no tainted collection reaches output, a diagnostic or text, no
output or diagnostic is emitted per item of one, and no element is chosen by
coming first. Besides, no hash(), id(), clock or random value is used in
output.

Scenarios: ident-scan and modules-show are interpreted abstractly over
colliding identifiers (differing in case only, equally long, equally similar)
where every iteration over a set is taken in all orders; the printed text must
be the same for all of them.
"""
import ast
import itertools

from .. import harness, world
from ..loader import Loader
from ..order import Order, dotted
from ..values import V, V_FALSE, V_TRUE, v_int, v_str, v_tuple
from .c04 import MAIN, load, names, vague

VOLATILE = {
    'hash', 'id', 'time.time', 'time.monotonic', 'os.getpid', 'uuid.uuid4',
    'random.random', 'random.choice', 'random.shuffle', 'random.randint',
    'random.sample', 'os.urandom', 'datetime.now', 'datetime.datetime.now',
    'time.perf_counter', 'time.ctime', 'time.strftime', 'time.asctime'}


def printed(st):
    """Text printed or None if it is not known"""
    ret = []
    for e in st.tr:
        if e[0] == 'print':
            args = []
            for a in e[2]:
                o = a.one
                if not o or o[0] != 's' or not isinstance(o[1], str):
                    return None
                args.append(o[1])
            ret.append((e[1], ' '.join(args)))
    return tuple(ret)


def orders(st):
    return tuple(sorted((k, str(v)) for k, v in st.ts.items()
                        if k.startswith('@order')))


def judge(ctx, rule, construct, res):
    texts = {}
    for kind, st, v in res:
        t = printed(st)
        if vague(st) or t is None or kind != 'r':
            ctx.undecided(rule, construct, (kind, v))
            return
        texts.setdefault(t, set()).add(orders(st))
    if not texts:
        ctx.undecided(rule, construct, 'no result')
        return
    if len(texts) == 1:
        ctx.ok(rule, construct)
        return
    # Two outputs for the same iteration order: the difference stems from
    # the abstraction.
    common = set.intersection(*texts.values())
    a, b = list(texts)[:2]
    diff = next(((x, y) for x, y in itertools.zip_longest(a, b) if x != y))
    if common:
        ctx.undecided(rule, construct, diff)
        return
    ctx.violation(rule, construct, 'output depends on the iteration order of '
                  'a set: {!r} or {!r}'.format(
                      *(i and i[1] for i in diff)))


def check(ctx):
    loader = Loader()
    modules = [m for m in loader.all()
               if m.name.split('.')[0] in ('asterisklint', 'web', 'scripts')]
    o = Order(modules)
    bad = {}
    for (qual, text), (message, at) in o.violations.items():
        bad.setdefault(qual, []).append((text, message, at))
    for f in o.funcs:
        ctx.count('functions')
        if f.qual not in bad:
            ctx.ok('order', f.qual)
        for text, message, at in bad.get(f.qual, ()):
            ctx.violation('order', '{} {}'.format(f.qual, text), message,
                          [at])
        if f.node.name in ('__hash__', '__repr__'):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and dotted(n.func) in VOLATILE:
                ctx.undecided('volatile', '{} {}'.format(
                    f.qual, ast.unparse(n)), 'differs per run')
    ctx.stats['sources'] = o.sources
    ctx.need('functions', 300)
    ctx.need('sources', 5)

    it = harness.install(world.make(), emits=False)
    it.hooks['print'] = harness.print_hook(it)
    it.hooks['unknown'] = harness.unknown_hook
    d = harness.Driver('status', it=it, vars=False, trace=True)
    mod = load(it, 'asterisklint.commands.ident-scan')
    modv = V([('mod', 'asterisklint.commands.ident-scan')])
    for contexts, labels in (
            ((), ('somelabel', 'SomeLabel')),
            (('somecontext', 'SomeContext'), ()),
            (('somelabel',), ('SomeLabel',)),
            (('somelabel',), ('SOMElabel', 'someLABEL')),
            (('some1',), ('some2', 'some3')),
            (('some1', 'Some1'), ('SOme1',)),
            (('short',), ('a-longer-one', 'yet-a-longer-one'))):
        for dist, verbose in itertools.product((0, 2, 9), (V_FALSE, V_TRUE)):
            ctx.count('scenarios')
            judge(ctx, 'ident-scan', '{} contexts {} labels {} distance {}'
                  .format('verbose' if verbose == V_TRUE else 'short',
                          '+'.join(contexts), '+'.join(labels), dist),
                  d.run('ident_scan', [
                      modv, mod.f['main'], v_int(dist), verbose,
                      names(contexts), names(labels)]))
    mod = load(it, 'asterisklint.commands.modules-show')
    for r in (('app', 'app2'), ('app', 'app3'), ('app3', 'app2', 'app'),
              ('func', 'func2'), ('func3', 'func'),
              ('func', 'func2', 'func3'), ('app', 'func', 'app3', 'func3'),
              ('use-app:Dial', 'use-app:Verbose', 'use-app:Set'),
              ('use-func:LEN', 'use-func:CALLERID', 'use-func:CUT'),
              ('use-app:Queue', 'use-func:QUEUE_MEMBER'),
              ('use-app:Dial', 'use-func:CUT', 'app', 'func')):
        ctx.count('scenarios')
        judge(ctx, 'modules-show', '+'.join(r), d.run('command', [
            mod.f['main'], names(()), names(r), names(())]))
    list_commands = load(it, MAIN).f.get('list_commands')
    it.overrides[MAIN + ':load_command'] = (
        lambda it_, st, args, kwargs, node: [(st, documented)])
    it.ext = dict(it.ext)
    for text in ('Same text.',):
        for dirs in (('/one',), ('/one', '/two'), ('/two', '/one')):
            for files in (('aa.py', 'bb.py'), ('aa.py', 'b.txt', 'b.py')):
                it.ext['sys.path'] = v_tuple([v_str(i) for i in dirs])
                it.dirs = {i + '/asterisklint/commands': files for i in dirs}
                st = world.fresh(it)
                (s, documented), = it.call_class(
                    st, 'aldriver.status:Documented', [v_str(text)], {},
                    None)
                for k, ob in s.heap.items():
                    it.base[k] = ob
                ctx.count('scenarios')
                judge(ctx, 'ls', '{} in {}'.format(
                    '+'.join(files), '+'.join(dirs)),
                    d.run('list_all', [list_commands]))
    ctx.need('scenarios', 40)
    ctx.assumptions.append(
        'dicts iterate in insertion order and sorted() is stable, as Python '
        'and PyPy guarantee')
