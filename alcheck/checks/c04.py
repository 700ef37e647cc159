"""
The entry points of the commands are interpreted abstractly with a parser
that reports diagnostics as the scenario says: none, ignored ones, others and
mixtures of several classes, during the reading of func_odbc, of the dialplan,
or during the jump check. Obligations: dialplan-check and func_odbc-check end
with status 1 exactly when a diagnostic that is not ignored was reported in
any phase, ident-scan exactly when it prints similar identifiers (distance
large or small, verbose or not), modules-show exactly when an unknown
application or function was reported. The value that handle_args returns is
the status of the process, through the base class, the main function and the
script (interpreted as the main module); an unknown command gives status 1 and
text on standard error.
"""
import itertools

from .. import harness, world
from ..loader import AnalysisBroken
from ..values import V, V_FALSE, V_NONE, V_TRUE, v_int, v_str, v_tuple

MAIN = 'asterisklint.main'


def load(it, name, main=False):
    st = world.fresh(it)
    it.cur_st = st
    it.main_module = name if main else None
    it.concrete = not main
    try:
        oid = it.load_module(st, name)
    finally:
        it.concrete = False
        it.main_module = None
    if oid is None:
        raise AnalysisBroken('no module ' + name)
    if main:
        return None
    for k, o in st.heap.items():
        it.base[k] = o
    return it.base[oid]


def names(v):
    return v_tuple([v_str(x) for x in v])


def status(v):
    """Exit status of sys.exit(v): int, or None if not known"""
    a = v.one if isinstance(v, V) else None
    if a is None:
        return None
    if a == ('none',):
        return 0
    if a[0] == 'b':
        return int(a[1])
    if a[0] == 'i' and a[1] is not None and a[1] == a[2]:
        return a[1]
    if a[0] == 's':
        return 1
    return None


def vague(st):
    return bool(st.ts.get('unk'))


def outcome(kind, st, v):
    if kind == 'r':
        return status(v)
    if kind == 'x' and v.name == 'SystemExit' and v.val is not None:
        a = v.val.one
        if a and a[0] == 'x' and a[1] == 'exc':
            args = a[3].one[1] if a[3].one else ()
            return status(args[0]) if args else 0
        return status(v.val)
    return None


def judge(ctx, rule, construct, res, want, ran=()):
    """want: int, or function of the state"""
    if not res:
        ctx.undecided(rule, construct, 'no result')
    good = [1 for kind, st, v in res
            if not callable(want) and outcome(kind, st, v) == want]
    for kind, st, v in res:
        got = outcome(kind, st, v)
        if vague(st) or got is None:
            ctx.undecided(rule, construct, '{} {}'.format(kind, v))
            continue
        w = want(st) if callable(want) else want
        # A scenario is deterministic: of differing outcomes one is due to
        # the abstraction.
        ctx.decide(got == w or (None if good else False), rule, construct,
                   'status {} instead of {}'.format(got, w))
        for name in ran:
            ctx.decide(bool(st.ts.get(name)), 'complete', construct,
                       '{} never runs to its end'.format(name))


REPORTS = ((), ('one',), ('ignored',), ('ignored', 'one'),
           ('one', 'ignored'), ('ignored', 'ignored2'), ('one', 'two'),
           ('ignored', 'one', 'two'), ('ignored', 'ignored'), ('one', 'one'))


def check(ctx):
    it = harness.install(world.make(), emits=False)
    it.hooks['print'] = harness.print_hook(it)
    it.hooks['unknown'] = harness.unknown_hook
    d = harness.Driver('status', it=it, vars=False, trace=True)
    for name, phases in (
            ('dialplan-check', ('func_odbc', 'parse', 'walk')),
            ('func_odbc-check', ('func_odbc',))):
        main = load(it, 'asterisklint.commands.' + name).f.get('main')
        if main is None:
            raise AnalysisBroken('{} has no main'.format(name))
        ran = ('func_odbc', 'parsed', 'walked') if len(phases) > 1 else (
            'func_odbc',)
        plans = [dict([(p, r)]) for p in phases for r in REPORTS]
        plans += [{a: ('ignored',), b: ('one',)}
                  for a, b in itertools.permutations(phases, 2)]
        for plan in plans:
            construct = '{} {}'.format(name, ', '.join(
                '{} in {}'.format('+'.join(r) or 'nothing', p)
                for p, r in sorted(plan.items())))
            want = int(any(i in ('one', 'two') for r in plan.values()
                           for i in r))
            ctx.count('scenarios')
            judge(ctx, 'status', construct, d.run(
                'command', [main] + [
                    names(plan.get(p, ()))
                    for p in ('func_odbc', 'parse', 'walk')]), want, ran)

    mod = load(it, 'asterisklint.commands.modules-show')
    for r in ((), ('app',), ('func',), ('app', 'func'), ('one',),
              ('one', 'app'), ('app', 'app'), ('func', 'one')):
        for phase in ('parse', 'func_odbc'):
            if phase == 'func_odbc' and r not in ((), ('one',)):
                continue
            construct = 'modules-show {} in {}'.format(
                '+'.join(r) or 'nothing', phase)
            ctx.count('scenarios')
            judge(ctx, 'modules-show', construct, d.run('command', [
                mod.f['main'], names(r if phase == 'func_odbc' else ()),
                names(r if phase == 'parse' else ()), names(())]),
                int('app' in r or 'func' in r), ('parsed',))

    mod = load(it, 'asterisklint.commands.ident-scan')
    modv = V([('mod', 'asterisklint.commands.ident-scan')])
    for dist, verbose in itertools.product((0, 1, 2, 9), (V_FALSE, V_TRUE)):
        for contexts, labels in (
                (('first-context',), ('first-context2',)),
                (('first-context', 'First-context'), ()),
                ((), ('somelabel', 'SomeLabel'))):
            construct = 'ident-scan distance {}{} {}'.format(
                dist, ' verbose' if verbose == V_TRUE else '',
                '+'.join(contexts + labels))
            ctx.count('scenarios')
            judge(ctx, 'ident-scan', construct, d.run('ident_scan', [
                modv, mod.f['main'], v_int(dist), verbose, names(contexts),
                names(labels)]), int(dist <= 2) if verbose == V_TRUE else (
                    lambda st: int(st.ts.get('print:stdout', 0) > 0)))

    values = ((V_NONE, 0), (v_int(0), 0), (v_int(1), 1), (V_TRUE, 1),
              (V_FALSE, 0))
    base = load(it, 'asterisklint.mainutil').f.get('MainBase')
    main = load(it, MAIN).f.get('main')
    if base is None or main is None:
        raise AnalysisBroken('MainBase or main has vanished')
    fake = {}

    def load_command(it_, st, args, kwargs, node):
        return [(st, fake['module'])]
    it.overrides[MAIN + ':load_command'] = load_command
    for value, want in values:
        judge(ctx, 'propagate', 'MainBase returns {}'.format(value),
              d.run('propagated', [base, value]), want)
        st = world.fresh(it)
        # the command module
        (s, inst), = it.call_class(st, 'aldriver.status:Module', [value], {},
                                   None)
        for k, o in s.heap.items():
            it.base[k] = o
        fake['module'] = inst
        judge(ctx, 'propagate', 'main() of a command that returns {}'.format(
            value), d.run('run_main', [main, value]), want)
        ctx.count('scenarios', 2)
    del it.overrides[MAIN + ':load_command']

    for name in ('no-such-command', 'Invalid!', '..', '-'):
        construct = 'unknown command {!r}'.format(name)
        res = d.run('unknown', [main, v_str(name)])
        for kind, st, v in res:
            if vague(st):
                ctx.undecided('unknown', construct, v)
            elif kind == 'x' and v.name == 'SystemExit':
                ctx.ok('unknown', construct)
            elif kind == 'x':
                ctx.decide(False if v.ev else None, 'unknown', construct,
                           'ends with {}'.format(v))
            elif status(v) is None:
                ctx.undecided('unknown', construct, v)
            else:
                ctx.decide(status(v) == 1, 'unknown', construct,
                           'status {} instead of 1'.format(status(v)))
                ctx.decide(bool(st.ts.get('print:stderr')), 'unknown',
                           construct, 'nothing on standard error')

    # The script.
    for value, want in values:
        it.overrides[MAIN + ':main'] = (
            lambda it_, st, args, kwargs, node, value=value: [
                (st, value)])
        construct = 'script with main() returning {}'.format(value)
        it.main_outs = None
        load(it, 'scripts.asterisklint', True)
        for kind, st, v in it.main_outs or ():
            got = outcome(kind, st, v)
            if kind == 'n':
                ctx.decide(want == 0, 'script', construct,
                           'status 0 instead of {}'.format(want))
            elif got is None or vague(st):
                ctx.undecided('script', construct, v)
            else:
                ctx.decide(got == want, 'script', construct,
                           'status {} instead of {}'.format(got, want))
    del it.overrides[MAIN + ':main']
    ctx.need('scenarios', 60)
    ctx.assumptions.append(
        'reading and the jump check report diagnostics only while they run; '
        'they are replaced by stand-ins with the same public methods')
