"""
Dialplans with one or more jumps are interpreted abstractly, from the lines to
the end of the jump check; every destination is one that cannot be resolved,
so that the jump check has to name it. Enumerated: the application (Goto,
GotoIf and GosubIf with either or both branches, Gosub with and without
arguments, and all of these nested in ExecIf in either or both branches), the
parts of the destination that are given (priority; extension and priority;
context, extension and priority), numeric and label priorities, literal,
EXTEN and other dynamic parts, upper and lower case names of the application,
the kind of step (first, same, relative priority, with label, pattern), and
several jumps, steps and contexts after each other. Obligation: exactly one
diagnostic per destination, with the line of the step, and with the context,
extension and priority of the destination, where those that were omitted are
those of the step. Commands and web: the entry points are interpreted with a
stand-in parser that reports in the jump check, see C04; the status and the
web results contain what the jump check reports.
"""
import functools
import re

from ..scenario import Plan, judge
from .c12 import matches

# (text of the destination, context or None, exten or None, priority)
DESTS = [
    ('99', None, None, '99'), ('nolab', None, None, 'nolab'),
    ('e9,99', None, 'e9', '99'), ('e9,nolab', None, 'e9', 'nolab'),
    ('${EXTEN},nolab', None, None, 'nolab'),
    ('noctx,e9,99', 'noctx', 'e9', '99'),
    ('noctx,${EXTEN},1', 'noctx', None, '1'),
    ('noctx,s,nolab', 'noctx', 's', 'nolab'),
    ('noctx,${VAR},2', 'noctx', '${VAR}', '2'),
    ('noctx,x${EXTEN},2', 'noctx', ('x', None), '2'),
    ('${CTX},s,nolab', '${CTX}', 's', 'nolab'),
    ('no${CTX},${EXTEN},nolab', 'no${CTX}', None, 'nolab'),
    (',e9,nolab', None, 'e9', 'nolab'), (',,nolab', None, None, 'nolab'),
    ('noctx,,77', 'noctx', None, '77'),
]
MORE = DESTS + [
    ('${VAR},nolab', None, '${VAR}', 'nolab'),
    ('ctx-a,e9,99', 'ctx-a', 'e9', '99'),
    ('noctx,s,${PRIO}', 'noctx', 's', '${PRIO}'),
]
ONE = ('Goto(@)', 'goto(@)', 'Gosub(@)', 'GotoIf($[${A}]?@)',
       'GotoIf(1?:@)', 'GosubIf($[1]?@)', 'GosubIf(${X}?:@)',
       'GotoIf(x?@:)')
ARGS = ('Gosub(@(a))', 'Gosub(@(a,b))', 'GosubIf(1?@(a,b))',
        'GosubIf(1?:@(${X}))', 'ExecIf(1?Gosub(@(a,b)))')
TWO = ('GotoIf($[1]?@:@)', 'GosubIf(1?@:@)', 'GosubIf(1?@(a):@(b,c))',
       'ExecIf(1?Goto(@):Gosub(@))', 'ExecIf(1?Gosub(@(a)):Goto(@))')
NESTED = ('ExecIf(1?Goto(@))', 'ExecIf($[${A}]?NoOp():Goto(@))',
          'ExecIf(1?Gosub(@):NoOp())', 'ExecIf(1?ExecIf(1?Goto(@)))',
          'execif(1?Gosub(@):Verbose(x))')


def shown(d):
    """(line, context, exten, prio) of a diagnostic"""
    prio = d.text('prio')
    if prio is None:
        prio = d.text('label')
    return (d.line,) + tuple(
        i if i is None or str(i)[:4] != "('o'" else '<dynamic>'
        for i in (d.text('context'), d.text('exten'), prio))


def want_of(dest, line, context, own, dynamic='<dynamic>'):
    """What has to be reported."""
    _, c, e, p = dest
    if c is None:
        c = context
    if isinstance(e, tuple):
        e = '<{}own>'.format(e[0]) if own[0] == '_' else e[0] + own
    elif e is None:
        e = '<own>' if own[0] == '_' else own
    return (line,) + tuple(
        dynamic if '$' in str(i) else i for i in (c, e, int(p) if p.isdigit()
                                                  else p))


def scenario(ctx, p, steps):
    """steps: [(context, 'exten => 123,1', own pattern, template, dests)]"""
    ctx.count('scenarios')
    lines = ['[general]', '[globals]']
    want = []
    owns = {}
    last = None
    for context, head, own, template, dests in steps:
        if context != last:
            lines.append('[{}]'.format(context))
            last = context
        parts = template.split('@')
        lines.append('{},{}'.format(head, ''.join(
            a + b for a, b in zip(parts, [d[0] for d in dests] + ['']))))
        for d in dests:
            want.append(want_of(d, len(lines), context, own))
        owns[len(lines)] = own

    def key(d):
        k = shown(d)
        own = owns.get(k[0])
        if own and own[0] == '_' and isinstance(k[2], str):
            for pre in ('', 'x'):
                if k[2].startswith(pre) and matches(own, k[2][len(pre):]):
                    return k[:2] + ('<{}own>'.format(pre),) + k[3:]
        return k
    judge(ctx, 'destination', '; '.join(
        i for i in lines[2:]), p.lint(lines), want,
        get=lambda p: p.after('walk'), key=key)


STEPS = (('exten => 123,1', '123'), ('exten => _1X,1', '_1X'),
         ('exten => s-x,1(lab)', 'sx'), ('exten => _Z.,1', '_Z.'),
         ('exten => +4,1', '+4'))


def plans():
    for head, own in STEPS[:2]:
        for t in ONE + ARGS + NESTED:
            for d in MORE:
                yield [('ctx-a', head, own, t, [d])]
        for t in TWO:
            for n, d in enumerate(MORE):
                yield [('ctx-a', head, own, t, [
                    d, MORE[(n * 5 + 3) % len(MORE)]])]
    # same or nearly same destinations in one step
    near = [i for i in MORE if '$' not in i[0]] + [
        ('noctx,e9,98', 'noctx', 'e9', '98'),
        ('noctx,e8,99', 'noctx', 'e8', '99'),
        ('noctx2,e9,99', 'noctx2', 'e9', '99'),
        ('e9,98', None, 'e9', '98'), ('98', None, None, '98')]
    for t in TWO:
        for d1 in near:
            for d2 in near:
                yield [('ctx-a', 'exten => 123,1', '123', t, [d1, d2])]
    # steps that lose their label, contexts that go on later
    for t in ONE + ARGS + NESTED:
        for n in range(3):
            d = [MORE[(n * 7 + k) % len(MORE)] for k in range(5)]
            yield [
                ('ctx-a', 'exten => 123,1(lab)', '123', t, [d[0]]),
                ('ctx-a', 'exten => 123,n(lab)', '123', t, [d[1]]),
                ('ctx-a', 'exten => _4X,1(lab)', '_4X', t, [d[2]]),
                ('other', 'exten => 55,1', '55', t, [d[2]]),
                ('ctx-a', 'exten => 123,3(lab)', '123', t, [d[3]]),
                ('ctx-a', 'same => n', '123', t, [d[4]]),
                ('other', 'exten => 56,1', '56', t, [d[3]])]
    for head, own in STEPS[2:]:
        for t in ('Goto(@)', 'GotoIf(1?:@)', 'Gosub(@(a,b))',
                  'ExecIf(1?Goto(@))'):
            for d in MORE:
                yield [('ctx-a', head, own, t, [d])]
    # after each other
    every = ONE + ARGS + NESTED
    for n in range(60):
        t = [every[(n * k + k) % len(every)] for k in (1, 3, 5, 7, 11)]
        d = [MORE[(n * k + 2 * k) % len(MORE)] for k in (1, 3, 5, 7, 11)]
        yield [
            ('ctx-a', 'exten => 123,1', '123', t[0], [d[0]]),
            ('ctx-a', 'same => n', '123', t[1], [d[1]]),
            ('ctx-a', 'exten => 123,n(lab)', '123', t[2], [d[2]]),
            ('ctx-a', 'exten => _2X,1', '_2X', t[3], [d[3]]),
            ('other', 'exten => s,1', 's', t[4], [d[4]]),
            ('other', 'same => n(lab)', 's', t[0], [d[4]]),
            ('other', 'same => 3', 's', t[1], [d[3]])]


def check(ctx):
    jobs = []
    for version in ('v11', 'v13'):
        p = Plan(version)
        for steps in plans():
            if reported(steps):
                jobs.append(functools.partial(scenario, ctx, p, steps))
    ctx.parallel(jobs)
    ctx.need('scenarios', 500)


def reported(steps):
    """Does the jump check name each of the destinations?"""
    for context, head, own, t, dests in steps:
        for text, c, e, p in dests:
            if '$' in p and not (c and '$' not in c):
                return False
    return True
