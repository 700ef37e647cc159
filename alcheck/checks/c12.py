"""
The dialplan model and the jump check are interpreted abstractly over
dialplans that partition the ways in which a jump can be resolved: context
(own, other, missing, dynamic), extension (literal step, pattern step, step of
an included context at one or two levels, of circular and missing includes,
fallback extension here or in an included context, none, dynamic), priority
(existing, missing, label of the step, of another step, of another context,
nowhere, dynamic, partly dynamic). Each jump is the only one of a dialplan,
and each is between jumps that can and jumps that cannot be resolved; a set of
patterns, each with jumps to a set of extensions. The
oracle is an independent model of the resolution; the diagnostics between the
start and the end of the jump check must be exactly one at the line of each
jump that the model cannot resolve, and none elsewhere.
"""
import functools
import re

from ..scenario import Plan, judge

# context: (includes, [(pattern, prio, label)])
PLANS = {
    'plain': {
        'main': ([], [('s', 1, ''), ('s', 2, 'lab'), ('_1XX', 1, 'pat'),
                      ('_1XX', 2, ''), ('200', 1, ''), ('200', 3, 'far')]),
        'other': ([], [('s', 1, 'olab'), ('_Z.', 1, ''), ('_Z.', 2, 'zed')]),
    },
    'include': {
        'main': (['inner'], [('s', 1, ''), ('s', 2, 'lab')]),
        'inner': (['deep', 'absent'], [('_1XX', 1, 'pat'), ('_1XX', 2, '')]),
        'deep': ([], [('200', 1, ''), ('200', 2, 'far'), ('s', 3, '')]),
        'other': (['absent'], [('s', 1, 'olab')]),
    },
    'circular': {
        'main': (['inner'], [('s', 1, ''), ('s', 2, 'lab')]),
        'inner': (['other', 'main'], [('_1XX', 1, 'pat'), ('_1XX', 2, '')]),
        'other': (['other', 'inner'], [('200', 1, ''), ('200', 2, 'far')]),
    },
    'fallback': {
        'main': ([], [('s', 1, ''), ('s', 2, 'lab'), ('i', 1, 'bad')]),
        'other': ([], [('_1XX', 1, 'pat'), ('i', 2, '')]),
    },
    'inherited fallback': {
        'main': (['inner'], [('s', 1, ''), ('s', 2, 'lab')]),
        'inner': ([], [('_1XX', 1, 'pat'), ('i', 1, 'bad')]),
        'other': (['absent', 'inner'], [('200', 1, '')]),
    },
    'late fallback': {
        'other': (['inner'], [('200', 1, '')]),
        'inner': (['main'], [('_1XX', 1, 'pat')]),
        'main': ([], [('i', 1, 'bad'), ('s', 1, ''), ('s', 2, 'lab')]),
    },
    'overlap': {
        'main': ([], [('_1XX', 1, 'pat'), ('_1XX', 2, ''), ('_1.', 1, ''),
                      ('_1.', 2, ''), ('_1.', 3, 'wide'), ('123', 1, ''),
                      ('123', 2, 'own'), ('s', 1, '')]),
        'other': (['main'], [('_12X', 4, 'narrow'), ('_X.', 5, '')]),
    },
}
CONTEXTS = ('main', 'other', 'absent', 'Main', '${CTX}', 'ma${CTX}')
EXTENS = ('s', '123', '200', '999', 'x', '${E}', '1${E}')
PRIOS = ('1', '2', '3', '7', 'lab', 'pat', 'far', 'olab', 'bad', 'wide',
         'own', 'narrow', 'nowhere', 'Lab', '${P}', 'la${P}', '9${P}')


# One step with this pattern; jumps to each of these extensions.
PATTERNS = (
    '_NXX', '_ZN', '_x-n', '_[2-4]X', '_[13-5]Z!', '_[a-c1]7', '_9!', '_9.',
    '_.', '_!', '_X.', '_1-2X', '1-23', '12', '_12', '_a!b', '_[24]', 'x',
    '_s', '_[5]5', '_0[0-9]N.', '_+X!', '_[+0]1')
TARGETS = (
    '1', '2', '9', '12', '1-2', '123', '1-23', '22', '24', '29', '33', '55',
    '17', 'a7', 'b-7', '234', '199', '211', '91', '19', '93', '4', 'x', 's',
    'a', 'ab', '0123', '002', '0021', '+', '+1', '01', '+12')


def matches(pattern, exten):
    exten = exten.replace('-', '')
    if pattern[0] != '_':
        return pattern.replace('-', '') == exten
    out = []
    for part in re.findall(r'\[[^]]*\]|.', pattern[1:]):
        if part == '.':
            out.append('.+')
            break
        if part == '!':
            out.append('.*')
            break
        if part != '-':
            out.append({'X': '[0-9]', 'Z': '[1-9]', 'N': '[2-9]'}.get(
                part.upper(), part if part[0] == '[' else re.escape(part)))
    return bool(re.match('^' + ''.join(out) + '$', exten))


def reachable(plan, name):
    seen, todo = [], [name]
    while todo:
        name = todo.pop()
        if name in plan and name not in seen:
            seen.append(name)
            todo.extend(plan[name][0])
    return [step for n in seen for step in plan[n][1]]


def resolvable(plan, context, exten, prio):
    """The model."""
    label = not prio.isdigit() and '$' not in prio
    if '$' in context:
        return not label or any(
            prio == s[2] for c in plan.values() for s in c[1])
    if context not in plan:
        return False
    if '$' in exten:
        return not label or any(prio == s[2] for s in plan[context][1])
    steps = reachable(plan, context)
    mine = [s for s in steps if matches(s[0], exten)]
    if '$' in prio:
        head = prio.split('$')[0]
        return any(not head or str(s[1]).startswith(head) or
                   s[2].startswith(head) for s in mine)
    if label:
        return any(s[2] == prio for s in mine)
    return any(s[1] == int(prio) for s in mine) or any(
        matches(s[0], 'i') and s[1] == 1 for s in steps)


def lines_of(plan, jumps):
    """(lines, line of each jump)"""
    lines = ['[general]', '[globals]', '[source]']
    where = []
    for n, (context, exten, prio) in enumerate(jumps):
        lines.append('exten => 77,{},Goto({},{},{})'.format(
            n + 1, context, exten, prio))
        where.append(len(lines))
    for name, (includes, steps) in plan.items():
        lines.append('[{}]'.format(name))
        lines.extend('exten => {},{}{},Answer()'.format(
            pat, prio, '({})'.format(label) if label else '')
            for pat, prio, label in steps)
        lines.extend('include => ' + i for i in includes)
    return lines, where


def scenario(ctx, p, title, plan, jumps):
    ctx.count('scenarios')
    lines, where = lines_of(plan, jumps)
    want = [w for w, j in zip(where, jumps) if not resolvable(plan, *j)]
    judge(ctx, 'one diagnostic per jump that cannot be resolved',
          '{}: {}'.format(title, ' '.join('Goto({})'.format(
              ','.join(j)) for j in jumps)),
          p.lint(lines), want, get=lambda p: p.after('walk'),
          key=lambda d: d.line)


def check(ctx):
    p = Plan()
    jobs = []
    for title, plan in PLANS.items():
        jumps = [(c, e, r) for c in CONTEXTS for e in EXTENS for r in PRIOS
                 if useful(plan, c, e, r)]
        good = [j for j in jumps if resolvable(plan, *j)]
        bad = [j for j in jumps if not resolvable(plan, *j)]
        ctx.count('jumps', len(jumps))
        for j in jumps:
            jobs.append((title, plan, [j]))
        # mixed
        for n in range(0, len(jumps), 1 if ctx.thorough else 3):
            a, b = bad[n % len(bad)], good[(n * 7) % len(good)]
            jobs.append((title, plan, [a, jumps[n], b, a]))
    for pattern in PATTERNS:
        for k in range(0, len(TARGETS), 12):
            jobs.append(('pattern ' + pattern, {
                'main': ([], [(pattern, 1, 'lab')])}, [
                    ('main', t, r) for t in TARGETS[k:k + 12]
                    for r in ('1', 'lab')]))
    ctx.parallel([functools.partial(scenario, ctx, p, *j) for j in jobs])
    ctx.need('scenarios', 500)


def useful(plan, context, exten, prio):
    """Leave out labels and extensions that this plan does not have."""
    labels = [s[2] for c in plan.values() for s in c[1]]
    if prio.isalpha() and prio not in ('nowhere', 'Lab') and (
            prio not in labels):
        return False
    return context in ('main', 'other') or prio in (
        '1', '7', 'nowhere', '${P}', 'pat')
