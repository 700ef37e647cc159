"""
Interpreted from the bytes of the lines on, for both versions:
(a) every application of the reference table in its own spelling, in other
cases and with a name that does not exist, as a step and in both branches of a
conditional step; every function likewise, read and written, and some of them
in each place where a function may be called (as an argument of every
application and of every function, nested, in expressions, substrings, jumps,
conditions and on either side of an assignment). Obligation: on that line
there is exactly one diagnostic about each name that is unknown or has another
case, with the name as it was written, and none about the others.
(b) every application and function, known or not, gets arguments that are
unbalanced: exactly one diagnostic about that, except for the applications in
SEPARATED, which separate their arguments and report too many, too few or
arguments separated by a pipe, and those with checks of their own.
"""
import functools
import itertools
import json
import os
from collections import Counter

from ..scenario import Plan, driver_fault

TABLE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'tables', 'registry.json')
APPS = ('E_APP_MISSING', 'W_APP_BAD_CASE')
FUNCS = ('E_FUNC_MISSING', 'E_FUNC_BAD_CASE')
BALANCE = ('W_APP_BALANCE', 'W_FUNC_BALANCE')
SIZE = 16

# What these applications report instead.
PIPES = ('Goto', 'Gosub', 'Milliwatt', 'Originate', 'VoiceMail')
CONDITIONAL = ('ExecIf', 'ExecIfTime', 'GotoIf', 'GotoIfTime', 'GosubIf')
SEPARATED = PIPES + CONDITIONAL
# The diagnostics of the checks of single applications and functions.
OWN = {
    'Set': [('Set()', 'E_ASSIGN_EMPTY'), ('Set(a)', 'E_ASSIGN_NO_EQUALS'),
            ('Set(a b=c)', 'W_ASSIGN_SPACES')],
    'SET': [('NoOp(${SET(a)})', 'E_ASSIGN_NO_EQUALS'),
            ('NoOp(${SET()})', 'E_ASSIGN_EMPTY'),
            ('NoOp(${SET(a b=c)})', 'W_ASSIGN_SPACES'),
            ('Set(SET(a)=x)', 'E_ASSIGN_NO_EQUALS')],
    'INC': [('NoOp(${INC(a-b)})', 'E_VAR_BAD_TOKENS'),
            ('Set(x=${INC(a b)})', 'E_VAR_BAD_TOKENS')],
    'DEC': [('NoOp(${DEC(a-b)})', 'E_VAR_BAD_TOKENS'),
            ('Set(x=${DEC(a b)})', 'E_VAR_BAD_TOKENS')],
    'AUDIOHOOK_INHERIT': [
        ('NoOp(${AUDIOHOOK_INHERIT(x)})', 'E_FUNC_BAD_ARGS'),
        ('Set(AUDIOHOOK_INHERIT(mixmonitor)=yes)', 'E_FUNC_BAD_ARGS')],
    'Milliwatt': [('Milliwatt(q)', 'E_APP_ARG_BADOPT'),
                  ('Milliwatt(oo)', 'E_APP_ARG_DUPEOPT')],
    'VoiceMail': [('VoiceMail(x,q)', 'E_APP_ARG_BADOPT'),
                  ('VoiceMail(x,uu)', 'E_APP_ARG_DUPEOPT')],
    'GotoIf': [('GotoIf(1?1:2)', 'E_APP_ARG_IFCONST'),
               ('GotoIf(?1:2)', 'E_APP_ARG_IFEMPTY'),
               ('GotoIf(${A}?c,e,1,x)', 'E_APP_ARG_MANY'),
               ('GotoIf(${A}?:c,e,1,x)', 'E_APP_ARG_MANY')],
    'GosubIf': [('GosubIf(1?1:2)', 'E_APP_ARG_IFCONST'),
                ('GosubIf(${A}?c,e,1,x)', 'E_APP_ARG_MANY'),
                ('GosubIf(${A}?1(a)', 'W_APP_BALANCE')],
    'ExecIf': [('ExecIf(1?NoOp(a))', 'E_APP_ARG_IFCONST'),
               ('ExecIf(?NoOp(a))', 'E_APP_ARG_IFEMPTY'),
               ('ExecIf(${A}?NoOp((a):Wait(1))', 'W_APP_BALANCE')],
    'Gosub': [('Gosub(1(a)', 'W_APP_BALANCE')],
}

# Where an application may be called; %s: the call
STEPS = ('5,1,%s', '5,1,ExecIf(${A}?%s)', '5,1,ExecIf(${A}?NoOp():%s)',
         '5,1,ExecIf(${A}?%s:Wait(1))', '5,1,ExecIf($[${A}=1]? %s)')

# Where a function may be read.
READS = (
    'NoOp(%s)', 'NoOp(a%sb)', 'NoOp(${A}%s)', 'NoOp(%s,${A})', 'NoOp("%s")',
    'NoOp(${A%s})', 'NoOp(${A%sB})', 'NoOp(${%s:1})', 'NoOp(${A:%s})',
    'NoOp(${A:1:%s})', 'NoOp($[%s])', 'NoOp($[1+%s])', 'NoOp($[%s + ${A}])',
    'NoOp($[${A%s}])', 'NoOp(${LEN(%s)})', 'NoOp(${LEN(a%sb)}:1)',
    'NoOp(${IF($[${A}]?%s:x)})', 'NoOp(${LEN(${A})}%s)',
    'NoOp(${LEN(${SET(A=%s)})})', 'NoOp(${MATH($[1+%s])})', 'Set(A=%s)',
    'Set(A%s=1)', 'Set(CDR(%s)=1)', 'Set(CDR(a)=%s)', 'Set(CDR(a%s)=${B})',
    'Goto(%s,1)', 'Goto(5,%s)', 'Goto(%s)', 'GotoIf(%s?1)',
    'GotoIf($[%s]?1:2)', 'GotoIf(${A}?%s,1)', 'GotoIf(${A}?1:5,%s)',
    'Gosub(x,s,1(%s))', 'GosubIf(%s?x,s,1(a))', 'GosubIf(${A}?x,s,1(%s))',
    'ExecIf(%s?NoOp(a))', 'ExecIf($[%s]?NoOp(a))', 'ExecIf(${A}?NoOp(%s))',
    'ExecIf(${A}?NoOp(a):NoOp(%s))', 'ExecIf(${A}?Set(A=%s))',
    'While($[%s < 1])', 'VoiceMail(%s,u)', 'Originate(%s,exten,a,b)',
    'Dial(SIP/%s,20)', 'Verbose(%s)', 'Return(%s)', 'MSet(A=%s)')

# Where a function may be written.
WRITES = ('Set(%s=1)', 'Set(%s=)', 'Set(%s=a=b)', 'Set(%s=${A})',
          'Set(%s=$[1])', 'ExecIf(${A}?Set(%s=1))',
          'ExecIf(${A}?NoOp():Set(%s=1))', 'NoOp(${SET(%s=1)})')


def want(found, proper, kind):
    """What is reported about a name, as written."""
    missing, case = APPS if kind == 'app' else FUNCS
    if proper is None:
        return [(missing, found)]
    return [(case, found)] if found != proper else []


def spellings(name):
    out = [name]
    for i in (name.upper(), name.lower(), name.swapcase(),
              name[:-1] + name[-1].swapcase()):
        if i not in out:
            out.append(i)
    return out


def app_lines(table):
    for name, module in sorted(table['app'].values()):
        if name in ('Unknown', 'Background'):
            continue
        for spelled in spellings(name):
            for form in STEPS if spelled in (
                    name, name.swapcase()) else STEPS[:1]:
                yield (form % (spelled + '(x)'), APPS,
                       want(spelled, name, 'app'))
        yield '5,1,X{}(x)'.format(name), APPS, [APPS[:1] + ('X' + name,)]
        yield '5,1,{}(${{xfunc(1)}}${{len(a)}})'.format(name), FUNCS, [
            (FUNCS[0], 'xfunc'), (FUNCS[1], 'len')]
    for name in ('Nope', 'unknown', 'UNKNOWN', 'Background1', 'ExecI', 'noop'):
        proper = {'noop': 'NoOp'}.get(name)
        if name.lower() == 'unknown' and 'unknown' in table['app']:
            continue
        for form in STEPS:
            yield form % (name + '(x)'), APPS, want(name, proper, 'app')
            yield form % (name + '(${xfunc(1)})'), APPS + FUNCS, want(
                name, proper, 'app') + [(FUNCS[0], 'xfunc')]
        yield '5,1,' + name, APPS, want(name, proper, 'app')
    calls = [(name + data, want(name, proper, 'app'))
             for name, proper in (('Nope', None), ('wait', 'Wait'),
                                  ('Wait', 'Wait'), ('Dial', 'Dial'),
                                  ('VoiceMail', 'VoiceMail'), ('Nopa', None))
             for data in ('(x)', '()', '(${B})', '')]
    for (a, w1), (b, w2) in itertools.product(calls, repeat=2):
        yield '5,1,ExecIf(${A}?%s:%s)' % (a, b), APPS, w1 + w2
    yield '5,1,ExecIf(${A}?Nope(a):WAIT(b))', APPS, [
        (APPS[0], 'Nope'), (APPS[1], 'WAIT')]
    yield '5,1,execif(${A}?Nope(a))', APPS, [
        (APPS[0], 'Nope'), (APPS[1], 'execif')]
    yield '5,1,ExecIf(${A}?ExecIf(${B}?Nope(a)))', APPS, [(APPS[0], 'Nope')]
    for spelled in ('Background', 'BackGround'):
        yield '5,1,' + spelled + '(x)', APPS, []
    # A name that cannot be looked up.
    reported = APPS + ('E_APP_WSH',)
    yield '5,1,', reported, [(APPS[0], '(none)')]
    yield '5,1,(x)', reported, [(APPS[0], '(none)')]
    yield '5,1,Wait (1)', reported, [('E_APP_WSH', 'Wait ')]
    yield '5,1,Nope (1)', reported, [('E_APP_WSH', 'Nope ')]
    yield '5,1,ExecIf(${A}?Wait (1))', reported, [('E_APP_WSH', 'Wait ')]
    yield '5,1,ExecIf(${A}? Nope(1))', reported, [(APPS[0], 'Nope')]


def func_lines(table):
    names = [i for i, _ in sorted(table['func'].values()) if i != 'UNKNOWN']
    for name in names:
        for spelled in spellings(name):
            w = want(spelled, name, 'func')
            for arg in ('x', '') if spelled == name else ('x',):
                yield '5,1,NoOp(${%s(%s)})' % (spelled, arg), FUNCS, w
                yield '5,1,Set(%s(%s)=y)' % (spelled, arg), FUNCS, w
        w = [(FUNCS[0], 'X' + name)]
        yield '5,1,NoOp(${X%s(x)})' % name, FUNCS, w
        yield '5,1,Set(X%s(x)=y)' % name, FUNCS, w
        w = [(FUNCS[0], 'xfunc'), (FUNCS[1], 'len')]
        yield '5,1,NoOp(${%s(${xfunc(1)}${len(a)})})' % name, FUNCS, w
        yield '5,1,Set(%s(${xfunc(1)})=${len(a)})' % name, FUNCS, w
    for spelled, proper in (('LEN', 'LEN'), ('Len', 'LEN'), ('cdr', 'CDR'),
                            ('INC', 'INC'), ('inc', 'INC'), ('NOPE', None),
                            ('LENGTH', None), ('unknown', None)):
        for form in READS:
            for call in ('${%s(A)}', '${%s(${A})}', '${%s(A):1}'):
                yield ('5,1,' + form % (call % spelled), FUNCS,
                       want(spelled, proper, 'func'))
            yield ('5,1,' + form % ('${%s(A)}${%s(${%s(A)})}' % (
                (spelled,) * 3)), FUNCS, 3 * want(spelled, proper, 'func'))
        for form in WRITES:
            for call in ('%s(A)', '%s(${A})', '%s()', '%s(A,B)'):
                yield ('5,1,' + form % (call % spelled), FUNCS,
                       want(spelled, proper, 'func'))
    for n in range(1, 5):
        text = 'A'
        for _ in range(n):
            text = '${len(%s)}' % text
        yield '5,1,NoOp(%s)' % text, FUNCS, n * [(FUNCS[1], 'len')]


def balance_lines(table):
    """
    Read and written arguments that are unbalanced; the diagnostics of the
    application that surrounds a function are not looked at.
    """
    app, func = BALANCE[:1], BALANCE[1:]
    for name in sorted(i for i, _ in table['app'].values()) + [
            'Nope', 'wait', 'Unknown']:
        if name in SEPARATED:
            continue
        for data in ('(x', 'x]', '"x', '{x', '(x]', "'x"):
            yield '5,1,%s(%s)' % (name, data), app, app
        yield '5,1,%s((x${A})' % name, app, app
        yield '5,1,ExecIf(${A}?%s((x))' % name, app, app
        for data in ('x', '(x)', '[x]', '"("', '', '${A}', 'a,b'):
            yield '5,1,%s(%s)' % (name, data), app, []
    for name in PIPES:
        pipe, many = ('E_APP_ARG_PIPEDELIM',), ('E_APP_ARG_MANY',)
        yield '5,1,%s(a|b)' % name, pipe, pipe
        yield '5,1,%s(${A}|b)' % name, pipe, pipe
        yield '5,1,ExecIf(${A}?%s(a|b))' % name, pipe, pipe
        yield '5,1,%s(%s)' % (name, 'a,' * 30), many, many
        yield '5,1,%s(${A}%s)' % (name, 'a,' * 30), many, many
    for name in CONDITIONAL:
        few, many = ('E_APP_ARG_FEW',), ('E_APP_ARG_MANY',)
        style, empty = ('E_APP_ARG_IFSTYLE',), ('E_APP_ARG_IFEMPTY',)
        yield '5,1,%s(${A})' % name, few, few
        yield '5,1,%s(${A}?x?y)' % name, many, many
        yield '5,1,%s(${A},x,y)' % name, style, style
        yield '5,1,%s(?x)' % name, empty, empty
        yield '5,1,%s( ?x)' % name, empty, empty
    for name in sorted(i for i, _ in table['func'].values()) + [
            'NOPE', 'len']:
        if name == 'UNKNOWN':
            continue
        for data in ('[', '(x]', '"x', 'x,{'):
            if data != 'x,{':
                yield '5,1,NoOp(${%s(%s)})' % (name, data), func, func
            yield '5,1,Set(%s(%s)=y)' % (name, data), func, func
        yield '5,1,NoOp(${%s(${A}[)})' % name, func, func
        yield '5,1,NoOp(${%s([):1})' % name, func, func
        yield '5,1,Set(%s(${A}[)=x)' % name, func, func
        for data in ('x', '[x]', '', '${A}', 'a,b'):
            yield '5,1,NoOp(${%s(%s)})' % (name, data), func, []
            yield '5,1,Set(%s(%s)=y)' % (name, data), func, []
    known = {i for k in ('app', 'func') for i, _ in table[k].values()}
    for name in sorted(OWN):
        if name in known:
            for text, cls in OWN[name]:
                yield '5,1,' + text, (cls,), (cls,)


def batch(ctx, p, rule, items):
    lines = ['[general]', '[globals]']
    expected = {}
    for n, (text, classes, w) in enumerate(items):
        lines += ['[c{}]'.format(n), 'exten => ' + text]
        expected[len(lines)] = (text, classes, w)
    ctx.count('lines', len(items))
    paths = p.files('lint', [('a.conf', tuple(
        (i + '\n').encode() for i in lines))])
    res = {}
    whole = None
    if not paths:
        whole = 'no result'
    else:
        for path in paths:
            if path.kind != 'r' or path.unknown or driver_fault(path):
                whole = (path.kind, path.v)
    if whole:
        if len(items) > 1:
            for i in items:
                batch(ctx, p, rule, [i])
        else:
            ctx.undecided(rule, items[0][0], whole)
        return
    for line, (text, classes, w) in expected.items():
        w = Counter(w)
        bad = good = None
        for path in paths:
            named = not w or isinstance(next(iter(w)), tuple)
            have = Counter(
                (d.name, d.text('app' if 'APP' in d.name else 'func'))
                if named else d.name
                for d in path.diags if d.line == line and d.name in classes)
            if have == w:
                good = True
            else:
                bad = '; '.join('{} reported {} times instead of {}'.format(
                    k, have[k], w[k]) for k in sorted(set(have) | set(w))
                    if have[k] != w[k])
        if bad and not good:
            ctx.violation(rule, text, bad)
        elif bad:
            ctx.undecided(rule, text, bad)
        else:
            ctx.ok(rule, text)


def check(ctx):
    with open(TABLE) as fp:
        table = json.load(fp)
    jobs = []
    for version in ('v11', 'v13'):
        p = Plan(version, driver='files')
        p.STEPS = 400000
        for rule, gen in (('application', app_lines),
                          ('function', func_lines),
                          ('generic', balance_lines)):
            items, seen = [], set()
            for i in gen(table[version]):
                if i[:2] not in seen:
                    seen.add(i[:2])
                    items.append(i)
            if not ctx.thorough and version == 'v11':
                # what both versions share is done with the other
                items = [i for n, i in enumerate(items) if n % 5 == 0]
            # Lines in one file don't repeat each other.
            step = -(-len(items) // SIZE)
            for n in range(step):
                jobs.append(functools.partial(
                    batch, ctx, p, '{} {}'.format(rule, version),
                    items[n::step]))
    ctx.parallel(jobs)
    ctx.need('lines', 5000)
