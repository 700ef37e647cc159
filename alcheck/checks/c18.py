"""
modules-show is interpreted, from the bytes of the dialplan and of func_odbc
to the text that is printed: every application and function of the reference
table alone, numbers of applications and functions of the same module (up to
all of them at once, so that the lines are filled in all ways), all pairs of an
application and a function of the same module, the ways in
which an application or function can be reached, and names that do not exist.
Obligation: of the applications and functions in the listing each is there
exactly once, with its module, and these are the ones that the dialplan calls;
there is one load statement for each of their modules, except builtin; the
names that do not exist are listed as unknown and nowhere else.
"""
import functools
import json
import re

from .. import harness, world
from ..scenario import Plan, streams
from ..values import V, V_FALSE, v_str
from .c04 import load
from .c09 import READS, STEPS, TABLE, WRITES
from .c17 import printed

STEPS_MAX = 3000000


class Show(Plan):
    def __init__(self, version, command):
        it = harness.install(world.make(version), emits=False)
        it.hooks['print'] = harness.print_hook(it)
        it.hooks['unknown'] = harness.unknown_hook
        self.it = it
        harness.Driver('files', it=it, vars=False, trace=True)
        self.d = harness.Driver('listing', it=it, vars=False, trace=True)
        self.STEPS = STEPS_MAX
        mod = load(it, 'asterisklint.commands.' + command)
        self.modv = V([('mod', 'asterisklint.commands.' + command)])
        self.main = mod.f['main']

    def show(self, files, func_odbc=''):
        return self.run_long('run', [self.main, streams(files),
                                     v_str(func_odbc), V_FALSE])

    def run_long(self, fname, args):
        res = self.d.run_exact(fname, args, self.STEPS, 60)
        return res


def outputs(res):
    """[lines], or text: why it is not known."""
    if not res:
        return 'no result'
    out = []
    for kind, st, v in res:
        if st.ts.get('unk') or kind != 'r':
            return repr((kind, v))
        t = printed(st)
        if t is None:
            return 'text that is not constant'
        out.append('\n'.join(x for where, x in t if where == 'stdout'
                             ).split('\n'))
    return out


def listing(lines):
    """
    {'app': {(module, name): times}, 'func': .., 'load': {module: times},
     'unknown app': {name: times}, 'unknown func': ..}
    """
    out = {i: {} for i in ('app', 'func', 'load', 'unknown app',
                           'unknown func')}
    section = module = None

    def add(what, key):
        out[what][key] = out[what].get(key, 0) + 1

    for line in lines:
        low = line.lower()
        if line.startswith('load'):
            m = re.match(r'load\s*=>?\s*(\S+)\.so$', line.strip())
            add('load', m.group(1) if m else line)
        elif 'unknown' in low and ('application' in low or 'function' in low):
            section = 'unknown app' if 'application' in low else (
                'unknown func')
        elif 'modules used' in low:
            section = 'app' if 'application' in low else 'func'
            module = None
        elif section in ('app', 'func'):
            m = re.match(r';\s*(?:(\S*[^\s(),])(?=\s|$))?\s*(.*)$', line)
            if not m:
                continue
            if m.group(1):
                module = m.group(1)
            for name in re.findall(r'([^\s,()]+)\(\)', m.group(2)):
                add(section, (module, name))
        elif section:
            for name in re.findall(r"[^\s,;]+", line):
                add(section, name)
    return out


def judge(ctx, rule, construct, res, want):
    out = outputs(res)
    if isinstance(out, str):
        ctx.undecided(rule, construct, out)
        return
    bad, good = [], 0
    for lines in out:
        have = listing(lines)
        text = []
        for what in want:
            for key in sorted(set(want[what]) | set(have[what]), key=repr):
                n, w = have[what].get(key, 0), int(key in want[what])
                if n != w:
                    text.append('{} {} listed {} times instead of {}'.format(
                        what, key if isinstance(key, str) else
                        '{1} of {0}'.format(*key), n, w))
        if text:
            bad.append('; '.join(text[:5]))
        else:
            good += 1
    if bad and not good:
        ctx.violation(rule, construct, bad[0])
    elif bad:
        ctx.undecided(rule, construct, bad[0])
    else:
        ctx.ok(rule, construct)


class Model:
    def __init__(self, table):
        self.table = table

    def want(self, apps, funcs):
        out = {'app': set(), 'func': set(), 'load': set(),
               'unknown app': set(), 'unknown func': set()}
        for kind, names in (('app', apps), ('func', funcs)):
            for name in names:
                known = self.table[kind].get(name.lower())
                if known and name.lower() != 'unknown':
                    proper, module = known
                    out[kind].add((module, proper))
                    if module != '<builtin>':
                        out['load'].add(module)
                else:
                    out['unknown ' + kind].add(name)
        return out


def steps(texts):
    lines = ['[general]', '[globals]', '[ctx]']
    for n, text in enumerate(texts):
        lines.append('exten => 5,{},{}'.format(n + 1, text))
    return [('extensions.conf', tuple((i + '\n').encode() for i in lines))]


def scenarios(table):
    """[(rule, text, files, apps, funcs)]"""
    apps = sorted(i for i, _ in table['app'].values() if i not in (
        'Unknown', 'Background'))
    funcs = sorted(i for i, _ in table['func'].values() if i != 'UNKNOWN')
    # by module, and all of them
    for kind, names in (('app', apps), ('func', funcs)):
        modules = {}
        for name in names:
            modules.setdefault(
                table[kind][name.lower()][1], []).append(name)
        for module, members in sorted(modules.items()):
            for n in range(1, len(members) + 1):
                for part in {tuple(members[:n]), tuple(members[-n:])}:
                    yield ('listing', '{} of {}'.format(n, module), part,
                           kind)
        every = 3
        for k in range(every):
            yield 'listing', 'many', names[k::every], kind


def shared(table):
    """[(application, function)] of the same module"""
    for app, module in sorted(table['app'].values()):
        for func, other in sorted(table['func'].values()):
            if module == other and app not in ('Background', 'Unknown') and (
                    func != 'UNKNOWN') and (
                        module != '<builtin>' or app in ('Wait', 'Goto')):
                yield app, func


def reached(table):
    """Ways to reach one, [(texts, apps, funcs)]"""
    for app in ('Dial', 'DIAL', 'Nope', 'MYSQL', 'Set', 'VoiceMail'):
        for form in STEPS:
            more = {'NoOp'} if 'NoOp()' in form else set()
            if 'ExecIf' in form:
                more.add('ExecIf')
            if 'Wait' in form:
                more.add('Wait')
            yield [form[4:] % (app + '(x)')], more | {app}, ()
        yield [app + '(x)', app + '(y)', app.lower() + '(x)'], (
            {app, app.lower()}), ()
        yield [app + '(x'], {app}, ()
        yield [app], {app}, ()
        yield [' ' + app + '(x)'], {app}, ()
        yield [app + ' (x)'], (), ()
    for func in ('CUT', 'cut', 'LEN', 'NOPE', 'QUEUE_MEMBER'):
        for form in READS:
            for call in ('${%s(A)}', '${%s(${A}):1}'):
                text = form % (call % func)
                yield [text], called_apps(text), called(text)
        for form in WRITES:
            for call in ('%s(A)', '%s()', '%s(${A})'):
                text = form % (call % func)
                yield [text], called_apps(text), called(text, call % func)
        yield ['NoOp(${%s(${%s(a)})})' % (func, func)], {'NoOp'}, {func}
        yield ['NoOp(${NOPA(${%s(a)})})' % func], {'NoOp'}, {func, 'NOPA'}


def called_apps(text):
    return set(re.findall(r'(?:^|[?:])\s*([A-Za-z]+)\(', text))


def called(text, written=''):
    out = set(re.findall(r'\$\{([A-Za-z_]+)\(', text))
    if written:
        out.add(written.split('(')[0])
    for m in re.findall(r'(?:^|[?:])Set\(([A-Za-z_]+)\(', text):
        out.add(m)
    return out


def single(ctx, p, version, rule, text, files, want, func_odbc=''):
    ctx.count('scenarios')
    judge(ctx, '{} {}'.format(rule, version), text, p.show(files, func_odbc),
          want)


def places():
    """Dialplans of which the last part must not be forgotten."""
    one = b'exten => 5,1,%s\n'
    for shape in (
            [b'[general]\n', b'[globals]\n', b'[a]\n', one % b'Dial(x)',
             b'[b]\n', one % b'Queue(${CUT(x)})'],
            [b'[a]\n', one % b'Dial(x)', b'[b]\n',
             one % b'Queue(${CUT(x)})', b'[general]\n', b'[globals]\n'],
            [b'[a]\n', one % b'Dial(x)', b'[a]\n', b'include => b\n',
             b'exten => 5,n,Queue(${CUT(x)})\n'],
            [b'[a]\n', one % b'Dial(x)', one % b'Queue(${CUT(x)})'],
            [b'[a]\n', b'#include other.conf\n', b'[b]\n',
             one % b'Queue(${CUT(x)})'],
            [b'[a]\n', one % b'Queue(${CUT(x)})', b'#include other.conf\n'],
            [b'[a]\n', b'exten => 5,hint,SIP/x\n', one % b'Dial(x)',
             b'same => n(a),Queue(${CUT(x)})'],
            [b'#include other.conf\n', b'[a]\n', b';--\n', b'--;\n',
             b'exten => 5,1,Queue(${CUT(x)})']):
        yield [('extensions.conf', tuple(shape)),
               ('other.conf', (b'[c]\n', one % b'Dial(y)'))]


def check(ctx):
    with open(TABLE) as fp:
        table = json.load(fp)
    jobs = []

    def add(*args):
        jobs.append(functools.partial(single, ctx, *args))
    for version in ('v11', 'v13'):
        p = Show(version, 'modules-show')
        model = Model(table[version])
        for rule, text, names, kind in scenarios(table[version]):
            if kind == 'app':
                texts = [i + '(x)' for i in names]
                want = model.want(names, ())
            else:
                texts = ['NoOp(${%s(x)})' % i for i in names]
                want = model.want({'NoOp'}, names)
            add(p, version, rule, '{}: {}'.format(text, names[-1]),
                steps(texts), want)
        if version == 'v11' and not ctx.thorough:
            continue
        for names in shared(table[version]):
            add(p, version, 'shared', ' '.join(names), steps(
                [names[0] + '(x)', 'NoOp(${%s(x)})' % names[1]]),
                model.want({names[0], 'NoOp'}, {names[1]}))
        for texts, apps, funcs in reached(table[version]):
            add(p, version, 'reached', ' '.join(texts), steps(texts),
                model.want(apps, funcs))
        for spelled in ('Background', 'BackGround'):
            want = model.want((), ())
            want['app'].add(('<builtin>', spelled))
            add(p, version, 'listing', spelled, steps([spelled + '(x)']),
                want)
        for files in places():
            add(p, version, 'place', repr(files[0][1]), files,
                model.want({'Dial', 'Queue'}, {'CUT'}))
        for odbc, used, known in (
                ((b'[F]\n', b'dsn=x\n', b'readsql=x\n'), 'ODBC_F', True),
                ((b'[F]\n', b'dsn=x\n', b'readsql=x\n'), 'ODBC_G', False),
                ((b'[F]\n', b'prefix=P\n', b'dsn=x\n', b'readsql=x\n'),
                 'P_F', True)):
            want = model.want({'NoOp'}, () if known else (used,))
            if known:
                want['func'].add(('func_odbc', used))
                want['load'].add('func_odbc')
            files = steps(['NoOp(${%s(x)})' % used]) + [
                ('func_odbc.conf', odbc)]
            add(p, version, 'func_odbc', used, files, want, 'func_odbc.conf')
    ctx.parallel(jobs)
    ctx.need('scenarios', 500)
