"""
The rewriting of files is interpreted with a file system in memory
(drivers/fs.py): FileMutatorBase.process() with layouts of symbolic links,
owners and modes, contents and places of the lines that change, and the
scripts in contrib/ from the first line to the last. In each scenario every
operation (open, read, write, conversion, flush, close, stat, chown, chmod,
rename, print, ...) fails in turn, by an error of several classes and by an
interrupt. Obligations:
atomic: after each operation, failed or not, the real file has its old
content or the complete new content, and its owner and mode.
done: without failure it has the new content; nothing else is changed or left
and symbolic links stay what they are.
failure: an operation that fails leaves no temporary file, and files that were
not replaced before it are as they were.
place: temporary files are made in the directory of the real file.
confirm: the scripts change nothing unless the answer is y.
"""
import functools

from .. import harness, world
from ..scenario import Path
from ..values import pyconst, v_int, v_str, v_tuple

FILE = '/etc/extensions.conf'
LINES = (
    b'[general]\n', b'x first\n', b'\n', b'second x x\n', b'third', b'\xff x\n',
    b'x')


def value(x):
    if isinstance(x, (tuple, list)):
        return v_tuple([value(i) for i in x])
    return pyconst(x)


def converted(data, linenos):
    out = []
    for n, line in enumerate(data.splitlines(True)):
        out.append(b'<' + line.replace(b'x', b'yy') if n in linenos else line)
    return b''.join(out)


OWNER = (1000, 1000, 0o100600)


def layouts():
    """(name, files, links, name that is given, real name)"""
    yield 'file', FILE, (), FILE
    yield 'relative name', '/work/e.conf', (), 'e.conf'
    yield 'relative name in a directory', '/work/a/e.conf', (), 'a/e.conf'
    yield 'link', '/etc/real/e.conf', ((FILE, '/etc/real/e.conf'),), FILE
    yield 'relative link', '/etc/real/e.conf', ((FILE, 'real/e.conf'),), FILE
    yield 'relative link upwards', '/srv/e.conf', (
        (FILE, '../srv/e.conf'),), FILE
    yield 'relative link, relative name', '/work/b/e.conf', (
        ('/work/a/e.conf', '../b/e.conf'),), 'a/e.conf'
    yield 'link beside it', '/etc/real.conf', ((FILE, 'real.conf'),), FILE
    yield 'two links', '/srv/e.conf', (
        (FILE, '/mnt/e.conf'), ('/mnt/e.conf', '../srv/e.conf')), FILE
    yield 'three links', '/srv/e.conf', (
        (FILE, 'b'), ('/etc/b', '/mnt/c'), ('/mnt/c', '/srv/e.conf')), FILE
    yield 'linked directory', '/srv/etc/e.conf', (
        ('/etc', '/srv/etc'),), '/etc/e.conf'
    yield 'link in linked directory', '/srv/real.conf', (
        ('/etc', '/srv/etc'), ('/srv/etc/e.conf', '../real.conf')), (
        '/etc/e.conf')


class Scenario:
    def __init__(self, name, files, links, issues, expected, fname='rewrite',
                 answer=None):
        self.name, self.files, self.links = name, files, links
        self.issues, self.expected = issues, expected
        self.fname, self.answer = fname, answer


def scenarios(thorough):
    data = b''.join(LINES[:4])
    for name, path, links, given in layouts():
        yield Scenario(name, [(path, data) + OWNER], links, [(given, (1, 3))],
                       [converted(data, (1, 3))])
    for owner in ((0, 1000, 0o100600), (1000, 0, 0o100600), (0, 0, 0o100600),
                  (1000, 1000, 0o100644), (0, 5, 0o100640), (1000, 1000, 0o100000),
                  (1000, 1000, 0o106755)):
        for name, path, links, given in list(layouts())[::3]:
            yield Scenario('{}, owner {}:{} mode {:o}'.format(name, *owner), [
                (path, data) + owner], links, [(given, (1,))], [
                converted(data, (1,))])
    for name, text, linenos in (
            ('first line', data, (0,)), ('last line', data, (3,)),
            ('all lines', data, (0, 1, 2, 3)),
            ('no newline at the end', b''.join(LINES[:5]), (4,)),
            ('no newline at the end, unchanged', b''.join(LINES[:5]), (1,)),
            ('one line', b'x', (0,)), ('one line\\n', b'x\n', (0,)),
            ('other bytes', b'\xe9\x00x\r\nx\xff\r\n', (0, 1)),
            ('beyond the end', data, (2, 7)),
            ('empty file', b'', (0,)),
            ('long', data * 5, (3, 11))):
        yield Scenario(name, [(FILE, text) + OWNER], (), [(FILE, linenos)],
                       [converted(text, linenos)])
    other = b'other x\nlast\n'
    yield Scenario('two files', [
        (FILE, data) + OWNER, ('/etc/a.conf', other) + (0, 0, 0o100640)], (), [
        (FILE, (1,)), ('/etc/a.conf', (0,))], [
        converted(data, (1,)), converted(other, (0,))])
    yield Scenario('two files, one of which is a link', [
        (FILE, data) + OWNER, ('/srv/a.conf', other) + (0, 0, 0o100640)], (
        ('/etc/a.conf', '../srv/a.conf'),), [
        (FILE, (1, 3)), ('/etc/a.conf', (0, 1))], [
        converted(data, (1, 3)), converted(other, (0, 1))])
    yield Scenario('other files', [
        (FILE, data) + OWNER, ('/etc/a.conf', other) + (0, 0, 0o100640),
        ('/etc/tmp', other) + OWNER], (('/etc/b.conf', 'a.conf'),), [
        (FILE, (1, 3))], [converted(data, (1, 3)), other, other])
    for answer in ('y', 'n', '', 'yes', 'Y', 'no'):
        yield Scenario('answer {!r}'.format(answer), [(FILE, data) + OWNER],
                       (), [(FILE, (1,))], [converted(data, (1,)) if
                                            answer == 'y' else data],
                       'asked', answer)
    yield Scenario('no issues', [(FILE, data) + OWNER], (), [], [data],
                   'asked', 'y')


PATTERNS = (
    b'[general]\n[globals]\n[ctx]\nexten => _[321],1,NoOp()\n'
    b'exten=_X[3-1]X,1,NoOp(a)\n same => n,Hangup()\nexten => 1,1,NoOp()\n'
    b'exten => _[9-0]!, 1 , NoOp([9-0]=)',
    b'[general]\n[globals]\n[ctx]\nexten => _[123],1,NoOp()\n'
    b'exten=_X[123]X,1,NoOp(a)\n same => n,Hangup()\nexten => 1,1,NoOp()\n'
    b'exten => _[9-0]!, 1 , NoOp([9-0]=)')
EXECIF = (
    b'[general]\n[globals]\n[ctx]\nexten => 1,1,ExecIf($[1],NoOp,a)\n'
    b'same => n,NoOp()\nsame => n,ExecIf(1,Verbose,a,b)\n',
    b'[general]\n[globals]\n[ctx]\nexten => 1,1,ExecIf($[1]?NoOp(a))\n'
    b'same => n,NoOp()\nsame => n,ExecIf(1?Verbose(a,b))\n')


def script_scenarios():
    for script, name, (old, new) in (
            ('make_patterns_canonical', 'patterns', PATTERNS),
            ('convert_dp_104_to_1100', 'ExecIf', EXECIF)):
        yield Scenario(script, [(FILE, old) + OWNER], (), script, [new],
                       answer='y')
        yield Scenario(script + ', link', [
            ('/srv/e.conf', old, 0, 5, 0o100644)], (
            (FILE, '../srv/e.conf'),), script, [new], answer='y')
        yield Scenario(script + ', answer n', [(FILE, old) + OWNER], (),
                       script, [old], answer='n')
        yield Scenario(script + ', no issues', [(FILE, new) + OWNER], (),
                       script, [new], answer='y')
    # The conversion fails, for it converts only ExecIf.
    odd = EXECIF[0] + b'same => n,GotoIf($[1],1)\n'
    yield Scenario('convert_dp_104_to_1100, not converted', [
        (FILE, odd) + OWNER], (), 'convert_dp_104_to_1100', [None], answer='y')


class Disk:
    STEPS = 3000000

    def __init__(self):
        it = harness.install(world.make(None), emits=False)
        it.hooks['unknown'] = harness.unknown_hook
        self.it = it
        fs = harness.Driver('fs', it=it, vars=False, trace=True)
        it.ext = dict(it.ext)
        for name, v in fs.mod.f.items():
            if '__' in name.strip('_'):
                it.ext[name.replace('__', '.')] = v
        # This imports the code to check.
        self.d = harness.Driver('rewrite', it=it, vars=False, trace=True)

    def rewrite(self, s, fail=0, how=''):
        args = [value(s.files), value(s.links)]
        if isinstance(s.issues, str):
            return self.script(s, args, fail, how)
        args += [value(s.issues), v_int(fail), v_str(how)]
        if s.answer is not None:
            args.append(v_str(s.answer))
        return self.one(self.d.run_exact(s.fname, args, self.STEPS, 60))

    def one(self, res):
        if not res or len(res) != 1:
            return None
        path = Path(self.it, *res[0])
        if path.unknown or path.kind == 'x' and 'aldriver' in repr(
                path.v.name):
            return None
        return Run(path)

    def script(self, s, args, fail, how):
        it = self.it
        res = self.d.run_exact('setup', args + [
            v_int(fail), v_str(how), v_str(s.answer)], self.STEPS, 60)
        if not res or len(res) != 1:
            return None
        st = res[0][1]
        it.main_module = 'contrib.' + s.issues

        def run(fname, args):
            it.cur_st = st
            it.steps = 0
            if it.load_module(st, it.main_module) is None:
                return None
            outs = []
            for kind, s1, v in it.main_outs:
                for k2, s2, v2 in it.run(s1, self.d.mod.f['end'].one, []):
                    outs.append((kind, s2, v))
            return outs
        self.d.run, keep = run, self.d.run
        try:
            return self.one(self.d.run_exact('end', [], self.STEPS, 60))
        finally:
            self.d.run = keep
            it.main_module = None


class Run:
    """What happened."""
    def __init__(self, path):
        self.kind = path.kind
        self.error = path.v.name if path.kind == 'x' else None
        self.ops, self.states, self.final = [], [], {}
        self.have, self.links, self.failed = set(), set(), None
        self.clean = True
        done = 0
        for e in path.events:
            if not isinstance(e, tuple):
                continue
            if any(i is None for i in e[1:]) and e[0] != 'op':
                self.clean = False
            if e[0] == 'op':
                self.ops.append(e[2:])
            elif e[0] == 'fails':
                self.failed = e[1]
            elif e[0] == 'state':
                self.states.append((len(self.ops),) + e[1:])
            elif e[0] == 'final':
                self.final[e[1]] = e[2:]
            elif e[0] == 'have':
                self.have.add(e[1])
            elif e[0] == 'link':
                self.links.add(e[1:])
            elif e[0] == 'ends':
                done += 1
        if done != 1:
            self.clean = False

    def after(self, n):
        return '{} ({})'.format(*self.ops[n - 1][:2]) if n else 'nothing'


def judge(ctx, s, run, where, strict, normal):
    """strict: the failed operation must leave nothing behind"""
    if run is None or not run.clean:
        ctx.undecided('atomic', where, 'not known')
        return
    old = {f[0]: tuple(f[1:]) for f in s.files}
    new = {f[0]: (old[f[0]] if n is None else (n,) + tuple(f[2:]))
           for f, n in zip(s.files, s.expected)}
    for n, path, *have in run.states + [
            (len(run.ops), k) + v for k, v in run.final.items()]:
        have = tuple(have)
        if have not in (old[path], new[path]):
            ctx.violation('atomic', where, 'after {} {} has {!r}, owner '
                          '{}:{}, mode {:o}, which is neither what it was nor '
                          'what it should become'.format(
                              run.after(n), path, *have)
                          if have[1] != -1 else 'after {} {} is gone'.format(
                              run.after(n), path))
            return
    ctx.ok('atomic', where, '{} states'.format(len(run.states)))
    for op in run.ops:
        if op[0] == 'temporary':
            places = {f[0].rpartition('/')[0] for f in s.files}
            place = op[1]
            ctx.decide(place in places if isinstance(place, str) else False,
                       'place', where, 'temporary file in {}'.format(place))
    extra = run.have - set(old)
    links = run.links == set(tuple(i) for i in s.links)
    rule = 'done' if normal else 'failure'
    if not links:
        ctx.violation(rule, where, 'a symbolic link was changed: {}'.format(
            sorted(run.links)))
    elif normal:
        final = {k: v for k, v in new.items()}
        if run.final != final and (run.error is None or None not in
                                   s.expected):
            bad = [k for k in final if run.final.get(k) != final[k]]
            ctx.violation('done', where, '{} has {}'.format(
                bad, [run.final.get(k) for k in bad]))
        elif extra:
            ctx.violation('done', where, 'leaves {}'.format(sorted(extra)))
        else:
            ctx.ok('done', where)
    elif strict and extra and run.failed not in ('unlink',):
        ctx.violation('failure', where, 'leaves {}'.format(sorted(extra)))
    else:
        ctx.ok('failure', where)


ERRORS = ('ValueError', 'AssertionError', 'NotImplementedError',
          'MemoryError')


def one(ctx, w, s):
    ctx.count('scenarios')
    run = w.rewrite(s)
    judge(ctx, s, run, s.name, True, True)
    if run is None:
        return
    ops = run.ops
    for n, op in enumerate(ops, 1):
        hows = ['OSError', 'KeyboardInterrupt']
        if op[0] == 'convert':
            hows += ERRORS
        if ctx.thorough:
            hows += ['SystemExit']
        for how in hows:
            ctx.count('faults')
            judge(ctx, s, w.rewrite(s, n, how), '{}: {} at operation {}, '
                  '{}'.format(s.name, how, n, op[0]),
                  how not in ('KeyboardInterrupt', 'SystemExit'), False)


def check(ctx):
    w = Disk()
    jobs = [functools.partial(one, ctx, w, s)
            for s in list(script_scenarios()) + list(scenarios(ctx.thorough))]
    ctx.parallel(jobs)
    ctx.need('scenarios', 50)
    ctx.need('faults', 1000)
