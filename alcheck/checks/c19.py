"""
Checks one after the other in the same process are interpreted: requests to
DialplanCheck of web/wsgi.py (falcon and io.BytesIO have stand-ins in
drivers/webstub.py) and uses of FileDialplanParser, over all pairs of
configurations from a list (spellings, unknown names, functions, duplicates,
jumps, includes, labels, conditions, requests that fail halfway), and longer
histories. Obligations:
answer: alone, the web interface answers with exactly the diagnostics that the
check raises
(class, line and text).
history: after any others the result is the one that it gives alone; what
fails alone fails in the same way.
"""
import functools
import itertools

from .. import harness, world
from ..scenario import Path, streams
from ..values import v_str, v_tuple
from .c04 import load

HEAD = '[general]\n[globals]\n[ctx]\n'
TEXTS = (
    ('nothing', ''),
    ('clean', HEAD + 'exten => 1,1,NoOp()\n'),
    ('Background', HEAD + 'exten => 1,1,Background(a)\n'),
    ('BackGround', HEAD + 'exten => 1,1,BackGround(a)\n'),
    ('background', HEAD + 'exten => 1,1,background(a)\n'
                          'exten => 1,n,BACKGROUND(a)\n'),
    ('both', HEAD + 'exten => 1,1,BackGround(a)\nsame => n,Background(b)\n'),
    ('unknown', HEAD + 'exten => 1,1,Foo(a)\nsame => n,foo(b)\n'
                       'same => n,FOO(b)\nsame => n,Verbos(a)\n'),
    ('spelling', HEAD + 'exten => 1,1,noop(a)\nsame => n,hangup()\n'
                        'same => n,Set(x=${len(1)})\n'),
    ('functions', HEAD + 'exten => 1,1,Set(CDR(x)=${LEN(${A})})\n'
                         'same => n,Set(NONE(x)=${FOO(1)}${foo(2)})\n'
                         'same => n,Set(ODBC_X(1)=${odbc_x(2)}${A:x})\n'),
    ('functions again', HEAD + 'exten => 1,1,NoOp(${FOO(1)}${ODBC_X(2)})\n'
                               'same => n,Set(Foo(1)=${None(2)}${Foo(1)})\n'),
    ('variables', HEAD + 'exten => 1,1,Set(a b=${A}${A:1:x}${B C})\n'
                         'same => n,Set()\nsame => n,Set(x)\n'
                         'same => n,NoOp(${)\nsame => n,NoOp($[1)\n'),
    ('jumps', HEAD + 'exten => 1,1,Goto(a,1,1)\nsame => n,Goto(2,1)\n'
                     'same => n,Goto(x)\nsame => n,Goto(ctx,1,y)\n'
                     'same => n,GotoIf(${A}?ctx,3,1)\n'
                     'same => n,Goto(other,1,1)\n'),
    ('labels', HEAD + 'exten => 1,1(x),NoOp()\nsame => n(x),NoOp()\n'
                      'same => n(1),NoOp()\nexten => 2,1(y),Goto(x)\n'),
    ('dynamic', HEAD + 'exten => 1,1,Goto(${A},1,y)\nsame => n,Goto('
                       'ctx,${EXTEN},x)\nsame => n,Goto(ctx,${B},y)\n'
                       'same => n,Goto(${B},${B},z)\n'
                       'exten => _X,1,Goto(ctx,${EXTEN},1)\n'),
    ('contexts', '[other]\ninclude => ctx\ninclude => none\n'
                 'exten => 1,1,Goto(ctx,1,1)\n[general]\n[globals]\n'
                 '[globals]\n[ctx](other)\nexten => 1,1,NoOp()\n'),
    ('duplicates', HEAD + 'exten => _X,1,NoOp()\nexten => _x,1,NoOp()\n'
                          'exten => _[,1,NoOp()\nexten => 1,5,NoOp()\n'
                          'exten => 1,n,NoOp\n'),
    ('blank', '\n\n\n' + HEAD + '  exten=1,1,NoOp( \n\n\n\n[x]  \n;--\n'),
    ('broken', HEAD + 'exten => 1\nfoo\n[x\n[y]z\nexten => 1,z,NoOp()\n'
                      'same => n,NoOp()\n#exec x\n#foo\n'),
    ('encoding', HEAD + 'exten => \xe9\u20ac,1,NoOp(\xe9)\r\nfoo => \xff\n'),
    ('execif', HEAD + 'exten => 1,1,ExecIf(${A}?Foo(x):Goto(y))\n'
                      'same => n,ExecIf(1?Background(x))\n'
                      'same => n,ExecIf(1?BackGround(x))\n'),
    ('same first', HEAD + 'same => n,NoOp()\nexten => n,n,NoOp()\n'),
    ('fails', HEAD + 'exten => 1,1,Foo(a)\nexten => 1,1,BackGround(a)\n'
                     '#include other.conf\n'),
    ('fails at once', '#include other.conf\n'),
    ('fails late', HEAD + 'exten => 1,1,Background(${FOO(1)})\n'
                          'exten => 1,1,Goto(x)\n[c](d)\n[c]\n[b](!)\n'
                          '#include other.conf\n'),
)


class Web:
    STEPS = 4000000

    def __init__(self):
        it = harness.install(world.make(None), emits=False)
        it.hooks['print'] = harness.print_hook(it)
        it.hooks['unknown'] = harness.unknown_hook
        self.it = it
        stub = harness.Driver('webstub', it=it, vars=False, trace=True)
        it.ext = dict(it.ext)
        for name in ('HTTPError', 'HTTPBadRequest', 'HTTPPayloadTooLarge',
                     'API', 'before'):
            it.ext['falcon.' + name] = stub.mod.f[name]
        it.ext['falcon.App'] = stub.mod.f['API']
        it.ext['io.BytesIO'] = stub.mod.f['BytesIO']
        harness.Driver('files', it=it, vars=False, trace=True)
        self.mod = load(it, 'web.wsgi')
        self.d = harness.Driver('web', it=it, vars=False, trace=True)

    def requests(self, texts):
        return self.result(self.d.run_exact(
            'requests', [self.mod.f['DialplanCheck'],
                         v_tuple([v_str(i) for i in texts])],
            self.STEPS, 60), len(texts) - 1)

    def checks(self, texts):
        files = []
        for text in texts:
            data = text.encode('utf-8')
            files.append(streams([('extensions.conf', tuple(
                i + b'\n' for i in data.split(b'\n')[:-1]))]))
        return self.result(self.d.run_exact(
            'checks', [v_tuple(files)], self.STEPS, 60), len(texts) - 1)

    def result(self, res, last):
        """('answer', issues...) or ('fails', name); None: not known"""
        if not res or len(res) != 1:
            return None
        path = Path(self.it, *res[0])
        if path.unknown:
            return None
        out = []
        started = answered = False
        for e in path.events:
            if not isinstance(e, tuple):
                continue
            started |= e[0] == 'request'
            answered |= e[0] == 'answered'
            if e[0] == 'file':
                out.append(('file', e[2]))
            elif e[0] == 'issue':
                out.append(e[2:])
        if any(x is None for i in out for x in i):
            return None
        if path.kind == 'x':
            if not started or 'aldriver' in repr(path.v.name):
                return None
            return ('fails', path.v.name)
        return ('answer',) + tuple(out) if answered else None


def texts_of(story):
    have = dict(TEXTS)
    return [have[i] for i in story]


def alone(ctx, w, name):
    """The answer is the diagnostics."""
    ctx.count('configurations')
    a = w.requests(texts_of([name]))
    b = w.checks(texts_of([name]))
    if a is None or b is None:
        ctx.undecided('answer', name, (a, b))
        return
    if a[0] == 'fails' and '#include' in dict(TEXTS)[name]:
        # It is not supported there.
        ctx.ok('answer', name)
        return
    if a[0] != b[0]:
        ctx.violation('answer', name, 'the check gives {}, the web interface '
                      '{}'.format(b[:2], a[:2]))
        return
    files = [i for i in a[1:] if i[0] == 'file']
    mine = [i for i in a[1:] if i[0] != 'file']
    if files != [('file', 'extensions.conf')]:
        ctx.violation('answer', name, 'the results are of {}'.format(files))
    elif sorted(mine) != sorted(b[1:]):
        missing = [i for i in b[1:] if i not in mine]
        more = [i for i in mine if i not in b[1:]]
        ctx.violation('answer', name, 'answered {} diagnostics instead of {};'
                      ' missing {}, too many {}'.format(
                          len(mine), len(b) - 1, missing[:2], more[:2]))
    else:
        ctx.ok('answer', '{}: {} diagnostics'.format(name, len(mine)))


def histories(ctx, w, how, last, stories):
    run = getattr(w, how)
    want = run(texts_of([last]))
    for story in stories:
        ctx.count('histories')
        where = '{}: {} after {}'.format(how, last, ', '.join(story))
        got = run(texts_of(story + (last,)))
        if got is None or want is None:
            ctx.undecided('history', where, 'not known')
        elif got == want:
            ctx.ok('history', where)
        else:
            ctx.violation('history', where, 'instead of {} it gives {}'.format(
                short(want, got), short(got, want)))


def short(a, b):
    if a[0] != b[0]:
        return a[:2]
    rest = [i for i in a if i not in b or a.count(i) != b.count(i)]
    return rest[:2] or 'another order'


def check(ctx):
    w = Web()
    every = [name for name, text in TEXTS]
    jobs = [functools.partial(alone, ctx, w, i) for i in every]
    pairs = [(i,) for i in every]
    fails = [i for i in every if i.startswith('fails')]
    longer = [(i, i) for i in every] + [
        i for i in itertools.product(fails, repeat=2)] + [
        tuple(every), tuple(every[::-1])]
    if ctx.thorough:
        longer += list(itertools.product(every, repeat=2))
    for last in every:
        for how in ('requests', 'checks'):
            jobs.append(functools.partial(histories, ctx, w, how, last, pairs))
            jobs.append(functools.partial(
                histories, ctx, w, how, last, longer))
    ctx.parallel(jobs)
    ctx.need('configurations', 20)
    ctx.need('histories', 1000)
