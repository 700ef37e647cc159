"""
Malformed configuration: all combinations of pieces of text in each place of a
line where text is interpreted.
"""
import itertools
import json
import os

PIECES = ('', 'a', '7', '-1', ' ', '${A}', '${', '}', '$[', ']', '$', '{',
          '${a:', '${a:1:', '${:', '${LEN(', '${NOPE(x)}', '${${A}',
          '${B:${C}}', '(', ')', '[', '"', '\\', ',', '|', '?', ':', '=',
          '&', '/', '\xe9', '\u0661')
FEW = ('a', '${A}', '${', '}', '${LEN(', '(', ')', '"', '\\', ',', ':', '?',
       '=')
APPS = ('NoOp', 'Set', 'Goto', 'ExecIf')
SIMILAR = ('GotoIf', 'GosubIf', 'Gosub')
OTHERS = ('VoiceMail', 'Originate', 'Milliwatt', 'Verbose', 'Exec',
          'ExecIfTime', 'GotoIfTime', 'While', 'Macro', 'Dial', 'Return',
          'TryExec', 'MSet', 'Foo', '', ' ', '${A}', 'Goto ', ' Goto', 'GOTO')
PATTERN = ('', '_', 'X', 'z', '[', ']', '-', '!', '.', '1', '9', '#', '*',
           'a', '/', '\\', '${A}', ' ', '\xe9', '\u0661', '(', ')', '"')
PRIO = ('', '1', '0', 'n', 's', 'hint', '-', '+', '(', ')', 'x', ' ', '\xe9',
        '\u0661', '${A}', '9999999999', '\xb2')
BYTES = (b'', b'a', b'=', b'=>', b'[', b']', b'(', b')', b'#', b';', b'\\',
         b' ', b'\t', b'\r', b'\x00', b'\x1a', b'\x0b', b'\x85', b'\xff',
         b'\xc3\xa9', b'\xc3', b'\xe2\x80\xa8', b'\xef\xbb\xbf', b'"', b'\'',
         b'+', b'{}', b'%s', b'\x81')
DIRECTIVE = ('', ' ', '\t', '"', '<', '>', 'a', 'a.conf', '/', '..', '\x00',
             '\xe9', '{}', '#', '~', '*')
KEYS = ('', 'readsql', 'dsn', 'prefix', 'x', 'exten', 'same', 'include')


def inner(triples=False):
    for n in (1, 2):
        for i in itertools.product(PIECES, repeat=n):
            yield ''.join(i)
    for i in itertools.product(FEW, repeat=3):
        if triples or '${' in i or '${LEN(' in i:
            yield ''.join(i)


def steps(deep=False):
    """Texts of steps, without the key."""
    seen = set()
    for app in APPS:
        for text in inner(deep):
            yield '5,1,{}({})'.format(app, text)
    for app in SIMILAR:
        for text in inner(True) if deep else (
                ''.join(i) for n in (1, 2)
                for i in itertools.product(FEW, repeat=n)):
            yield '5,1,{}({})'.format(app, text)
    for i in itertools.product(PIECES, repeat=2):
        yield '5,1,NoOp(${{A}}{})'.format(''.join(i))
    for app in OTHERS:
        for text in PIECES + ('x,', 'x,y', 'x,y,z', 'x,y,z,${A}', '${A},u'):
            yield '5,1,{}({})'.format(app, text)
            yield '5,1,ExecIf(${{C}}?{}({}))'.format(app, text)
        yield '5,1,' + app
        yield '5,1,{}(x'.format(app)
        yield '5,1,ExecIf(${{C}}?{},x)'.format(app)
        yield '5,1,ExecIf(${{C}},{},x)'.format(app)
    for i in itertools.product(FEW + ('x', 'u', '-'), repeat=2):
        text = ''.join(i)
        yield '5,1,VoiceMail(x,{})'.format(text)
        yield '5,1,NoOp(${{LEN(x){}}})'.format(text)
        yield '5,1,NoOp(${{LEN(x):1{}}})'.format(text)
        yield '5,1,NoOp(${{SET({})}})'.format(text)
        yield '5,1,GotoIfTime({})'.format(text)
        yield '5,1,Set(LEN(x){}'.format(text)
        yield '5,1,Gosub(a({})'.format(text)
        yield '5,1,GosubIf(${{C}}?a({}))'.format(text)
    for dest in itertools.product(('', 's', '${A}', '1', '_X', '\xe9', '\u0661'
                                   ), repeat=3):
        for app in ('Goto', 'Gosub'):
            yield '5,1,{}({})'.format(app, ','.join(dest))
    for n in (1, 2, 3):
        for i in itertools.product(PATTERN, repeat=n):
            text = ''.join(i)
            if n == 3 and not deep and i[0] not in ('_', '_['):
                continue
            if text not in seen:
                seen.add(text)
                yield '{},1,Goto(7,1)'.format(text)
    for i in itertools.product(PATTERN, repeat=2):
        yield '_[{},n,NoOp()'.format(''.join(i))
    for i in itertools.product(('1', '9', '-', 'a', 'X', '!'), repeat=3):
        yield '_[{}],1,Goto(7,1)'.format(''.join(i))
        yield '_5[{}]x,1,Goto(57X,1)'.format(''.join(i))
    for i in itertools.product((':', '${B}', 'a', '='), repeat=4):
        yield '5,1,NoOp(${{${{A}}{}}})'.format(''.join(i))
    for i in itertools.product(PRIO, repeat=2):
        yield '5,{},NoOp()'.format(''.join(i))
        yield '5,1({},NoOp()'.format(''.join(i))


def registered(version, shapes):
    """Steps with each application and function of the reference table."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                           'tables', 'registry.json')) as fp:
        table = json.load(fp)
    for kind in ('app', 'func'):
        for name, module in sorted(table[version][kind].values()):
            for shape in shapes[kind]:
                yield '5,1,' + shape.format(name)


SHAPES = {'app': ('{}', '{}()', '{}(${{A}},x${{B}},"y)', '{}(x|y)'),
          'func': ('NoOp(${{{}(${{A}},x):1}})', 'Set({}(${{A}},x)=y)',
                   'NoOp(${{{}()}})')}
DEEP = {'app': tuple('{}(' + i.replace('{', '{{').replace('}', '}}') + ')'
                     for i in PIECES),
        'func': tuple('NoOp(${{{}(' + i.replace('{', '{{').replace('}', '}}') +
                      ')}})' for i in PIECES)}


def lines():
    """Whole lines."""
    for n in (1, 2):
        for i in itertools.product(BYTES, repeat=n):
            yield b''.join(i)
    for i in itertools.product((b'a', b'=', b'[', b']', b'(', b')', b';',
                                b'\\', b'#', b' '), repeat=3):
        yield b''.join(i)
    for cmd in ('#include', '#tryinclude', '#exec', '#', '#foo'):
        for n in (0, 1, 2):
            for i in itertools.product(DIRECTIVE, repeat=n):
                yield (cmd + ''.join(i)).encode('utf8')
                yield (cmd + ' ' + ''.join(i)).encode('utf8')
    for key in KEYS:
        for sep in ('=', ' = ', '=>', ' => ', '+=', ''):
            for value in ('', 'x', '${A}', ',', ',,', ';', '\\;', '\xe9'):
                yield (key + sep + value).encode('utf8')
    for i in itertools.product(('general', 'globals', 'ctx', '', ' ', '\xe9',
                                '{}', 'A_B', '%'), (
            '', '(', '(x)', '(!)', '(+)', '(x', ' (x)', ';', ' ')):
        yield '[{}]{}'.format(*i).encode('utf8')


HEAD = (b'[general]\n', b'[globals]\n', b'[ctx]\n')
CLEAN = (b'exten => _[1-46-9]X.,1(x),NoOp()\n', b'include => ctx\n',
         b'include => missing\n')


def batches(items, size):
    items = list(items)
    seen = set()
    items = [i for i in items if not (i in seen or seen.add(i))]
    for n in range(0, len(items), size):
        yield items[n:n + size]


def step_files(texts):
    """Each step in a context of its own, so that it is kept."""
    out = list(HEAD + CLEAN)
    for n, text in enumerate(texts):
        out.append('[ctx{}]\n'.format(n).encode())
        out.append('exten => {}\n'.format(text).encode('utf8'))
    return (('a.conf', tuple(out)),)


def line_files(texts):
    out = [HEAD]
    for text in texts:
        out.append((b'[ctx]\n', text + b'\n'))
    return (('a.conf', tuple(i for t in out for i in t)),)


def bare_files(texts):
    return (('a.conf', tuple(i + b'\n' for i in texts[:-1]) + (texts[-1],)),)


def odbc_files(texts):
    out = []
    for n, text in enumerate(texts):
        out += ['[F{}]\n'.format(n).encode(), b'readsql=x\n', text + b'\n']
    return (('a.conf', tuple(out)),)
