"""
The reading of dialplans and of func_odbc files is interpreted from the bytes
of the files on. Enumerated: fragments that give each class of diagnostic
(tables/causes.json), laid out over files in all the ways of causes.layouts:
alone, moved down, at the end, in an included file, behind included files,
nested, with files of equal names in other directories, and divided between a
file and the one that it includes; whole files that give the diagnostics about
the beginning, the end and the line ends of files, and about sections; files
in which each line differs, of which everything is kept. Obligations: whenever
a class of diagnostic that belongs to the fragment is reported, it carries the
file, the number and the text of a line that gives it, and the earlier
occurrence is that one; what is kept carries the location of its line.
"""
import functools
from collections import Counter

from .. import causes
from ..scenario import Plan, const, kept, vague_value
from .c14 import outcome


def location(d):
    return (d.file, d.line, d.prevfile, d.prev)


def show(loc):
    text = '{}:{}'.format(*loc[:2])
    if loc[3] is not None:
        text += ' with the earlier one at {}:{}'.format(*loc[2:])
    return text


def wrong(path, want, files):
    """want: {class: Counter of locations}; text if something is elsewhere."""
    lines = dict(files)
    out = []
    seen = {}
    for d in path.diags:
        if d.name not in want:
            continue
        have = location(d)
        if have not in want[d.name]:
            out.append('{} at {} instead of {} (reported at {})'.format(
                d.name, show(have), ' or '.join(
                    show(i) for i in sorted(want[d.name], key=repr)), d.site))
            continue
        seen.setdefault(d.name, Counter())[have] += 1
        raw = const(d.raw) if d.raw is not None else None
        if isinstance(raw, bytes) and have[1] > 0 and (
                raw != lines[have[0]][have[1] - 1]):
            out.append('{} at {} carries the text {!r} (reported at {})'.format(
                d.name, show(have), raw, d.site))
    for name, have in seen.items():
        more, less = have - want[name], want[name] - have
        if more and less:
            out.append('{} at {} instead of {}'.format(
                name, ', '.join(show(i) for i in more),
                ', '.join(show(i) for i in less)))
    return '; '.join(out)


def fragment(ctx, p, cause, name, files):
    ctx.count('layouts of fragments')
    files, where = causes.render(cause, files)
    want = {}
    for cls, line, prev, _ in cause.diags:
        if line not in where or prev is not None and prev not in where:
            return
        for n, at in enumerate(where[line]):
            before = (where[prev][min(n, len(where[prev]) - 1)]
                      if prev is not None else (None, None))
            want.setdefault(cls, Counter())[at + before] += 1
    ctx.count('diagnostics in layouts', len(cause.diags))
    outcome(ctx, 'location', '{}: {} ({})'.format(
        cause.place, cause.name, name),
        p.files(causes.FNAME[cause.place], files),
        lambda path: wrong(path, want, files))


G = (b'[general]\n', b'[globals]\n')
C = (b'[ctx]\n', b'exten => 1,1,NoOp()\n')
INC = (b'#include b.conf\n',)
# name, function, files, {class: ((file, line), ...)}
WHOLE = (
    ('blank at the start', 'model', (('a', (b'\n', b'\n') + G + C),),
     {'W_WSV_BOF': (('a', 1),)}),
    ('blank at the start of an included file', 'model', (
        ('a', G + INC + C), ('b.conf', (b'\n', b'\n') + C)),
     {'W_WSV_BOF': (('b.conf', 1),)}),
    ('blank at the end', 'model', (('a', G + C + (b'\n', b'\n')),),
     {'W_WSV_EOF': (('a', 6),)}),
    ('blank at the end of an included file', 'model', (
        ('a', G + INC + C), ('b.conf', C + (b'\n', b'\n'))),
     {'W_WSV_EOF': (('b.conf', 4),)}),
    ('blank at the end of an included file at the end', 'model', (
        ('a', G + C + INC), ('b.conf', C + (b'\n', b'\n'))),
     {'W_WSV_EOF': (('b.conf', 4),)}),
    ('blank at the end of nested files', 'model', (
        ('a', G + C + INC), ('b.conf', C + (
            b'#include c.conf\n', b'include => x\n', b'\n', b'\n')),
        ('c.conf', C + (b'; x\n', b'\n'))),
     {'W_WSV_EOF': (('c.conf', 4), ('b.conf', 6))}),
    ('no line end', 'model', (('a', G + C + (b'same => n,NoOp()',)),),
     {'W_FILE_UNIX_NOLF': (('a', 5),)}),
    ('no line end in an included file', 'model', (
        ('a', G + INC + C), ('b.conf', C + (b'same => n,NoOp()',))),
     {'W_FILE_UNIX_NOLF': (('b.conf', 3),)}),
    ('no line end in nested files', 'model', (
        ('a', G + INC + C), ('b.conf', C + (b'#include c.conf\n', b'; x')),
        ('c.conf', C + (b'same => n,NoOp()',))),
     {'W_FILE_UNIX_NOLF': (('b.conf', 4), ('c.conf', 3))}),
    ('no line end around an included file', 'model', (
        ('a', G + INC + C + (b'same => n,NoOp()',)), ('b.conf', C)),
     {'W_FILE_UNIX_NOLF': (('a', 6),)}),
    ('line ends', 'model', (
        ('a', (b'[general]\r\n', b'[globals]\r\n', b'[ctx]\n',
               b'exten => 1,1,NoOp()\r\n')),),
     {'W_FILE_DOS_BARELF': (('a', 3),), 'W_FILE_DOS_EOFCRLF': (('a', 4),)}),
    ('line ends of an included file', 'model', (
        ('a', G + INC + C + (b'same => n,NoOp()\r\n',)),
        ('b.conf', (b'[x]\r\n', b'exten => 1,1,NoOp()\n', b'; x\r\n'))),
     {'W_FILE_DOS_BARELF': (('b.conf', 2),),
      'W_FILE_DOS_EOFCRLF': (('b.conf', 3),),
      'W_FILE_UNIX_CRLF': (('a', 6),)}),
    ('line ends around an included file', 'model', (
        ('a', (b'[general]\r\n', b'[globals]\r\n', b'#include b.conf\r\n',
               b'[ctx]\n', b'exten => 1,1,NoOp()\r\n', b'; x\r\n')),
        ('b.conf', (b'; y\n', b'; y\r\n', b'; y\n'))),
     {'W_FILE_DOS_BARELF': (('a', 4),), 'W_FILE_DOS_EOFCRLF': (('a', 6),),
      'W_FILE_UNIX_CRLF': (('b.conf', 2),)}),
    ('sections in the wrong order', 'model', (('a', G[::-1] + C),),
     {'H_DP_GLOBALS_MISPLACED': (('a', 1),),
      'H_DP_GENERAL_MISPLACED': (('a', 2),)}),
    ('sections after contexts', 'model', (('a', C + G),),
     {'H_DP_GLOBALS_MISPLACED': (('a', 4),),
      'H_DP_GENERAL_MISPLACED': (('a', 3),)}),
    ('sections in an included file', 'model', (
        ('a', C + INC), ('b.conf', (b'; x\n',) + G)),
     {'H_DP_GLOBALS_MISPLACED': (('b.conf', 3),),
      'H_DP_GENERAL_MISPLACED': (('b.conf', 2),)}),
    ('sections missing', 'model', (('a', C),),
     {'H_DP_GLOBALS_MISPLACED': (('a', 0),),
      'H_DP_GENERAL_MISPLACED': (('a', 0),)}),
    ('no context', 'model', (
        ('a', (b'a=1\n', b'b=2\n') + G + C),),
     {'E_CONF_CTX_MISSING': (('a', 1), ('a', 2))}),
    ('no context in an included file', 'model', (
        ('a', (b'; x\n',) + INC + (b'c=1\n',) + G + C),
        ('b.conf', (b'; x\n', b'a=1\n', b'; x\n'))),
     {'E_CONF_CTX_MISSING': (('b.conf', 2), ('a', 3))}),
    ('no function', 'odbc', (
        ('a', (b'; x\n',) + INC + (b'c=1\n',)),
        ('b.conf', (b'; x\n', b'a=1\n', b'; x\n'))),
     {'E_CONF_CTX_MISSING': (('b.conf', 2), ('a', 3))}),
    ('include of itself', 'model', (
        ('a', G + C + (b'#include a\n',)),),
     {'E_PP_INCLUDE_LOOP': (('a', 5),)}),
    ('include of each other', 'model', (
        ('a', G + C + INC + C), ('b.conf', (b'; x\n', b'#include a\n'))),
     {'E_PP_INCLUDE_LOOP': (('b.conf', 2),)}),
    ('missing includes', 'model', (
        ('a', G + C + INC + (b'#include x\n',)),
        ('b.conf', (b'; x\n', b'; y\n', b'#include y\n'))),
     {'W_PP_INCLUDE_MISSING': (('b.conf', 3), ('a', 6))}),
    ('functions without queries', 'odbc', (
        ('a', (b'[A]\n', b'dsn=x\n', b'\n') + INC + (b'[B]\n', b'dsn=x\n')),
        ('b.conf', (b'[C]\n', b'dsn=x\n', b'[D]\n', b'readsql=1\n'))),
     {'E_ODBC_NOSQL': (('a', 1), ('b.conf', 1), ('a', 5))}),
    ('jumps from several files', 'lint', (
        ('a', G + C + (b'same => n,Goto(no,s,1)\n',) + INC +
         (b'same => n,Goto(none,s,1)\n',)),
        ('b.conf', (b'; x\n', b'same => n,Goto(not,s,1)\n'))),
     {'E_DP_GOTO_NOCONTEXT': (('a', 5), ('b.conf', 2), ('a', 7))}),
)


def whole(ctx, p, name, fname, files, want):
    ctx.count('whole files')
    want = {k: Counter(i + (None, None) for i in v) for k, v in want.items()}
    outcome(ctx, 'location', name, p.files(fname, files),
            lambda path: wrong(path, want, files))


def lines(tag, n):
    """Lines that all differ, and what is kept of them."""
    return (
        ('[c{0}{1}]', 'context'), ('exten => {1}5,1,NoOp({0}{1})', 'step'),
        ('same => n(l{0}{1}),Verbose({0}{1})', 'step'),
        ('include => i{0}{1}', 'include'),
        ('exten => _{1}5X,1(m{0}{1}),Answer({0}{1})', 'step'),
    )[n % 5][0].format(tag, n)


PLACES = (
    ('one file', (('a', 'gv', 10),)),
    ('comments', (('a', ';;gv;', 10),)),
    ('included', (('a', 'gv', 5, 'b', 5), ('b', '', 5))),
    ('twice', (('a', 'gv', 5, 'b', 5, 'c', 2), ('b', ';', 5), ('c', '', 5))),
    ('nested', (('a', 'gv', 7, 'b', 3), ('b', ';', 3, 'c', 4),
                ('c', '', 6, 'd', 4), ('d', '', 5))),
    ('general in the included file', (('a', '', 'b', 6), ('b', 'gv', 5))),
)


def keeps(ctx, p, name, spec):
    """Each line is kept with its own location."""
    ctx.count('files that are kept')
    files = []
    want = []
    for fname, head, *body in spec:
        out = []
        number = 0
        for ch in head:
            if ch == ';':
                out.append('; {}'.format(len(out)))
            elif ch == 'g':
                out += ['[general]', 'g{}=1'.format(fname)]
                want.append(('general', 'g' + fname, fname, len(out)))
            else:
                out += ['[globals]', 'v{}=1'.format(fname)]
                want.append(('globals', 'v' + fname, fname, len(out)))
        for item in body:
            if isinstance(item, str):
                out.append('#include ' + item)
                continue
            for _ in range(item):
                text = lines(fname, number)
                out.append(text)
                number += 1
                kind = ('context' if text[0] == '[' else 'include'
                        if text[0] == 'i' else 'step')
                key = text.strip('[]') if kind == 'context' else text.split(
                    '=> ')[1] if kind == 'include' else text.split(',')[-1]
                want.append((kind, key, fname, len(out)))
        files.append((fname, tuple(i.encode() + b'\n' for i in out)))
    files = tuple(files)

    def test(path):
        got = kept(p.it, path.st, path.v)
        if got is None or vague_value(got):
            return False
        have = {}
        for kind, context, what, fname, line in got:
            key = (context if kind == 'context' else what
                   if kind == 'include' else what[3] if kind == 'step'
                   else what[0])
            have[kind, key] = (fname, line)
        bad = []
        for kind, key, fname, line in want:
            # what is missing altogether is not the matter here
            at = have.get((kind, key))
            if at is not None and at != (fname, line):
                bad.append('the {} of {}:{} is kept as of {}:{}'.format(
                    kind, fname, line, *at))
        return '; '.join(bad)
    outcome(ctx, 'kept', name, p.files('model', files), test)


def check(ctx):
    p = Plan(driver='files')
    jobs = []
    classes = set()
    for cause in causes.load():
        classes.update(i[0] for i in cause.diags)
        for name, files in causes.layouts(cause):
            jobs.append(functools.partial(
                fragment, ctx, p, cause, name, files))
    for name, fname, files, want in WHOLE:
        classes.update(want)
        jobs.append(functools.partial(
            whole, ctx, p, name, fname, files, want))
    for name, spec in PLACES:
        jobs.append(functools.partial(keeps, ctx, p, name, spec))
    ctx.parallel(jobs)
    ctx.count('classes of diagnostics', len(classes))
    ctx.need('classes of diagnostics', 70)
    ctx.need('diagnostics in layouts', 1200)
