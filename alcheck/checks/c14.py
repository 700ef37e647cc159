"""
The layers of the reader are interpreted over files that a stand-in for the
opener delivers line by line. Enumerated: all sequences of up to three lines
over the kinds of lines there are (text, blank, comment, DOS line ends, bytes
that are not UTF-8, control characters, escapes, white space at both ends,
sections, malformed lines, directives), with and without a line end at the end
of the file; include directives in all positions, nested, repeated, empty,
missing, circular and malformed ones. Obligations: the lines leave the lowest
layers (FileReader) once, in order and with their file, number and text; those
with content leave the parser and the layer that looks at blank lines once and
in order, with those of an included file in place of the directive; blank lines
leave it once; each file that was opened is closed before the file that
includes it goes on.
"""
import functools
import itertools
import posixpath
import re

from ..scenario import Plan, driver_fault

# line, text after decoding and without comment (None: not compared)
KINDS = {
    'text': (b'a=1\n', 'a=1'),
    'crlf': (b'b=2\r\n', 'b=2'),
    'blank': (b'\n', ''),
    'comment': (b'; hi\n', ''),
    'section': (b'[c]\n', '[c]'),
    'latin': (b'\xe9=1\n', None),
    'utf8': (b'\xc3\xa9=1\n', '\xe9=1'),
    'ctrl': (b'c\x01=3\n', 'c\x01=3'),
    'escaped': (b'd=1\\;2 ; x\n', 'd=1;2'),
    'tail': (b'e=5  \t\n', 'e=5'),
    'lead': (b'  f=6\n', '  f=6'),
    'arrow': (b'g => 7;x\n', 'g => 7'),
    'junk': (b'nothing\n', 'nothing'),
    'spaces': (b'  \n', ''),
    'exec': (b'#exec ls\n', '#exec ls'),
    'missing': (b'#include "none.conf"\n', '#include "none.conf"'),
    'try': (b'#tryinclude none.conf\n', '#tryinclude none.conf'),
    'bare': (b'#include\n', '#include'),
    'hash': (b' #foo\n', ' #foo'),
    'nul': (b'#include \x00\n', '#include \x00'),
    'crblank': (b'\r\n', ''),
}
FEW = ('text', 'blank', 'comment', 'section', 'latin', 'escaped', 'junk',
       'missing', 'crlf')
SKIPPED = ('junk', 'exec', 'missing', 'try', 'bare', 'hash', 'nul')
BLANK = re.compile(r'^\s*$')
INCLUDE = re.compile(r'^\s*#(?:try)?include\s+["<]?([^">\s]+)[">]?\s*$')


def outcome(ctx, rule, construct, paths, test):
    """
    test(path) gives text if something is wrong, False if it cannot tell.
    """
    if not paths:
        ctx.undecided(rule, construct, 'no result')
        return
    bad, good, vague = [], 0, []
    for p in paths:
        if p.unknown or driver_fault(p) or p.kind != 'r' and not p.v.ev:
            vague.append(repr(p.v))
        elif p.kind != 'r':
            bad.append('ends with {!r}'.format(p.v))
        else:
            text = test(p)
            if text is False:
                vague.append('result not known')
            elif text:
                bad.append(text)
            else:
                good += 1
    if bad and not good and not vague:
        ctx.violation(rule, construct, bad[0])
    elif bad or vague:
        ctx.undecided(rule, construct, (bad + vague)[0])
    else:
        ctx.ok(rule, construct)


def outs(p):
    return [e[1:] for e in p.events if isinstance(e, tuple) and e[0] == 'out']


def vague_outs(lines):
    """Is anything that the layers delivered unknown?"""
    return any(not isinstance(i[0], str) or not isinstance(i[1], int)
               or i[0][:2] == "('" for i in lines)


def odd(ctx, p, line):
    """No content makes a line disappear."""
    ctx.count('odd lines')
    lines = (KINDS['text'][0], line, KINDS['text'][0], b'last')

    def test(q):
        have = [i[1] for i in outs(q)]
        if have != [1, 2, 3, 4]:
            return 'lines [1, 2, 3, 4] leave the reader as {}'.format(have)
    outcome(ctx, 'odd line', repr(line), p.files('lines', (
        ('a.conf', lines),)), test)


def odd_lines():
    for i in range(256):
        if i != 10:
            yield bytes([i]) + b'\n'
            yield bytes([i]) + b'a=1\n'
            yield b'a=1' + bytes([i]) + b'\n'
    for i in (b'\\', b'\\\\', b'a=1\\', b';--', b'--;', b';-- x', b'/*', b'*/',
              b'\xef\xbb\xbfa=1', b'\xfe\xff', b'\xe2\x80\xa8', b'\xc2\x85',
              b'#', b'#!', b'##', b'[', b']', b'[]', b'[a', b'a]', b'=', b'=>',
              b'exten =>', b'__END__', b'EOF', b'.', b'<<<<<<<', b'include',
              b'a=1\\;', b';', b';;', b'; ;', b'a' * 5000, b' ' * 300,
              b'a=\r', b'\r\r', b'\t', b'\t;\t'):
        yield i + b'\n'
        yield i + b'\r\n'


def raw(ctx, p, keys, end):
    """FileReader alone."""
    ctx.count('sequences of lines')
    lines = [KINDS[k][0] for k in keys]
    if end:
        lines[-1] = lines[-1].rstrip(b'\r\n')
    want = []
    for n, k in enumerate(keys):
        if lines[n]:
            want.append((n + 1, KINDS[k][1]))
    lines = [i for i in lines if i]

    def test(q):
        got = outs(q)
        have = [i[1] for i in got]
        if have != [n for n, _ in want]:
            return 'lines {} leave the reader as {}'.format(
                [n for n, _ in want], have)
        for g, (n, text) in zip(got, want):
            if g[0] != 'a.conf':
                return 'line {} is attributed to file {}'.format(n, g[0])
            if text is not None and g[2] != text and isinstance(
                    g[2], str) and g[2][:2] != "('":
                return 'line {} {!r} becomes {!r} instead of {!r}'.format(
                    n, lines[n - 1], g[2], text)
        return closed(q, {})
    outcome(ctx, 'reader', '{} {}'.format(
        ','.join(keys), 'without line end' if end else ''),
        p.files('lines', (('a.conf', lines),)), test)


def closed(q, parents):
    """Each file is closed, and before the file that includes it goes on."""
    opened = []
    for e in q.events:
        if not isinstance(e, tuple):
            continue
        if e[0] == 'open':
            opened.append(e[1])
        elif e[0] == 'close':
            if e[1] not in opened:
                return '{} is closed twice'.format(e[1])
            opened.remove(e[1])
        elif e[0] == 'out':
            for i in opened:
                if e[1] in parents.get(i, ()) and not BLANK.match(
                        parents[i][e[1]].get(e[2], '')):
                    return '{} is still open at line {} of {}'.format(
                        i, e[2], e[1])
    if opened:
        return '{} is not closed'.format(', '.join(opened))
    return None


def text_of(line):
    """Decoded, without comment and white space."""
    for k, (data, text) in KINDS.items():
        if data == line and text is not None:
            return text
    line = line.decode('cp1252', 'replace').rstrip('\r\n')
    line = re.sub(r'\s*(?<!\\);.*', '', line)
    return line.rstrip(' \t')


def expand(files, name, stack, out, parents):
    """The lines with content, in the order in which they are read."""
    lines = dict(files).get(name)
    stack = stack + (name,)
    for n, line in enumerate(lines):
        text = text_of(line)
        m = INCLUDE.match(text)
        if m:
            sub = posixpath.join(posixpath.dirname(name), m.group(1))
            if sub in stack or sub not in dict(files):
                continue
            # what comes after the directive in this file
            parents.setdefault(sub, {}).setdefault(name, {}).update(
                (i + 1, text_of(lines[i])) for i in range(n + 1, len(lines)))
            expand(files, sub, stack, out, parents)
        elif text.lstrip().startswith('#') or '=' not in text and not (
                re.match(r'^\s*\[[^]]*\]$', text)) and not BLANK.match(text):
            continue
        else:
            out.append((name, n + 1, bool(BLANK.match(text))))


def tree(ctx, p, files, label):
    """Reader, parser and the layer for blank lines."""
    ctx.count('sets of files')
    want = []
    parents = {}
    expand(files, files[0][0], (), want, parents)
    text = [i[:2] for i in want if not i[2]]
    blanks = sorted(i[:2] for i in want if i[2])

    def test(q):
        got = outs(q)
        have = [i for i in got if i not in blanks]
        if have != text:
            return 'lines {} leave the parser as {}'.format(text, have)
        left = sorted(i for i in got if i in blanks)
        if left != blanks:
            return 'blank lines {} leave the parser as {}'.format(
                blanks, left)
        for name in dict(files):
            order = [i for i in got if i[0] == name and i in blanks]
            if len(set(order)) == len(order) and order != sorted(order) and (
                    files_once(files, name)):
                return 'blank lines of {} leave the parser as {}'.format(
                    name, order)
        return closed(q, {} if len(parents) != len(set(parents)) else {
            k: v for k, v in parents.items() if files_once(files, k)})
    outcome(ctx, 'parser', label, p.files('elements', files), test)


def files_once(files, name):
    """Is the file included no more than once?"""
    base = posixpath.basename(name).encode()
    return sum(line.count(base) for _, lines in files for line in lines) <= 1


def sequences():
    keys = list(KINDS)
    for n in (1, 2):
        for seq in itertools.product(keys, repeat=n):
            yield seq
    for seq in itertools.product(FEW, repeat=3):
        yield seq


A, B, C, SEC, BL, CM = (b'a=1\n', b'b=1\n', b'c=1\n', b'[s]\n', b'\n',
                        b';c\n')
INC_B, INC_C = b'#include "b.conf"\n', b'#include <c.conf>\n'
MISSING = b'#include "none.conf"\n'


def trees():
    inner = [(), (B,), (B, BL), (BL, B), (b'b=1',), (SEC, B, B, B, BL),
             (BL, BL), (CM,), (B, INC_C), (INC_C, B), (B, INC_C, BL, B),
             (MISSING, B), (b'#include "a.conf"\n', B),
             (B, b'#include "b.conf"\n', B), (b'\xe9=1\r\n', b'junk\n', B)]
    outer = [(INC_B,), (A, INC_B), (INC_B, A), (A, INC_B, A),
             (A, BL, INC_B, BL, A), (A, BL, BL, INC_B), (BL, INC_B, A),
             (INC_B, INC_B, A), (A, INC_B, A, INC_B, A),
             (A, INC_B, INC_C, A), (INC_B, BL, BL, A), (CM, INC_B, CM),
             (SEC, A, A, A, INC_B, SEC, A), (A, INC_B, MISSING, A),
             (A, INC_B, b'#tryinclude "none"\n', b'#exec x\n', A),
             (A, INC_B, b'a=1\\;2;x')]
    third = [(), (C,), (C, BL), (BL, C)]
    for o in outer:
        for i in inner:
            for t in third:
                if t != third[1] and not any(INC_C in x for x in (o, i)):
                    continue
                yield (('a.conf', o), ('b.conf', i), ('c.conf', t))
    # relative to the directory of the file, parents, deeper nesting
    yield (('d/a.conf', (A, INC_B, A)), ('d/b.conf', (B, INC_C, B)),
           ('d/c.conf', (C,)))
    yield (('d/a.conf', (A, b'#include "e/b.conf"\n', A)),
           ('d/e/b.conf', (B, INC_C, B)), ('d/e/c.conf', (C, BL, C)))
    yield (('d/a.conf', (A, INC_B, A)), ('b.conf', (B,)))
    for n in range(2, 7):
        fs = []
        for i in range(n):
            fs.append(('f{}.conf'.format(i), (
                A, '#include "f{}.conf"\n'.format(i + 1).encode(), A, BL, B)))
        yield tuple(fs + [('f{}.conf'.format(n), (C,))])
        yield tuple(fs + [('f{}.conf'.format(n), (
            C, b'#include "f0.conf"\n', b'#include "f1.conf"\n', C))])


def check(ctx):
    p = Plan(driver='files')
    jobs = []
    for seq in sequences():
        for end in (False, True):
            if end and len(seq) > 2:
                continue
            jobs.append(functools.partial(raw, ctx, p, seq, end))
        if len(seq) < 3:
            jobs.append(functools.partial(tree, ctx, p, (('a.conf', tuple(
                KINDS[k][0] for k in seq)),), 'a.conf: ' + ','.join(seq)))
    for line in odd_lines():
        jobs.append(functools.partial(odd, ctx, p, line))
    for files in trees():
        jobs.append(functools.partial(tree, ctx, p, files, '; '.join(
            '{}: {}'.format(n, ' '.join(
                i.decode('cp1252').strip() or '(blank)' for i in lines))
            for n, lines in files)))
    ctx.parallel(jobs)
    ctx.need('sequences of lines', 1000)
    ctx.need('sets of files', 500)
