"""
ident-scan is interpreted, from the bytes of the dialplan to the text that is
printed: variables in every place where a function or variable may be read
and in all forms (plain, sliced, with dynamic parts, counted by INC and DEC,
in several files), labels of steps in all forms, including those of steps that
are dropped, and contexts that are opened once or several times. Obligation:
the listing in verbose mode has each variable with the number of uses and of
files, each label of a step that is kept and each context, exactly once. Of
each pair of similar identifiers, of all combinations of kinds, both are
listed. Illegal characters in a name that is used are reported once for each
use, at the line of that use.
"""
import functools
import itertools
import re
from collections import Counter

from ..scenario import Plan, streams
from ..values import V_FALSE, V_TRUE
from .c02 import verdict
from .c09 import READS
from .c18 import Show, outputs


class Scan(Show):
    def scan(self, files, verbose):
        return self.run_long('ident_scan', [
            self.modv, self.main, streams(files),
            V_TRUE if verbose else V_FALSE])


def listing(lines):
    """{'contexts': [..], 'labels': [..], 'variables': [..], 'similar': {}}"""
    out = {'context': [], 'label': [], 'variable': [], 'similar': {}}
    section = None
    for line in lines:
        low = line.lower()
        if not line.startswith(' ') and line.strip():
            section = next((i for i in out if i in low), None)
        elif section and line.strip():
            m = re.match(r'\s+(\S*)(?:\s+\[(.*)\])?$', line)
            if not m:
                continue
            if section == 'variable':
                n = tuple(int(i) for i in re.findall(r'\d+', m.group(2)
                                                     or ''))
                out[section].append((m.group(1),) + n)
            elif section == 'similar':
                out[section][m.group(1)] = set(
                    re.findall(r'[^\s,]+', (m.group(2) or '').split(
                        ':')[-1]))
            else:
                out[section].append(m.group(1))
    return out


def judge(ctx, rule, construct, res, want):
    out = outputs(res)
    if isinstance(out, str):
        ctx.undecided(rule, construct, out)
        return
    bad, good = [], 0
    for lines in out:
        have = listing(lines)
        text = []
        for what in want:
            if what == 'similar':
                for a, b in want[what]:
                    if b not in have[what].get(a, ()):
                        text.append('{} is not listed as similar to {}'.format(
                            a, b))
                continue
            h, w = Counter(have[what]), Counter(want[what])
            for key in sorted(set(h) | set(w), key=repr):
                if h[key] != w[key]:
                    text.append('{} {} listed {} times instead of {}'.format(
                        what, key, h[key], w[key]))
        if text:
            bad.append('; '.join(text[:5]))
        else:
            good += 1
    if bad and not good:
        ctx.violation(rule, construct, bad[0])
    elif bad:
        ctx.undecided(rule, construct, bad[0])
    else:
        ctx.ok(rule, construct)


def conf(*lines):
    return tuple((i + '\n').encode() for i in lines)


# [(text, names that are used)]; a name in it is used only statically
FORMS = [
    ('${V1}', ['V1']), ('${V1:1}', ['V1']), ('${V1:-2}', ['V1']),
    ('${V1:1:2}', ['V1']), ('${V1:0:-1}', ['V1']), ('${V1:x}', ['V1']),
    ('${V1:1:x}', ['V1']), ('${V1:1:2:3}', ['V1']), ('${V1:}', ['V1']),
    ('${V1:${V2}}', ['V1', 'V2']), ('${V1:1:${V2}}', ['V1', 'V2']),
    ('${V1:${V2}:${V3}}', ['V1', 'V2', 'V3']),
    ('${V1:-${V2}}', ['V1', 'V2']), ('${V1:${V2}1}', ['V1', 'V2']),
    ('${${V1}}', ['V1']), ('${a${V1}}', ['V1']), ('${${V1}a}', ['V1']),
    ('${${V1}${V2}}', ['V1', 'V2']), ('${${V1}:1}', ['V1']),
    ('${a${V1}:${V2}}', ['V1', 'V2']), ('${${${V1}}}', ['V1']),
    ('${V1}${V1}', ['V1', 'V1']), ('${V1}${V2}', ['V1', 'V2']),
    ('a${V1}b${V2}c', ['V1', 'V2']), ('$[${V1}]', ['V1']),
    ('$[${V1}+${V2}]', ['V1', 'V2']), ('$[$[${V1}]]', ['V1']),
    ('$[${V1:1}]', ['V1']), ('${LEN(${V1})}', ['V1']),
    ('${LEN(${V1}):${V2}}', ['V1', 'V2']), ('${LEN(${V1}${V2})}',
                                            ['V1', 'V2']),
    ('${LEN(V1)}', []), ('${INC(V1)}', ['V1']), ('${DEC(V1)}', ['V1']),
    ('${INC(${V1})}', ['V1']), ('${DEC(a${V1})}', ['V1']),
    ('${inc(V1)}', ['V1']), ('${INC(V1):1}', ['V1']),
    ('${INC(V1)}${V1}', ['V1', 'V1']), ('${NOPE(${V1})}', ['V1']),
    ('${${V1}(${V2})}', ['V1', 'V2']), ('${LEN(${INC(V1)})}', ['V1']),
    ('$$ {V1} $', []), ('{V1}', []), ('$V1', []), ('${v_1}${V1}',
                                                   ['v_1', 'V1']),
    ('${CDR(${V1})}', ['V1']), ('${SET(V1=${V2})}', ['V2']),
    ('${IF($[${V1}]?${V2}:${V3})}', ['V1', 'V2', 'V3']),
    ('$[${V1}', None), ('${V1', None),
]
MORE = (
    ('Set(V1=x)', []), ('Set(V1=${V1})', ['V1']), ('Set(V1${V2}=x)', ['V2']),
    ('Set(CDR(${V1})=${V2})', ['V1', 'V2']), ('Set(INC(V1)=1)', ['V1']),
    ('MSet(V1=${V2},V3=${V4})', ['V2', 'V4']), ('Nope(${V1})', ['V1']),
    ('Goto(${V1},${V2},${V3})', ['V1', 'V2', 'V3']),
    ('ExecIf(${V1}?Set(a=${V2}):NoOp(${V3}))', ['V1', 'V2', 'V3']),
    ('ExecIf(${V1}?ExecIf(${V2}?NoOp(${V3})))', ['V1', 'V2', 'V3']),
    ('ExecIf(${V1}?NoOp(${INC(V2)}))', ['V1', 'V2']),
    ('ExecIf(${V1}?${V2}(${V3}))', ['V1', 'V2', 'V3']),
    ('ExecIf(${V1},NoOp,${V2})', ['V1', 'V2']),
    ('GotoIf(${V1}?${V2}:${V3})', ['V1', 'V2', 'V3']),
    ('GosubIf(${V1}?x,${V2},1(${V3}):y)', ['V1', 'V2', 'V3']),
    ('Gosub(x,${V1},1(${V2},${V3}))', ['V1', 'V2', 'V3']),
    ('VoiceMail(${V1}@${V2},${V3})', ['V1', 'V2', 'V3']),
    ('While($[${V1} < ${V2}])', ['V1', 'V2']), ('Dial(${V1}', ['V1']),
)


def variables():
    """[(text, files, {'variable': ..})]"""
    every = [('NoOp(%s)' % i, used) for i, used in FORMS if used is not None]
    every += MORE
    for form in READS:
        for text, used in FORMS:
            if used in (['V1'], ['V1', 'V2']):
                call = form % text
                # and those of the place itself
                rest = re.findall(r'\$\{([AB])\b', form)
                if re.search(r'\$\{[AB]?%s', form) or '${A%s' in form:
                    rest = [i for i in rest if '${%s%%s' % i not in form]
                every.append((call, used + rest))
    for text, used in every:
        want = [(k, n, 1) for k, n in Counter(used).items()]
        yield text, [('extensions.conf', conf(
            '[general]', '[globals]', '[ctx]', 'exten => 5,1,' + text))], {
                'variable': want, 'context': ['ctx'], 'label': []}


def spread():
    """Uses in several steps and files."""
    for n, m in itertools.product(range(4), repeat=2):
        lines = ['[general]', '[globals]', '[ctx]', 'exten => 5,1,NoOp()']
        lines += ['same => n,NoOp(${VAR})'] * n
        if m:
            lines.append('#include other.conf')
        lines.append('exten => 7,1,NoOp(${LAST})')
        other = ['same => n,NoOp(${VAR:1}${VAR2})'] * m
        want = [('LAST', 1, 1)]
        if n + m:
            want.append(('VAR', n + m, (n > 0) + (m > 0)))
        if m:
            want.append(('VAR2', m, 1))
        yield '{} and {} uses'.format(n, m), [
            ('extensions.conf', conf(*lines)),
            ('other.conf', conf(*other))], {'variable': want}


def labels():
    H = ['[general]', '[globals]']
    for lines, contexts, names in (
            (['[a]', 'exten => 5,1(x),NoOp()'], ['a'], ['x']),
            (['[a]', 'exten => 5,n(x),NoOp()'], ['a'], []),
            (['[a]', 'exten => 5,1,NoOp()', 'exten => 5,n(x),NoOp()'], ['a'],
             ['x']),
            (['[a]', 'exten => 5,1,NoOp()', 'same => n(x),NoOp()'], ['a'],
             ['x']),
            (['[a]', 'exten => 5,1(x),NoOp()', 'same => n(y),NoOp()',
              'same => n(z),NoOp()'], ['a'], ['x', 'y', 'z']),
            (['[a]', 'exten => 5,1(x),NoOp()', 'same => n(x),NoOp()'], ['a'],
             ['x']),
            (['[a]', 'exten => 5,1(x),NoOp()', 'exten => 5,1(y),NoOp()',
              'same => n(z),NoOp()'], ['a'], ['x', 'z']),
            (['[a]', 'exten => 5,1(x),NoOp()', 'exten => 6,1(x),NoOp()'],
             ['a'], ['x']),
            (['[a]', 'exten => 5,1(x),NoOp()', '[b]',
              'exten => 5,1(X),NoOp()'], ['a', 'b'], ['x', 'X']),
            (['[a]', 'exten => 5,1(x),NoOp()', '[a]',
              'exten => 6,1(y),NoOp()'], ['a'], ['x', 'y']),
            (['[a]', 'exten => 5,1(x),NoOp()', '[b]', '[a]',
              'exten => 5,2(y),NoOp()', '[b]', 'exten => 5,1(z),NoOp()'],
             ['a', 'b'], ['x', 'y', 'z']),
            (['[a]', '[A]', '[a-b]', '[a]', '[A]'], ['a', 'A', 'a-b'], []),
            (['[a]', 'include => b', '[c]', 'include => a'], ['a', 'c'], []),
            (['[a]', 'exten => _X.,1(x),Goto(y)', 'same => n(y),Goto(x)',
              'exten => _Z.,1(z),NoOp()'], ['a'], ['x', 'y', 'z']),
            (['[a]', 'exten => 5,1(x),ExecIf(${A}?Goto(y))',
              'exten => 5,n(y),Foo()'], ['a'], ['x', 'y']),
            (['[a]', 'exten => 5,1(x)'], ['a'], None),
            (['[a]', 'exten => 5,1(x),NoOp()', 'exten => 5,2(x-y),NoOp()',
              'exten => 5,3(1),NoOp()', 'exten => 5,n(l8),NoOp()'], ['a'],
             None),
            (['[a]', 'exten => 5,hint,SIP/x', 'exten => 5,1(x),NoOp()'],
             ['a'], ['x']),
            (['[a]', 'exten => 5/12,1(x),NoOp()', 'same => n(y),NoOp()'],
             ['a'], ['x', 'y']),
            (['[a]', '#include other.conf', 'exten => 7,1(y),NoOp()'],
             ['a', 'other'], ['x', 'y']),
            (['[a]', 'exten => 5,2(x),NoOp()', 'exten => 5,4(y),NoOp()'],
             ['a'], ['x', 'y'])):
        want = {'context': contexts}
        if names is not None:
            want['label'] = names
        yield ' '.join(lines), [
            ('extensions.conf', conf(*H + lines)),
            ('other.conf', conf('[other]', 'exten => 6,1(x),NoOp()'))], want


def similar():
    """Two identifiers of all combinations of kinds that are similar."""
    for a, b in itertools.product(('context', 'label', 'variable'), repeat=2):
        for x, y in (('something', 'somethin'), ('something', 'sometging'),
                     ('something', 'somethings'), ('something', 'Somethimg'),
                     ('first_one', 'Xirst_one')):
            lines = ['[general]', '[globals]', '[zz]', 'exten => 1,1,NoOp()']
            for kind, name in ((a, x), (b, y)):
                if kind == 'context':
                    lines.append('[{}]'.format(name))
                    lines.append('exten => 1,1,NoOp()')
                elif kind == 'label':
                    lines.append('exten => 1,n({}),NoOp()'.format(name))
                else:
                    lines.append('exten => 1,n,NoOp(${{{}}})'.format(name))
            yield '{} {} and {} {}'.format(a, x, b, y), [
                ('extensions.conf', conf(*lines))], {
                    'similar': [(x, y), (y, x)]}


# [(data, number of illegal names)]
ILLEGAL = [
    ('${a-b}', 1), ('${a b}', 1), ('${a.b:1}', 1), ('${INC(a-b)}', 1),
    ('${DEC(a b)}', 1), ('${a-b}${a-b}', 2), ('${\xe9}', 1), ('${-}', 1),
    ('${a-b:${c-d}}', 2), ('${LEN(${a-b})}', 1), ('$[${a-b}]', 1),
    ('${a${b-c}}', 1), ('${a-${b}}', 0), ('${a_b}', 0), ('${A1}', 0),
    ('${1}', 0), ('${a/b}', 1), ('${a-b:1:2}', 1), ('${a-b:x}', 1),
    ('${\u0661}', 1), ('${a,b}', 1), ('${"a"}', 1), ('${a=b}', 1),
    ('${INC(a-${b})}', 0), ('${a-b:}', 1)]


def illegal(ctx, p, form):
    """Each in a line of its own."""
    lines = ['[general]', '[globals]', '[ctx]', 'exten => 5,1,NoOp()']
    want = {}
    for text, n in ILLEGAL:
        if n and '=' in form and ('=' in text):
            continue
        lines.append('same => n,' + form % text)
        if n:
            want[len(lines)] = n
    paths = p.files('lint', [('a.conf', tuple(
        (i + '\n').encode('utf8') for i in lines))])
    ctx.count('scenarios')
    if not paths or verdict(paths):
        ctx.undecided('illegal', form, paths and verdict(paths)[1])
        return
    for path in paths:
        have = Counter(d.line for d in path.diags
                       if d.name == 'E_VAR_BAD_TOKENS')
        for line in range(5, len(lines) + 1):
            if have[line] == want.get(line, 0):
                ctx.ok('illegal', lines[line - 1])
            elif len(paths) > 1:
                ctx.undecided('illegal', lines[line - 1], 'several paths')
            else:
                ctx.violation(
                    'illegal', lines[line - 1],
                    'E_VAR_BAD_TOKENS reported {} times instead of {}'.format(
                        have[line], want.get(line, 0)))


def single(ctx, p, rule, text, files, want, verbose=True):
    ctx.count('scenarios')
    judge(ctx, rule, text, p.scan(files, verbose), want)


def check(ctx):
    jobs = []
    p = Scan(None, 'ident-scan')

    def add(*args):
        jobs.append(functools.partial(single, ctx, p, *args))
    for rule, gen in (('variable', variables), ('files', spread),
                      ('label', labels)):
        for text, files, want in gen():
            add(rule, text, files, want)
    for text, files, want in similar():
        add('similar', text, files, want, False)
        if ctx.thorough:
            add('similar', text, files, want, True)
    q = Plan(driver='files')
    for form in ('NoOp(%s)', 'Set(x=%s)', 'Goto(%s,1)', 'ExecIf(%s?NoOp(a))',
                 'ExecIf(${A}?NoOp(%s))', 'GotoIf(${A}?%s)', 'Wait(${LEN(%s)})',
                 'NoOp($[%s])', 'Nope(%s)', 'Set(CDR(%s)=x)'):
        jobs.append(functools.partial(illegal, ctx, q, form))
    ctx.parallel(jobs)
    ctx.need('scenarios', 300)
