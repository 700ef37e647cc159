"""
The reading of dialplans and of func_odbc files is interpreted, from the bytes
of the lines to the model that results. Enumerated: kinds of lines (sections,
well-formed, malformed and unsupported steps, includes, variables, directives,
junk) in each situation of the reader (no section yet, general, globals, a
context without or with steps, a context that is opened again, second general
and globals sections, in and behind an included file, at the end of a file
without line end, DOS line ends), alone and in pairs; the same for functions.
Obligations: each line is blank or comment, or is kept in the model under its
own location, or is a section that exists in the model or extends one, or is
an include that opens a file or may be missing, or follows a section that was
reported as not used, or has a diagnostic at its location.
"""
import functools
import itertools
import re

from ..scenario import Plan, kept, vague_value
from .c14 import outcome

LINES = '''exten => 5,1,NoOp(a)
exten => 5,n,NoOp(a)
exten => 5,2(x),NoOp(a)
exten => _5X.,1,NoOp(a)
exten => 5,1
exten => 5,1,
exten => 5,0,NoOp(a)
exten => 5,00,NoOp(a)
exten => 5,-1,NoOp(a)
exten => 5,+1,NoOp(a)
exten => 5,x,NoOp(a)
exten => 5,1x,NoOp(a)
exten => 5,N,NoOp(a)
exten => 5,n+1,NoOp(a)
exten => 5,s,NoOp(a)
exten => 5, 1,NoOp(a)
exten => 5,1 ,NoOp(a)
exten => 5,1(x,NoOp(a)
exten => 5,1(),NoOp(a)
exten => 5,1(x)y,NoOp(a)
exten => 5,hint,SIP/5
exten => 5,hint
exten => 5,hint(x),SIP/5
exten => 5,HINT,SIP/5
exten => 5,,NoOp(a)
exten => 5,
exten => 5
exten =>
exten => ,1,NoOp(a)
exten => ,n,NoOp(a)
exten => _[,1,NoOp(a)
exten => _[1-,1,NoOp(a)
exten => _,1,NoOp(a)
exten => 5,1,Foo
exten => 5,1,(a)
exten => 5/123,1,NoOp(a)
exten => ${A},1,NoOp(a)
exten=5,1,NoOp(a)
exten => 5,1, NoOp(a)
exten => s,1,Goto(x,y,z)
same => n,NoOp(a)
same => 1,NoOp(a)
same => 3(x),NoOp(a)
same => 0,NoOp(a)
same => x,NoOp(a)
same => hint,SIP/5
same => n(x,NoOp(a)
same => n
same =>
same=n,NoOp(a)
 same => n,NoOp(a)
include => other
include =>
include=other
include => other,9:00-17:00,mon-fri,*,*
Include => other
includes => other
switch => Realtime/x
switch =>
switch=x
eswitch => Realtime/x
lswitch => Realtime/x
ignorepat => 9
ignorepat=9
Exten => 5,1,NoOp(a)
EXTEN => 5,1,NoOp(a)
extenn => 5,1,NoOp(a)
exten += 5,1,NoOp(a)
foo => bar
foo=bar
foo=
=bar
= bar
=>
=
 foo=bar
static=yes
A=1
A=>1
[other]
[ctx]
[general]
[globals]
[]
[ ]
[GENERAL]
[a](b)
[a](!)
[a](+)
[a](b,c)
[a]b
[a] ; x
[a]=b
[a
a]
 [other]
junk
junk,1
5,1,NoOp(a)
; comment
;-- x --;
\t
#include none.conf
#include "none.conf"
#tryinclude none.conf
#include
#exec ls
#exec
#foo
#
#includenone.conf
 #include none.conf
#INCLUDE none.conf
#exec=x
//x
\x01
\xe9'''.split('\n')
PAIRS = ('exten => 5,1,NoOp(a)', 'exten => 5,n,NoOp(a)',
         'exten => 5,x,NoOp(a)', 'exten => 5,0,NoOp(a)',
         'exten => _[,1,NoOp(a)', 'same => n,NoOp(a)', 'same => 1,NoOp(a)',
         'same => n(x),NoOp(a)', 'include => other', 'switch => x',
         'foo=bar', '[other]', '[ctx]', '[general]', '[globals]', '[a](b)',
         'junk', '; comment', '', '#exec ls', '#include none.conf')
HEAD = ('[general]', '[globals]', '[ctx]')
STEP = ('exten => 9,1,NoOp(h)',)
LAST = ('[last]', 'exten => 8,1,NoOp(t)')
# files; @: the lines
PLACES = {
    'no section': (('a.conf', ('@',) + LAST),),
    'general': (('a.conf', ('[general]', '@') + LAST),),
    'globals': (('a.conf', ('[general]', '[globals]', '@') + LAST),),
    'context': (('a.conf', HEAD + ('@',) + LAST),),
    'step': (('a.conf', HEAD + STEP + ('@', 'same => n,NoOp(t)')),),
    'opened again': (('a.conf', HEAD + STEP + (
        '[b]', 'exten => 5,1,NoOp(b)', '[ctx]', '@')),),
    'second general': (('a.conf', HEAD + STEP + ('[general]', '@') + LAST),),
    'second globals': (('a.conf', HEAD + STEP + ('[globals]', '@') + LAST),),
    'included': (('a.conf', HEAD + STEP + ('#include b.conf',) + LAST),
                 ('b.conf', ('@',))),
    'behind an included file': (
        ('a.conf', HEAD + STEP + ('#include b.conf', '@') + LAST),
        ('b.conf', ('exten => 5,1,NoOp(b)', '[b]'))),
    'no line end': (('a.conf', HEAD + STEP + ('@-',)),),
    'DOS': (('a.conf', tuple(
        i + '\r' for i in HEAD + STEP + ('@',) + LAST)),),
}
ODBC = '''readsql=a
writesql=a
insertsql=a
read=a
write=a
dsn=a
prefix=a
synopsis=a
escapecommas=no
mode=multirow
rowlimit=1
readhandle=a
writehandle=a
dsn =>
dsn => a
dsn=
Dsn=a
DSN=a
readsql =a
 readsql=a
readsq=a
readsql+=a
syntax=a
=a
=
[B]
[A]
[b]
[]
[B](c)
[B](+)
[B]x
[general]
junk
; comment
#include none.conf
#exec ls
#foo
SELECT 1
\xe9=1'''.split('\n')
ODBC_PLACES = {
    'no function': (('a.conf', ('@', '[L]', 'readsql=l')),),
    'function': (('a.conf', ('[A]', '@', '[L]', 'readsql=l')),),
    'keys': (('a.conf', ('[A]', 'dsn=h', 'readsql=h', '@')),),
    'last keys': (('a.conf', ('[A]', 'insertsql=h', '@', 'writesql=t')),),
    'second function': (('a.conf', (
        '[A]', 'readsql=h', '', '[Z]', '@', 'mode=t')),),
    'included': (('a.conf', ('[A]', '#include b.conf', '[L]', 'readsql=l')),
                 ('b.conf', ('@',))),
    'no line end': (('a.conf', ('[A]', 'dsn=h', '@-')),),
}
SECTION = re.compile(r'^\s*\[([^]]*)\](\s*\(.*\))?$')
INCLUDE = re.compile(r'^\s*#(try)?include\s+["<]?([^">\s]+)[">]?\s*$')


def build(place, texts):
    files = []
    for name, lines in place:
        out = []
        for line in lines:
            if line.startswith('@'):
                more = [i.encode('latin1') + (
                    b'\r\n' if line.endswith('\r') else b'\n') for i in texts]
                if line.endswith('-'):
                    more[-1] = more[-1][:-1]
                out.extend(more)
            else:
                out.append(line.encode() + b'\n')
        files.append((name, tuple(out)))
    return tuple(files)


def visible(raw):
    """The line without comment, roughly as people see it."""
    text = raw.decode('latin1').rstrip('\r\n')
    return re.sub(r'\s*(?<!\\);.*$', '', text).rstrip(' \t')


def test(p, files, is_odbc, path):
    got = kept(p.it, path.st, path.v)
    if got is None or vague_value(got):
        return False
    at = set((file, line) for _, _, _, file, line in got)
    contexts = set(c for kind, c, _, _, _ in got if kind == 'context')
    reported = {}
    for d in path.diags:
        reported.setdefault((d.file, d.line), []).append(d.name)
    opened = set(e[1] for e in path.events
                 if isinstance(e, tuple) and e[0] == 'open')
    bad = []
    unused = False      # in a section that was reported

    def walk(name):
        nonlocal unused
        for n, raw in enumerate(dict(files)[name]):
            text = visible(raw)
            spot = (name, n + 1)
            section = SECTION.match(text)
            if section and not is_odbc and section.group(1) in (
                    'general', 'globals'):
                unused = spot in reported and section.group(1) == 'globals'
                continue
            if section and spot not in reported:
                unused = False
                if section.group(1) not in contexts:
                    bad.append((name, n + 1, text))
                continue
            if section:
                unused = False
                continue
            include = INCLUDE.match(text)
            if include and include.group(2) in opened:
                walk(include.group(2))
                continue
            if text == '' or spot in at or spot in reported or unused or (
                    include and include.group(1)):
                continue
            bad.append((name, n + 1, text))
    walk(files[0][0])
    return '; '.join(
        '{}:{} ({!r}) is neither kept nor acted upon nor reported'.format(*i)
        for i in bad)


def situation(ctx, p, name, place, texts, is_odbc):
    ctx.count('situations')
    files = build(place, texts)
    outcome(ctx, 'odbc' if is_odbc else 'dialplan',
            '{}: {}'.format(name, '; '.join(texts)),
            p.files('odbc' if is_odbc else 'model', files),
            functools.partial(test, p, files, is_odbc))


def check(ctx):
    p = Plan(driver='files')
    jobs = []

    def add(places, lines, is_odbc=False):
        for name in sorted(places):
            for texts in lines:
                jobs.append(functools.partial(
                    situation, ctx, p, name, places[name], texts, is_odbc))
    add(PLACES, [(i,) for i in LINES])
    add({k: PLACES[k] for k in ('no section', 'context', 'step')},
        list(itertools.product(PAIRS, repeat=2)))
    add(ODBC_PLACES, [(i,) for i in ODBC], True)
    add({k: ODBC_PLACES[k] for k in ('function', 'no function')},
        list(itertools.product(ODBC[::3], repeat=2)), True)
    ctx.parallel(jobs)
    ctx.need('situations', 2500)
