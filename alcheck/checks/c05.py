"""
The real construction of a diagnostic is interpreted abstractly, from the
metaclass that makes its class to the print call. Scenarios: an ordinary
class, a class of duplicates and a class that was reported before, plus every
diagnostic class of the code base, each under all combinations of muted
output and ignored class. Obligations per scenario: recorded exactly once, in
the list of its own class and nowhere else; each listener of its class called
once and no other; written to stderr once with location, name and text when
nothing is muted, and not at all otherwise; nothing on stdout. The ignore
decision is evaluated for representatives of every relation that an entry of
the list can have to a class name (equal, prefix with and without underscore,
longer, unrelated, empty), alone and in lists of up to three entries, in every
order in which a set may be iterated.
"""
import itertools
import string

from .. import harness, world
from ..values import V, V_FALSE, V_TRUE, v_str, v_tuple

LOCATION = 'the-file.conf:4711'
NAME = 'E_ALCHECK_IGN'
ENTRIES = {
    'E_ALCHECK_IGN': True, 'E_': True, 'E_ALCHECK_': True,
    'E': False, 'E_ALCHECK': False, 'W_': False, 'E_ALCHECK_IGNO': False,
    'E_ALCHECK_IG': False, 'E_ALCHECK_IGN_': False, '_': False, '': False,
    'LCHECK_': False, 'e_': False, 'E_ALCHECK_IGN_MORE': False,
}


def texts(st):
    """[text or None] of what was written to stderr; None: not constant"""
    ret = []
    for ev in st.tr:
        if ev[0] == 'print' and ev[1] == 'stderr':
            t = ev[2][0].one if len(ev[2]) == 1 else None
            ret.append(t[1] if t and t[0] == 's' else None)
    return ret


def vague(st):
    return bool(st.ts.get('unk'))


def wanted(want, got):
    """True, False or None (not known)"""
    if got == V([want]):
        return True
    if got.one is not None and got.one[0] in ('i', 'b'):
        return False
    return None


def scenario(ctx, construct, res, muted, listeners, name, text):
    if not res:
        ctx.undecided('recorded', construct, 'no result')
        return
    for kind, st, v in res:
        if kind == 'x':
            if v.ev and not vague(st):
                ctx.violation('recorded', construct,
                              'reporting raises {}'.format(v.name))
            else:
                ctx.undecided('recorded', construct, v)
            continue
        if not v.one or v.one[0] != 't' or vague(st):
            ctx.undecided('recorded', construct, v)
            continue
        for (rule, want), got in zip((
                ('one-class', ('i', 1, 1)), ('own-class', ('b', True)),
                ('recorded-once', ('i', 1, 1)), ('itself', ('b', True)),
                ('location', ('b', True))), v.one[1]):
            want = {('i', 1, 1): 1, ('b', True): True}[want]
            c = got.one and got.one[0] in ('i', 'b')
            ctx.decide(
                None if not c else const(got) == want, rule, construct,
                'expected {}, is {}'.format(want, got))
        for who, n in listeners:
            ctx.decide(st.ts.get(who, 0) == n, 'listener', construct,
                       '{} is called {} times instead of {}'.format(
                           who, st.ts.get(who, 0), n))
        out = texts(st)
        ctx.decide(not st.ts.get('print:stdout'), 'stdout', construct,
                   'something is printed on stdout')
        if muted:
            ctx.decide(not out, 'shown', construct,
                       'shown although it is muted: {}'.format(out))
        elif len(out) != 1:
            ctx.violation('shown', construct,
                          'written {} times to stderr'.format(len(out)))
        elif out[0] is None:
            ctx.undecided('shown', construct, 'text is not constant')
        else:
            ctx.decide(
                LOCATION in out[0] and name in out[0] and text in out[0],
                'shown', construct, 'written as {!r}'.format(out[0]))


def const(v):
    a = v.one
    if a[0] == 'b':
        return bool(a[1])
    if a[0] == 'i' and a[1] == a[2]:
        return a[1]
    return None


def placeholders(text):
    return sorted({f.split('.')[0].split('[')[0] for _, f, _, _ in
                   string.Formatter().parse(text) if f})


def rendered(text, names):
    try:
        return text.format(**{n: '{fi}rst' for n in names})
    except Exception:
        return text.split('{')[0]


def message_classes(it):
    ret = []
    parents = {p for q in it.cls_info for p in it.mro(q)[1:]}
    for qual in sorted(it.cls_info):
        if qual.startswith('aldriver') or qual in parents or \
                not it.is_subclass(qual, harness.MSGBASE):
            continue
        ret.append(qual)
    return ret


def class_text(it, qual):
    from ..values import State
    for q in it.mro(qual):
        o = it.base.get(('cls', q))
        v = o.f.get('message') if o is not None else None
        if v is not None:
            return v.one[1] if v.one and v.one[0] == 's' else None
    return None


def check(ctx):
    it = harness.install(world.make(registries=False), emits=False)
    it.hooks['print'] = harness.print_hook(it)
    it.hooks['unknown'] = harness.unknown_hook
    d = harness.Driver('messages', it=it, vars=False, trace=True)
    for fname, name, text in (
            ('report_one', 'E_ALCHECK_ONE', 'the text <{fi}rst> and <sec%sond>'),
            ('report_second', 'E_ALCHECK_ONE',
             'the text <{fi}rst> and <sec%sond>'),
            ('report_dupe', 'H_ALCHECK_DUPE', 'a duplicate of <{fi}rst>')):
        for a, b in itertools.product((V_TRUE, V_FALSE), repeat=2):
            construct = '{} (output {}, class {})'.format(
                fname, 'muted' if a == V_TRUE else 'on',
                'ignored' if b == V_TRUE else 'not ignored')
            ctx.count('scenarios')
            scenario(ctx, construct, d.run(fname, [a, b]),
                     V_TRUE in (a, b),
                     (('listener', 1), ('listener2', 1),
                      ('otherlistener', 0)), name, text)
    for qual in message_classes(it):
        text = class_text(it, qual)
        if text is None:
            ctx.undecided('class', qual, 'text unknown')
            continue
        names = placeholders(text)
        for muted in (V_FALSE, V_TRUE):
            ctx.count('classes')
            name = qual.rsplit(':', 1)[1]
            scenario(
                ctx, '{} ({})'.format(qual, 'ignored' if muted == V_TRUE
                                      else 'shown'),
                d.run('report_any', [
                    V([('cls', qual)]), v_tuple([v_str(n) for n in names]),
                    V_FALSE, muted]), muted == V_TRUE,
                (('listener', 1), ('otherlistener', 0)), name,
                rendered(text, names))
    lists = [(e,) for e in ENTRIES]
    lists += list(itertools.permutations(
        ('', 'W_', 'E_ALCHECK_IG', 'E_ALCHECK', NAME), 2))
    lists += list(itertools.permutations(('W_', 'E', 'E_', 'E_ALCHECK_IG'),
                                         3))
    lists += [('E_ALCHECK', 'E_ALCHECK_IG', 'E_ALCHECK_'),
              ('E_ALCHECK_IG', 'E_ALCHECK', 'E')]
    for entries in lists:
        want = any(e == NAME or (e.endswith('_') and NAME.startswith(e))
                   for e in entries)
        ignore = ','.join(entries)
        construct = 'ignore list {!r}'.format(ignore)
        ctx.count('lists')
        it.environ = {'ALINT_IGNORE': v_str(ignore)}
        res = d.run('ignored')
        for kind, st, v in res:
            if kind != 'r' or v not in (V_TRUE, V_FALSE) or vague(st):
                bad = kind == 'x' and v.ev and not vague(st)
                ctx.decide(False if bad else None, 'ignored', construct,
                           '{} {}'.format(kind, v))
            else:
                ctx.decide((v == V_TRUE) == want, 'ignored', construct,
                           '{} is {}ignored'.format(
                               NAME, '' if v == V_TRUE else 'not '))
    it.environ = {'ALINT_IGNORE': None}
    for kind, st, v in d.run('ignored'):
        ctx.decide(None if v not in (V_TRUE, V_FALSE) or vague(st)
                   else v == V_FALSE, 'ignored', 'no ignore list',
                   '{} {}'.format(kind, v))
    ctx.need('classes', 60)
    ctx.assumptions.append(
        'print and os.environ behave as documented; listeners return')
