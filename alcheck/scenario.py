"""
Scenarios of whole dialplans. The reader of the file is replaced by one that
delivers given lines; everything above it is interpreted. What is compared is
the multiset of diagnostics of each path, by class and line.
"""
import ast
from collections import Counter

from . import harness, world
from .values import V, pyconst, v_str, v_tuple


class Diag:
    """A diagnostic on a path."""
    def __init__(self, it, st, ev):
        self.name = ev[1].rsplit(':', 1)[1]
        self.where = ev[2]
        self.kw = dict(ev[3])
        self.site = ev[5]
        self.line = lineno(it, st, ev[2])
        self.file = filename(it, st, ev[2])
        self.previous = prev = self.kw.pop('previous', None)
        self.prev = lineno(it, st, prev) if prev is not None else None
        self.prevfile = filename(it, st, prev) if prev is not None else None
        self.raw = field(it, st, ev[2], 'line')

    def __repr__(self):
        return '{} at line {}{}'.format(
            self.name, self.line, '' if self.prev is None else
            ' (previous {})'.format(self.prev))

    def text(self, key):
        """The value of a placeholder, if it's constant."""
        v = self.kw.get(key)
        return None if v is None else const(v)


def const(v):
    a = v.one
    if a is None:
        return None
    if a[0] == 's':
        return a[1]
    if a[0] == 'i' and a[1] is not None and a[1] == a[2]:
        return a[1]
    if a[0] == 'none':
        return None
    return repr(a)


def lineno(it, st, v):
    """Line of a Where or of something that has a where."""
    for _ in range(3):
        a = v.one if v is not None else None
        if a is None or a[0] != 'o':
            return None
        o = it.obj(st, a[1])
        if 'lineno' in o.f:
            return const(o.f['lineno'])
        v = o.f.get('where')
    return None


def filename(it, st, v):
    """Name of the file of a Where or of something that has a where."""
    for _ in range(3):
        a = v.one if v is not None else None
        if a is None or a[0] != 'o':
            return None
        o = it.obj(st, a[1])
        if 'filename' in o.f:
            return const(o.f['filename'])
        v = o.f.get('where')
    return None


def field(it, st, v, name):
    a = v.one if v is not None else None
    o = it.obj(st, a[1]) if a and a[0] == 'o' else None
    return None if o is None else o.f.get(name)


class Path:
    def __init__(self, it, kind, st, v):
        self.kind, self.st, self.v = kind, st, v
        self.unknown = bool(st.ts.get('unk'))
        self.diags = []
        self.rules = []
        self.events = []    # diagnostics and events of the driver
        for e in st.tr:
            if e[0] == 'emit':
                self.diags.append(Diag(it, st, e))
                self.events.append(self.diags[-1])
            elif e[0] == 'rule':
                self.rules.append((e[1:], len(self.diags)))
                self.events.append(e[1:])

    def after(self, rule):
        """Diagnostics after the event."""
        for r, n in self.rules:
            if r[0] == rule:
                return self.diags[n:]
        return []


def names(words):
    return v_tuple([v_str(i) for i in words])


def kept(it, st, v):
    """
    The list that model() and odbc() of drivers/files.py return:
    [(kind, context, what, file, line)], or None.
    """
    a = v.one
    o = it.obj(st, a[1]) if a and a[0] == 'o' else None
    if o is None or o.kind != 'list' or o.items is None or o.summ:
        return None
    out = []
    for i in o.items:
        a = i.one
        if not a or a[0] != 't' or len(a[1]) != 4:
            return None
        kind, context, what, where = a[1]
        w = what.one
        what = tuple(const(x) for x in w[1]) if w and w[0] == 't' else (
            const(what))
        out.append((const(kind), const(context), what,
                    filename(it, st, where), lineno(it, st, where)))
    return out


def vague_value(x):
    """Is there anything in it that const() could not tell?"""
    if isinstance(x, (tuple, list)):
        return any(vague_value(i) for i in x)
    return isinstance(x, str) and x[:2] == "('"


def streams(files):
    """[(name, (line, ...)), ...]; lines are bytes"""
    return v_tuple([v_tuple([v_str(n), v_tuple([pyconst(i) for i in lines])])
                    for n, lines in files])


def driver_fault(p):
    """Did the stand-in of the check fail, and not the code?"""
    return p.kind == 'x' and 'aldriver' in repr(p.v) or (
        'alcheck/drivers' in repr(p.v))


class Plan:
    """Interprets drivers/plan.py."""
    STEPS = 150000

    def __init__(self, version=None, driver='plan'):
        it = harness.install(world.make(version))
        it.hooks['construct'] = harness.count_messages
        it.hooks['unknown'] = harness.unknown_hook
        self.it = it
        self.d = harness.Driver(driver, it=it, vars=False, trace=True)

    def run(self, fname, args=()):
        """None or the paths."""
        res = self.d.run_exact(fname, list(args), self.STEPS)
        if res is None:
            return None
        return [Path(self.it, k, st, v) for k, st, v in res]

    def lint(self, lines):
        return self.run('lint', [names(lines)])

    def files(self, fname, files):
        """For drivers/files.py."""
        return self.run(fname, [streams(files)])


def sites(it, names):
    """Where in the source these diagnostics are made."""
    out = []
    for mod in sorted(it.loader.modules):
        m = it.loader.modules[mod]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id in names:
                out.append('{}:{}'.format(m.path, n.lineno))
    return out


def judge(ctx, rule, construct, paths, want, get=lambda p: p.diags,
          key=lambda d: (d.name, d.line), it=None, extra=None):
    """
    want: list of keys. Every path has exactly these diagnostics. Undecided
    unless all paths agree.
    """
    if not paths:
        ctx.undecided(rule, construct, 'no result')
        return
    want = Counter(want)
    bad, good, vague = [], 0, []
    for p in paths:
        if p.unknown or driver_fault(p) or p.kind != 'r' and not getattr(
                p.v, 'ev', False):
            vague.append((p.kind, p.v))
            continue
        if p.kind != 'r':
            bad.append('ends with {!r}'.format(p.v))
            continue
        have = Counter(key(d) for d in get(p) if key(d) is not None)
        more = extra(p) if extra else None
        if have == want and not more:
            good += 1
            continue
        text = []
        for k in sorted(set(have) | set(want), key=repr):
            if have[k] != want[k]:
                d = [d for d in get(p) if key(d) == k]
                text.append('{} reported {} times instead of {}{}'.format(
                    k, have[k], want[k], ' at ' + ', '.join(
                        str(i.site) for i in d) if d else ''))
        if more:
            text.append(more)
        bad.append('; '.join(text))
    if bad and not good and not vague:
        det = []
        if it is not None:
            for name in sorted(set(k[0] for k in want if isinstance(k, tuple))):
                det.append('{} is made at {}'.format(name, ', '.join(
                    sites(it, [name])) or 'no place in the source'))
        ctx.violation(rule, construct, bad[0], det)
    elif bad or vague:
        ctx.undecided(rule, construct, (bad + vague)[0])
    else:
        ctx.ok(rule, construct)
