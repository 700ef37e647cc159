"""
The reading of dialplans and of func_odbc files is interpreted, from the bytes
of the lines to the model that results. Enumerated: all sequences of up to
three steps over explicit, relative and repeated priorities, labels, and
patterns that are written alike, written differently but equal, or different;
sequences of four over fewer of them; the same with contexts that are left and
opened again; second general and globals sections; all sequences of up to three
func_odbc keys. The oracle is a model that keeps the first of each.
Obligations: the diagnostics about duplicates, with their line and that of the
first definition, are those of the model, and so is what is kept.
"""
import functools
import itertools
from collections import Counter

from ..scenario import Plan, driver_fault, kept, vague_value

DUPES = {'E_DP_PRIO_DUPE', 'E_DP_LABEL_DUPE', 'E_DP_GLOBALS_DUPE',
         'W_CONF_CTX_DUPE', 'E_CONF_KEY_DUPE'}

# text, pattern as written, what it equals, priority, label
STEPS = {
    'a1': ('exten => 1,1', '1', '1', 1, ''),
    'a1x': ('exten => 1,1(x)', '1', '1', 1, 'x'),
    'a2': ('exten => 1,2', '1', '1', 2, ''),
    'a2y': ('exten => 1,2(y)', '1', '1', 2, 'y'),
    'an': ('exten => 1,n', '1', '1', None, ''),
    'anx': ('exten => 1,n(x)', '1', '1', None, 'x'),
    's1': ('same => 1', None, None, 1, ''),
    'sn': ('same => n', None, None, None, ''),
    'snx': ('same => n(x)', None, None, None, 'x'),
    'p1': ('exten => _X,1', '_X', '_X', 1, ''),
    'p1x': ('exten => _[0-9],1(x)', '_[0-9]', '_X', 1, 'x'),
    'p2x': ('exten => _[0123456789],2(x)', '_[0123456789]', '_X', 2, 'x'),
    'c1x': ('exten => 2,1(x)', '2', '2', 1, 'x'),
}
FEW = ('a1x', 'an', 's1', 'snx', 'p1x', 'p1')


class Model:
    def __init__(self):
        self.last = None
        self.contexts = {}
        self.kept = []
        self.dupes = []

    def step(self, context, key, line):
        _, raw, equal, prio, label = STEPS[key]
        c = self.contexts.setdefault(context, {
            'steps': [], 'prios': {}, 'labels': {}})
        if raw is None:
            if not c['steps']:
                return
            raw, equal = c['steps'][-1]
        if prio is None:
            if not self.last:
                return
            prio = self.last + 1
        self.last = prio
        k = (equal, prio)
        if k in c['prios']:
            self.dupes.append(('E_DP_PRIO_DUPE', line, c['prios'][k]))
            return
        c['prios'][k] = line
        if label:
            if (equal, label) in c['labels']:
                self.dupes.append((
                    'E_DP_LABEL_DUPE', line, c['labels'][equal, label]))
                label = ''
            else:
                c['labels'][equal, label] = line
        c['steps'].append((raw, equal))
        self.kept.append(('step', context, (raw, prio, label), line))


def compare(ctx, rule, construct, paths, dupes, keep, get):
    if not paths:
        ctx.undecided(rule, construct, 'no result')
        return
    bad, good, vague = [], 0, []
    for p in paths:
        if p.unknown or driver_fault(p) or p.kind != 'r' and not p.v.ev:
            vague.append(repr(p.v))
            continue
        if p.kind != 'r':
            bad.append('ends with {!r}'.format(p.v))
            continue
        have = Counter((d.name, d.line, d.prev) for d in p.diags
                       if d.name in DUPES)
        got = get(p)
        if got is None or vague_value(got):
            vague.append('result not known')
            continue
        text = differ('diagnostics', have, Counter(dupes)) or differ(
            'definitions in force', Counter(got), Counter(keep))
        if text:
            bad.append(text)
        else:
            good += 1
    if bad and not good and not vague:
        ctx.violation(rule, construct, bad[0])
    elif bad or vague:
        ctx.undecided(rule, construct, (bad + vague)[0])
    else:
        ctx.ok(rule, construct)


def differ(what, have, want):
    if have == want:
        return None
    return '{}: {}{}'.format(what, ', '.join(
        'missing {}'.format(i) for i in sorted((want - have), key=repr)),
        ''.join(', unexpected {}'.format(i)
                for i in sorted((have - want), key=repr)))


def dialplan(ctx, p, seq):
    """seq: [(context, key of STEPS)]"""
    ctx.count('sequences of steps')
    lines = ['[general]', '[globals]']
    m = Model()
    current = None
    for context, key in seq:
        if context != current:
            lines.append('[{}]'.format(context))
            current = context
        lines.append(STEPS[key][0] + ',NoOp()')
        m.step(context, key, len(lines))

    def get(q):
        got = kept(p.it, q.st, q.v)
        return got and [
            (kind, context, what[:3], line)
            for kind, context, what, _, line in got if kind == 'step']
    compare(ctx, 'steps', '; '.join(lines[2:]), run(p, 'model', lines),
            m.dupes, m.kept, get)


def run(p, fname, lines):
    return p.files(fname, (('a.conf', tuple(
        i.encode() + b'\n' for i in lines)),))


def sections(ctx, p, seq):
    """seq: names of sections"""
    ctx.count('sequences of sections')
    lines = []
    dupes, keep = [], []
    first = {}
    last = None
    for n, name in enumerate(seq):
        lines.append('[{}]'.format(name))
        dupe = None
        if name in first and name in ('general', 'globals'):
            dupes.append(('W_CONF_CTX_DUPE' if name == 'general' else
                          'E_DP_GLOBALS_DUPE', len(lines), first[name]))
            dupe = name
        elif name not in ('general', 'globals') and name not in first:
            last = name
        first.setdefault(name, len(lines))
        if name in ('general', 'globals'):
            lines.append('V{}={}'.format(n, n))
            if dupe != 'globals':
                keep.append((name, None, ('V{}'.format(n), str(n)),
                             len(lines)))
        else:
            lines.append('exten => {},1,NoOp()'.format(n))
            keep.append(('step', name, (str(n), 1, ''), len(lines)))
            lines.append('include => i{}'.format(n))
            keep.append(('include', name, 'i{}'.format(n), len(lines)))
    del last
    contexts = [i for i in first if i not in ('general', 'globals')]

    def get(q):
        got = kept(p.it, q.st, q.v)
        if got is None:
            return None
        out = []
        for kind, context, what, _, line in got:
            if kind in ('general', 'globals'):
                out.append((kind, None, (context, what), line))
            elif kind == 'context':
                out.append((kind, context))
            else:
                out.append((kind, context, what[:3] if kind == 'step'
                            else what, line))
        return out
    compare(ctx, 'sections', '; '.join(lines), run(p, 'model', lines), dupes,
            keep + [('context', i) for i in contexts], get)


KEYS = ('prefix', 'dsn', 'readsql', 'writesql', 'read', 'synopsis')


def odbc(ctx, p, seq):
    ctx.count('sequences of keys')
    lines = ['[A]']
    dupes, keep = [], []
    seen = {}
    for key in seq:
        if key == '|':
            lines.append('[B{}]'.format(len(lines)))
            seen = {}
            continue
        lines.append('{}=v{}'.format(key, len(lines)))
        if key in seen:
            dupes.append(('E_CONF_KEY_DUPE', len(lines), seen[key]))
        else:
            seen[key] = len(lines)
            keep.append((key, 'v{}'.format(len(lines) - 1), len(lines)))

    def get(q):
        got = kept(p.it, q.st, q.v)
        return got and [what + (line,) for kind, _, what, _, line in got
                        if kind == 'key']
    compare(ctx, 'keys', '; '.join(lines), run(p, 'odbc', lines), dupes,
            keep, get)


def check(ctx):
    p = Plan(driver='files')
    jobs = []

    def steps(seq):
        jobs.append(functools.partial(dialplan, ctx, p, seq))
    for n in (1, 2, 3):
        for seq in itertools.product(STEPS, repeat=n):
            steps([('ctx', i) for i in seq])
    for seq in itertools.product(FEW, repeat=4):
        if len(set(seq)) > 2:
            steps([('ctx', i) for i in seq])
    # contexts that are left and opened again
    for seq in itertools.product(FEW, repeat=3):
        for where in ('aba', 'abb', 'aab'):
            steps(list(zip(where, seq)))
    for seq in itertools.product(('a1x', 'anx', 'snx'), repeat=5):
        steps(list(zip('abaab', seq)))
    names = ('general', 'globals', 'one', 'two')
    for n in (1, 2, 3, 4, 5):
        for seq in itertools.product(names, repeat=n):
            if n < 5 or seq[:2] == names[:2]:
                jobs.append(functools.partial(sections, ctx, p, seq))
    for n in (1, 2, 3):
        for seq in itertools.product(KEYS, repeat=n):
            jobs.append(functools.partial(odbc, ctx, p, seq))
    for seq in itertools.product(('dsn', 'readsql', '|'), repeat=5):
        jobs.append(functools.partial(odbc, ctx, p, seq))
    ctx.parallel(jobs)
    ctx.need('sequences of steps', 3000)
    ctx.need('sequences of sections', 300)
    ctx.need('sequences of keys', 200)
