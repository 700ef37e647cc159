"""
Reading, the jump check and the listing are interpreted, from the bytes of the
lines on, over malformed configuration: all pairs (and many triples) of pieces
of text inside the arguments of applications, in patterns, priorities, labels
and destinations, in directives, section headers, keys and values, and of raw
bytes (alcheck/malformed.py). Several lines are put into one file; when the
interpretation of one of these files does not end normally, each of its lines
is interpreted alone. Obligation: no exception leaves the reading of dialplans
and of func_odbc files, the jump check or the listing.
"""
import functools

from .. import malformed
from ..scenario import Plan, driver_fault


def verdict(paths):
    """None if all is well, (bad, text) if not; bad: it's certain."""
    if not paths:
        return False, 'no result'
    bad = vague = None
    good = False
    for q in paths:
        if q.unknown or driver_fault(q) or q.kind != 'r' and not q.v.ev:
            vague = '{!r}'.format(q.v)
        elif q.kind != 'r':
            bad = 'an exception leaves the checker: {!r}'.format(q.v)
        else:
            good = True
    if bad and not vague and not good:
        return True, bad
    if bad or vague:
        return False, bad or vague
    return None


def batch(ctx, p, rule, fname, build, texts, also):
    ctx.count('lines', len(texts))
    ctx.count('files')
    paths = p.files(fname, build(texts))
    res = verdict(paths)
    if res is None:
        ctx.ok(rule, '{} lines from {!r}'.format(len(texts), texts[0]))
        if also:
            also(ctx, p, rule, texts, paths)
        return
    if len(texts) == 1:
        if res[0]:
            ctx.violation(rule, repr(texts[0]), res[1])
        else:
            ctx.undecided(rule, repr(texts[0]), res[1])
        return
    found = len(ctx.violations)
    for text in texts:
        batch(ctx, p, rule, fname, build, [text], also)
    if res[0] and len(ctx.violations) == found:
        ctx.violation(rule, '{!r}'.format(texts), res[1])


def sources(deep=False):
    """[(rule, driver function, builder of files, texts, batch size)]"""
    return [
        ('step', 'everything', malformed.step_files, malformed.steps(deep),
         16),
        ('line', 'everything', malformed.line_files, malformed.lines(), 16),
        ('no section', 'everything', malformed.bare_files,
         list(malformed.lines())[::1 if deep else 3], 16),
        ('odbc', 'odbc', malformed.odbc_files, malformed.lines(), 16),
        ('odbc, no section', 'odbc', malformed.bare_files,
         list(malformed.lines())[::1 if deep else 3], 16)]


def jobs(ctx, p, also=None, deep=False, part=1):
    out = []
    for rule, fname, build, texts, size in sources(deep):
        for n in malformed.batches(list(texts)[::part], size):
            out.append(functools.partial(
                batch, ctx, p, rule, fname, build, n, also))
    for version in ('v11', 'v13'):
        other = Plan(version, driver='files')
        for shapes in (malformed.SHAPES, malformed.DEEP)[:2 if deep else 1]:
            for n in malformed.batches(list(malformed.registered(
                    version, shapes))[::part], 16):
                out.append(functools.partial(
                    batch, ctx, other, 'registered ' + version, 'everything',
                    malformed.step_files, n, also))
    return out


def check(ctx):
    p = Plan(driver='files')
    ctx.parallel(jobs(ctx, p, deep=ctx.thorough))
    ctx.need('lines', 20000)
