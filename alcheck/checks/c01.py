"""
(a) Every call in the source that makes a diagnostic: it passes a location, a
value for each placeholder in the text of the class, for duplicates the
earlier occurrence, and none of them is a constant None or empty text. The
classes are resolved through the module globals, imports and local names.
(b) For each cause in tables/causes.json the fragment is interpreted, from the
bytes to the text that is written: reporting does not raise, the text is
written with the location and the name, and the placeholders have the values
that the table names.
(c) Over the malformed configuration of alcheck/malformed.py: every diagnostic
has a location with file and line, all placeholders and none that is None.
"""
import ast
import functools
import string

from .. import causes, harness, malformed, world
from ..scenario import Path, Plan, const, driver_fault, streams, vague_value
from ..values import V_NONE
from . import c02
from .c05 import class_text, message_classes

# How the values appear that hold variables.
SHOWN = {
    ('W_FUNC_DYNAMIC', 'data'): '${A}(x)',
    ('E_DP_GOTO_NOLABEL', 'context'): '${A}',
    ('E_DP_GOTO_NOLABEL', 'exten'): '${B}',
    ('E_DP_GOTO_CONTEXT_NOLABEL', 'exten'): '${B}',
    ('E_DP_GOTO_NOCONTEXT', 'exten'): '${B}',
    ('W_DP_GOTO_CONTEXT_NOEXTEN', 'prio'): '${P}',
    ('E_APP_ARG_FEW', 'data'): '${A}',
}
DUPE = 'asterisklint.defines:DupeDefMixin'


def fields(text):
    """Names of the placeholders; None if they cannot be told."""
    try:
        parsed = list(string.Formatter().parse(text))
    except ValueError:
        return None
    out = []
    for _, field, spec, _ in parsed:
        if field is None:
            continue
        name = field.split('.')[0].split('[')[0]
        out.append(name)
    return out


class Texts:
    """Texts of the classes, by qualified name."""
    def __init__(self, it):
        self.it = it
        self.texts = {}
        self.dupes = set()
        for qual in message_classes(it):
            self.texts[qual] = class_text(it, qual)
            if it.is_subclass(qual, DUPE):
                self.dupes.add(qual)


# -- (a) ---------------------------------------------------------------

def scopes(tree):
    """[(function or None, [nodes of its own])]"""
    out = []

    def walk(owner, node, acc):
        for sub in ast.iter_child_nodes(node):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef,
                                ast.Lambda)):
                inner = []
                out.append((sub, inner))
                walk(sub, sub, inner)
            else:
                acc.append(sub)
                walk(owner, sub, acc)
    top = []
    out.append((None, top))
    walk(None, tree, top)
    return out


def bound_names(nodes, fn):
    names = set()
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (
                ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            names.update((a.asname or a.name).split('.')[0]
                         for a in n.names)
    if fn is not None:
        a = fn.args
        for i in a.posonlyargs + a.args + a.kwonlyargs + [
                j for j in (a.vararg, a.kwarg) if j]:
            names.add(i.arg)
    return names


def local_imports(it, nodes, module):
    """Names that functions import themselves."""
    out = {}
    for n in nodes:
        if isinstance(n, ast.ImportFrom):
            base = module.package if n.level else ''
            for _ in range(max(0, n.level - 1)):
                base = base.rpartition('.')[0]
            name = '.'.join(i for i in (base, n.module) if i)
            mod = it.base.get(('mod', name))
            for a in n.names:
                if mod is not None and a.name in mod.f:
                    out[a.asname or a.name] = mod.f[a.name]
    return out


def message_class(it, texts, env, func):
    if isinstance(func, ast.Name):
        v = env.get(func.id)
    elif isinstance(func, ast.Attribute) and isinstance(
            func.value, ast.Name):
        v = env.get(func.value.id)
        a = v.one if v is not None else None
        m = it.base.get(a) if a and a[0] == 'mod' else None
        v = m.f.get(func.attr) if m is not None else None
    else:
        return None
    a = v.one if v is not None else None
    if a and a[0] == 'cls' and a[1] in texts.texts:
        return a[1]
    return None


def empty(node):
    return isinstance(node, ast.Constant) and node.value in (None, '')


def call_sites(ctx, it, texts):
    chosen = {}     # the same file may be there under several names
    for module in it.loader.all(distinct=False):
        if not module.name.startswith('aldriver'):
            key = (module.rel, )
            if key not in chosen or ('mod', module.name) in it.base:
                chosen[key] = module
    for _, module in sorted(chosen.items()):
        ctx.count('files analysed')
        if ('mod', module.name) in it.base:
            glob = it.base[('mod', module.name)].f
        else:
            glob = local_imports(it, scopes(module.tree)[0][1], module)
        for fn, nodes in scopes(module.tree):
            env = dict(glob)
            if fn is not None:
                for name in bound_names(nodes, fn):
                    env.pop(name, None)
                env.update(local_imports(it, nodes, module))
            for n in nodes:
                if not isinstance(n, ast.Call):
                    continue
                qual = message_class(it, texts, env, n.func)
                if qual is None:
                    continue
                site(ctx, texts, module, fn, qual, n)


def site(ctx, texts, module, fn, qual, n):
    name = qual.rsplit(':', 1)[1]
    construct = '{}: {}: {}'.format(
        module.rel, getattr(fn, 'name', 'module'), ast.unparse(n))
    ctx.count('call sites')
    text = texts.texts[qual]
    want = fields(text) if text is not None else None
    if want is None:
        ctx.undecided('site', construct, 'text of the class is not known')
        return
    stars = any(k.arg is None for k in n.keywords) or any(
        isinstance(i, ast.Starred) for i in n.args)
    kw = {k.arg: k.value for k in n.keywords if k.arg}
    where = n.args[0] if n.args else kw.get('where')
    previous = n.args[1] if len(n.args) > 1 else kw.get('previous')
    bad = []
    line = '{}:{}'.format(module.rel, n.lineno)
    if where is None:
        bad.append('no location')
    elif empty(where):
        bad.append('the location is ' + ast.unparse(where))
    if qual in texts.dupes:
        if previous is None:
            bad.append('no earlier occurrence')
        elif empty(previous):
            bad.append('the earlier occurrence is ' + ast.unparse(previous))
    for f in want:
        if f not in kw:
            bad.append('no value for {{{}}} of {!r}'.format(f, text))
        elif empty(kw[f]):
            bad.append('the value for {{{}}} is {}'.format(
                f, ast.unparse(kw[f])))
    if not bad:
        ctx.ok('site', construct)
    elif stars:
        ctx.undecided('site', construct, bad[0])
    else:
        ctx.violation('site', construct, '{}: {}: {}'.format(
            line, name, '; '.join(bad)))


# -- (b) ---------------------------------------------------------------

def noting(it, st, qual, args, kwargs, node):
    """Leave an event and go on with the real construction."""
    if harness.is_msg(it, qual):
        harness.emit_hook(it, st, qual, args, kwargs, node)
    return None


class Writer(Plan):
    """Diagnostics are really made and written."""
    STEPS = 250000

    def __init__(self, version=None):
        it = harness.install(world.make(version), emits=False)
        it.hooks['construct'] = noting
        it.hooks['print'] = harness.print_hook(it)
        it.hooks['unknown'] = harness.unknown_hook
        self.it = it
        self.d = harness.Driver('files', it=it, vars=False, trace=True)


def written(path):
    """[(Diag, text or None)]; text False: nothing has been written"""
    out = []
    n = 0
    for e in path.st.tr:
        if e[0] == 'emit':
            out.append([path.diags[n], False])
            n += 1
        elif e[0] == 'print' and e[1] == 'stderr' and out and (
                out[-1][1] is False):
            a = e[2][0].one if len(e[2]) == 1 else None
            out[-1][1] = a[1] if a and a[0] == 's' else None
    return out


def lacking(texts, qual, d):
    """What a diagnostic lacks, for sure; None if nothing."""
    a = d.where.one if d.where is not None else None
    if d.where is None or d.where == V_NONE:
        return 'has no location'
    if a and a[0] == 'o' and d.line is None and d.file is None:
        return None
    if a and a[0] in ('s', 'i', 'b'):
        return 'has the location {!r}'.format(a)
    if qual in texts.dupes and d.prev is None and (
            d.previous is None or d.previous == V_NONE):
        return 'has no earlier occurrence'
    text = texts.texts[qual]
    for f in fields(text) or ():
        v = d.kw.get(f)
        if v is None:
            return 'has no value for {{{}}}'.format(f)
        if v == V_NONE:
            return 'has None as the value for {{{}}}'.format(f)
    return None


def judge_paths(ctx, texts, rule, construct, paths, test):
    """test(path) -> None, text, or False if it cannot tell"""
    bad = vague = None
    good = 0
    for q in paths or ():
        if q.unknown or driver_fault(q):
            vague = 'unknown'
            continue
        r = test(q)
        if r is None:
            good += 1
        elif r is False:
            vague = 'cannot tell'
        else:
            bad = r
    if bad and not vague and not good:
        ctx.violation(rule, construct, bad)
    elif bad or vague or not paths:
        ctx.undecided(rule, construct, bad or vague or 'no result')
    else:
        ctx.ok(rule, construct)


def complete(texts, quals):
    def test(q):
        for d in q.diags:
            r = lacking(texts, quals[d.name], d)
            if r:
                return '{} at {} {}'.format(d, d.site, r)
        return None
    return test


def expected(texts, quals, cause, where, whole):
    """Every diagnostic of the table is written with the values of it."""
    def test(q):
        out = written(q)
        for d, text in out:
            if text is False and q.kind != 'r':
                return '{!r} when {} is reported'.format(q.v, d)
            r = lacking(texts, quals[d.name], d)
            if r:
                return '{} at {} {}'.format(d, d.site, r)
        if q.kind != 'r':
            return False
        unsure = False
        for name, n, _, kw in cause.diags:
            template = texts.texts.get(quals.get(name))
            if template is None or len(where[n]) != 1:
                unsure = True
                continue
            place = where[n][0]
            mine = [(d, t) for d, t in out
                    if d.name == name and (d.file, d.line) == place]
            same = [i for i in cause.diags if i[0] == name and i[1] == n]
            if not mine or len(mine) != len(same):
                unsure = True       # not a matter of this check
                continue
            if len(same) == 1:
                d, text = mine[0]
                for k, v in sorted(kw.items()):
                    have = d.kw.get(k)
                    if v is None or k not in (fields(template) or ()):
                        continue
                    c = None if have is None else const(have)
                    if c is None or vague_value(c):
                        return '{} shows {!r} as {} instead of {!r}'.format(
                            d, c, k, v) if have == V_NONE else False
                    if c != v:
                        return '{} shows {!r} as {} instead of {!r}'.format(
                            d, c, k, v)
            for d, text in mine:
                if text is False:
                    return '{} is not written'.format(d)
                if text is None:
                    unsure = True
                    continue
                if '{}:{}'.format(*place) not in text or name not in text:
                    return '{} is written as {!r}'.format(d, text)
                known = {k: SHOWN.get((name, k)) if v is None else v
                         for k, v in kw.items()}
                if len(same) == 1 and None not in known.values():
                    try:
                        shown = template.format(**known)
                    except Exception:
                        continue
                    if shown not in text:
                        return '{} is written as {!r}'.format(d, text)
        return False if unsure else None
    return test


def cause_job(ctx, p, texts, quals, cause, layout):
    files, where = causes.render(cause, dict(causes.layouts(cause))[layout])
    paths = p.files(causes.FNAME[cause.place], files)
    ctx.count('causes')
    judge_paths(ctx, texts, 'cause', '{}, {}'.format(cause.name, layout),
                paths, expected(texts, quals, cause, where, layout))


def check(ctx):
    w = Writer()
    texts = Texts(w.it)
    quals = {q.rsplit(':', 1)[1]: q for q in texts.texts}
    for qual, text in sorted(texts.texts.items()):
        f = fields(text) if text is not None else None
        if text is None:
            ctx.undecided('class', qual, 'its text is not known')
        elif f is None:
            ctx.violation('class', qual, 'the text {!r} cannot be formatted'
                          .format(text))
        else:
            bad = [i for i in f if not i or i.isdigit()]
            ctx.decide(not bad, 'class', qual,
                       'positional placeholder in {!r}'.format(text))
    call_sites(ctx, w.it, texts)
    jobs = []
    for cause in causes.load():
        for layout, _ in causes.layouts(cause):
            if layout in ('twice', 'again') or not ctx.thorough and (
                    layout not in ('alone', 'last', 'nested')):
                continue
            jobs.append(functools.partial(
                cause_job, ctx, w, texts, quals, cause, layout))
    p = Plan(driver='files')

    def also(_, p, rule, texts_, paths):
        judge_paths(ctx, texts, 'sweep', '{}: {} lines from {!r}'.format(
            rule, len(texts_), texts_[0]), paths, complete(texts, quals))
    jobs += c02.jobs(Silent(ctx), p, also, part=1 if ctx.thorough else 2)
    ctx.parallel(jobs)
    ctx.need('call sites', 80)
    ctx.need('causes', 300)


class Silent:
    """For the sweep: what does not end normally is C02's matter."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.violations = ()

    def count(self, *args):
        self.ctx.count(*args)

    def ok(self, *args):
        pass

    undecided = violation = ok
