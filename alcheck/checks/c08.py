"""
The registries of each Asterisk version are evaluated by constant propagation
over the module bodies and register functions (imports, directory listing and
symbolic links included). Obligations: each name of the reference table (the
confirmed names and modules per version) resolves to the entry with exactly
that name and module; each application/function object that is made for a
version is what its own lower case name resolves to; each leaf class below
the base classes is made; a name that only another version has is unknown; an unlisted name resolves to the entry for unknowns.
"""
import json
import os

from .. import harness, world
from ..loader import AnalysisBroken

TABLE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'tables', 'registry.json')
BASES = {'app': 'asterisklint.app.base:AppBase',
         'func': 'asterisklint.func.base:FuncBase'}
UNKNOWN = {'app': 'Unknown', 'func': 'UNKNOWN'}


def lookup(d, fname, arg):
    """[(object atom, name or None, module or None)]"""
    res = d.run(fname, [arg])
    ret = []
    for kind, st, v in res:
        if kind != 'r' or not v.one or v.one[0] != 't':
            ret.append((None, None, '{} {}'.format(kind, v)))
            continue
        obj, name, module = v.one[1]
        ret.append((obj.one,
                    name.one[1] if name.one and name.one[0] == 's' else None,
                    module.one[1] if module.one and module.one[0] == 's'
                    else None))
    return ret


def registered(it, base):
    return sorted(
        (k for k, o in it.base.items()
         if not isinstance(k[0], str) and o.kind == 'inst' and o.cls and
         it.is_subclass(o.cls, base)), key=repr)


def leaves(it, prefix, base):
    quals = [q for q in it.cls_info if q.startswith(prefix)]
    subs = [q for q in quals if it.is_subclass(q, base)]
    parents = set()
    for q in it.cls_info:
        for p in it.mro(q)[1:]:
            parents.add(p)
    return sorted(q for q in subs if q not in parents)


def check(ctx):
    with open(TABLE) as fp:
        table = json.load(fp)
    from ..values import V, v_str
    for version in sorted(table):
        it = harness.install(world.make(version))
        d = harness.Driver('registry', it=it, vars=False, trace=False)
        for kind in ('app', 'func'):
            want = table[version][kind]
            for lower in sorted(want):
                name, module = want[lower]
                res = lookup(d, kind, v_str(lower))
                construct = '{} {} {}'.format(version, kind, name)
                ctx.count('names')
                if len(res) != 1 or res[0][1] is None or res[0][2] is None:
                    ctx.undecided('known', construct, res)
                    continue
                obj, gname, gmodule = res[0]
                if gname != name:
                    ctx.violation(
                        'known', construct,
                        'looking up {!r} gives {!r} instead of {!r}'.format(
                            lower, gname, name))
                elif gmodule != module:
                    ctx.violation(
                        'module', construct,
                        '{} is attributed to {!r}, is provided by {!r}'
                        .format(name, gmodule, module))
                else:
                    ctx.ok('known', construct)
            # What only another version has, is not known.
            for other in sorted(table):
                for lower in sorted(set(table[other][kind]) - set(want)):
                    res = lookup(d, kind, v_str(lower))
                    construct = '{} {} {}'.format(
                        version, kind, table[other][kind][lower][0])
                    if len(res) != 1 or res[0][1] is None:
                        ctx.undecided('version', construct, res)
                    else:
                        ctx.decide(
                            res[0][1] == UNKNOWN[kind], 'version', construct,
                            'exists in {} only'.format(other))
            # Each object is found under its own name.
            made = set()
            for oid in registered(it, BASES[kind]):
                o = it.base[oid]
                res = lookup(d, 'entry', V([('o', oid)]))
                made.add(o.cls)
                if len(res) != 1 or res[0][1] is None:
                    ctx.undecided('unique', '{} {}'.format(version, o.cls))
                    continue
                name = res[0][1]
                back = lookup(d, kind, v_str(name.lower()))
                construct = '{} {} {}'.format(version, kind, name)
                ctx.count('objects')
                if len(back) != 1 or back[0][0] is None:
                    ctx.undecided('unique', construct, back)
                elif back[0][0] != ('o', oid):
                    ctx.violation(
                        'unique', construct,
                        '{} ({}) is not what its name resolves to: {} of {}'
                        .format(name, o.cls, back[0][1], back[0][2]))
                else:
                    ctx.ok('unique', construct)
            prefix = 'asterisklint.{}.{}.'.format(kind, version)
            for qual in leaves(it, prefix, BASES[kind]):
                if qual.rsplit(':', 1)[1].startswith('_'):
                    continue
                ctx.count('classes')
                ctx.decide(
                    qual in made, 'registered', '{} {}'.format(version, qual),
                    'class {} is defined but never registered'.format(qual))
            # Unknown.
            for some in ('nosuchname', 'not-a-name'):
                res = lookup(d, kind, v_str(some))
                construct = '{} {} {}'.format(version, kind, 'unknown')
                if len(res) != 1 or res[0][1] is None:
                    bad = [r for r in res if r[1] is None and
                           str(r[2]).startswith('x ')]
                    ctx.decide(False if bad and len(bad) == len(res) else
                               None, 'unknown', construct, str(res)[:300])
                else:
                    ctx.decide(res[0][1] == UNKNOWN[kind], 'unknown',
                               construct, 'an unknown name gives {!r}'.format(
                                   res[0][1]))
    if not ctx.stats.get('names'):
        raise AnalysisBroken('empty table')
    ctx.need('objects', 450)
    ctx.assumptions.append(
        'the reference table (alcheck/tables/registry.json) lists the names '
        'and modules confirmed at the pinned commit')
