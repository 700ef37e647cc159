"""
The call of each application that declares limits (reference table, both
versions) is interpreted abstractly. The obligations enumerate the number of
arguments from none to three more than the limit: too few reported iff below
the minimum, too many iff above the maximum, once, and neither within.
(1) The splitting of arguments is replaced by one that gives exactly n
arguments of arbitrary nonempty text, or with one of them a variable. (2) The
real splitting runs on representatives: plain arguments, empty ones, and
arguments with separators inside brackets, parentheses, quotes and behind
backslashes, which do not count. Conditional applications: <cond>?<a>:<b> with
one to four parts, and one to five arguments in each branch of those that
jump. Options: each letter of the declared set and each other letter or
digit alone, pairs and repetitions; BADOPT reported iff a letter is not
declared, DUPEOPT iff a letter is repeated.
"""
import json
import os
import string

from .. import harness, world
from ..values import V, v_str
from .. import varmodel

TABLE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'tables', 'args.json')
SPLIT = 'asterisklint.app.base:AppBase.separate_args'
FEW, MANY = 'E_APP_ARG_FEW', 'E_APP_ARG_MANY'
BADOPT, DUPEOPT = 'E_APP_ARG_BADOPT', 'E_APP_ARG_DUPEOPT'


def judge(ctx, rule, construct, res, want, seen=None):
    """want: {message: exact number}"""
    if not res:
        ctx.undecided(rule, construct, 'no result')
        return
    good = any(all(st.ts.get('m:' + m, 0) == n for m, n in want.items())
               for kind, st, v in res if kind == 'r')
    for kind, st, v in res:
        if st.ts.get('unk') or kind != 'r' or (
                seen and not st.ts.get(seen)):
            ctx.undecided(rule, construct, (kind, v))
            continue
        bad = ['{} {} times instead of {}'.format(
            m, st.ts.get('m:' + m, 0), n) for m, n in sorted(want.items())
               if st.ts.get('m:' + m, 0) != n]
        ctx.decide(not bad or (None if good else False), rule, construct,
                   ', '.join(bad))


def splitter(n, empty=None, var=None):
    def split(it, st, args, kwargs, node):
        st.ts['split'] = True
        items = []
        for i in range(n):
            if i == empty:
                items.append(v_str(''))
            elif i == var:
                items.append(varmodel.joined(it, st, node))
            else:
                items.append(it.sym(st, 'in:arg{}'.format(i), 1))
        return [(st, it.mk_list(st, node, items))]
    return split


# Arguments that hold what separates arguments elsewhere.
ARGS = ('aa', '"b,b"', 'c[c,c]', 'd(d,d)', 'e\\,e', 'f{f}', '([g,g]g,g)',
        '"h\\",h"')


def check(ctx):
    with open(TABLE) as fp:
        table = json.load(fp)
    for version in ('v11', 'v13'):
        it = harness.install(world.make(version))
        it.hooks['construct'] = harness.count_messages
        it.hooks['unknown'] = harness.unknown_hook
        d = harness.Driver('args', it=it, vars=True, trace=False)
        for app, (lo, hi, options) in sorted(table[version].items()):
            limits(ctx, d, version, app, lo, hi)
            for argno, letters in sorted(options.items()):
                check_options(ctx, d, version, app, int(argno), letters)
        for app in table['if']:
            conditional(ctx, d, version, app, app in table['ifjump'])
    ctx.need('scenarios', 500)


def limits(ctx, d, version, app, lo, hi):
    it = d.it
    for n in range(1, hi + 4):
        want = {FEW: int(n < lo), MANY: int(n > hi)}
        where = '{} {} with {} arguments'.format(version, app, n)
        if SPLIT in it.funcs:
            for var in [None] + list(range(n)):
                ctx.count('scenarios')
                it.overrides[SPLIT] = splitter(n, var=var)
                judge(ctx, 'limits', where if var is None else
                      '{}, variable in {}'.format(where, var + 1),
                      d.run('call_any', [v_str(app)]), want, 'split')
                if lo == 1 and n == 1:
                    continue
                if var is not None:
                    it.overrides[SPLIT] = splitter(n, empty=var)
                    ctx.count('scenarios')
                    judge(ctx, 'limits', '{}, {} empty'.format(
                        where, var + 1),
                        d.run('call_any', [v_str(app)]), want, 'split')
            del it.overrides[SPLIT]
        for k in range(len(ARGS)):
            args = [(ARGS * 3)[k + i] for i in range(n)]
            ctx.count('scenarios')
            judge(ctx, 'limits', '{}({})'.format(app, ','.join(args)),
                  d.run('call', [v_str(app), v_str(','.join(args))]), want)
        if n > 1:
            ctx.count('scenarios')
            judge(ctx, 'limits', where + ', all empty', d.run('call', [
                v_str(app), v_str(',' * (n - 1))]), want)
    ctx.count('scenarios')
    judge(ctx, 'limits', '{} {} without arguments'.format(version, app),
          d.run('call', [v_str(app), v_str('')]), {FEW: int(lo > 0), MANY: 0})


def check_options(ctx, d, version, app, argno, letters):
    others = [i for i in string.ascii_letters + string.digits + '_ '
              if i not in letters]
    texts = list(letters) + others + [letters, letters + letters[0],
                                      letters + others[0],
                                      others[0] + letters[-1]]
    texts += [i + i for i in letters] + [
        others[0] + others[0], others[0] + others[-1], '']
    texts += [i + letters[0] + i for i in letters[1:]]
    for text in texts:
        ctx.count('scenarios')
        judge(ctx, 'options', '{} {} options {!r}'.format(
            version, app, text),
            d.run('call', [v_str(app), v_str(','.join(
                ['123'] * (argno - 1) + [text]))]),
            {BADOPT: int(any(i not in letters for i in text)),
             DUPEOPT: int(len(set(text)) < len(text)), FEW: 0, MANY: 0})


def conditional(ctx, d, version, app, jumps):
    cond = '1' if app.endswith('time') else 'x'
    for n in range(1, 5):
        for branch in ('a:b', 'a', 'a:', ':b'):
            ctx.count('scenarios')
            data = '?'.join([cond] + [branch] * (n - 1))
            judge(ctx, 'conditional', '{} {}({})'.format(version, app, data),
                  d.run('call', [v_str(app), v_str(data)]),
                  {FEW: int(n == 1), MANY: int(n > 2)})
    if not jumps:
        return
    for n in range(1, 6):
        args = ','.join(['c', 'e', '1', 'x', 'y'][:n])
        for data in (args, args + ':', ':' + args, args + ':1'):
            ctx.count('scenarios')
            judge(ctx, 'conditional', '{} {}(x?{})'.format(
                version, app, data),
                d.run('call', [v_str(app), v_str('x?' + data)]),
                {FEW: 0, MANY: int(n > 3)})
