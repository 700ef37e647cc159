"""
Order taint: a dataflow analysis over the syntax trees of all functions.

Sources are collections without a defined order (sets, directory listings).
What is built in that order (lists, dicts, generators, text) carries the taint
through variables, attributes and return values, until it is sorted with a key
that tells all items apart. Sinks are output, diagnostics, text, and the choice
of one element.
"""
import ast
import re

SET, SEQ, DICT, ELEM, DOS = 'set', 'seq', 'dict', 'elem', 'dictofsets'
TAINTED = (SET, SEQ, DICT, ELEM)
MSG = re.compile(r'^[EWHI]_[A-Z0-9]+(_[A-Z0-9]+)+$')
SETMETH = {'union', 'intersection', 'difference', 'symmetric_difference'}
SEQ_OF = {'list', 'tuple', 'reversed', 'enumerate', 'iter', 'filter', 'map',
          'zip', 'chain'}
NEUTRAL = {'any', 'all', 'sum', 'len', 'bool', 'isinstance', 'hasattr',
           'Counter', 'fsum'}
LISTINGS = {'listdir', 'glob', 'iglob', 'scandir', 'iterdir', 'rglob'}
ADD = {'append', 'extend', 'insert', 'appendleft', 'extendleft', 'write'}


def name_of(f):
    return f.id if isinstance(f, ast.Name) else (
        f.attr if isinstance(f, ast.Attribute) else None)


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + '.' + e.attr
    return None


class Func:
    def __init__(self, mod, cls, node, qual):
        self.mod, self.cls, self.node, self.qual = mod, cls, node, qual
        self.ret = None
        self.emits = False
        self.is_property = any(
            name_of(d) in ('property', 'cached_property')
            for d in node.decorator_list)


class Order:
    def __init__(self, modules):
        self.funcs = []
        self.byname = {}
        self.attrs = {}         # attribute name -> kind
        self.violations = {}    # (qual, text) -> (message, line)
        self.sources = 0
        self.bases = {}
        for mod in modules:
            self.collect(mod, mod.tree.body, None, mod.name + ':')
        for _ in range(8):
            before = self.snapshot()
            self.violations = {}
            self.sources = 0
            for f in self.funcs:
                self.run(f)
            if before == self.snapshot():
                break

    def snapshot(self):
        return (dict(self.attrs), [(f.ret, f.emits) for f in self.funcs],
                sorted(self.violations))

    def collect(self, mod, body, cls, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(mod, cls, n, prefix + n.name)
                self.funcs.append(f)
                self.byname.setdefault(n.name, []).append(f)
                self.collect(mod, n.body, cls, prefix + n.name + '.')
            elif isinstance(n, ast.ClassDef):
                self.bases[n.name] = [name_of(b) for b in n.bases]
                self.collect(mod, n.body, n.name, prefix + n.name + '.')
                for s in n.body:
                    if isinstance(s, ast.Assign) and self.is_set(s.value):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                self.attrs[t.id] = SET
            else:
                for sub in ('body', 'orelse', 'finalbody'):
                    self.collect(mod, getattr(n, sub, []) or [], cls, prefix)
                for h in getattr(n, 'handlers', []):
                    self.collect(mod, h.body, cls, prefix)

    @staticmethod
    def is_set(e):
        return isinstance(e, (ast.Set, ast.SetComp)) or (
            isinstance(e, ast.Call) and name_of(e.func) in (
                'set', 'frozenset'))

    # ------------------------------------------------------------------
    def resolve(self, e, prop=False):
        """Functions that a call (or property read) may run."""
        name = name_of(e)
        if name is None or name in dir(list) + dir(dict) + dir(set) + dir(
                str):
            return []
        c = [f for f in self.byname.get(name, []) if f.is_property == prop]
        if isinstance(e, ast.Name):
            c = [f for f in c if f.cls is None]
        elif isinstance(e, ast.Attribute):
            c = [f for f in c if f.cls is not None or not prop]
        return c

    def run(self, f):
        self.f = f
        self.block(f.node.body, {}, ())

    def block(self, stmts, env, loops):
        for s in stmts:
            self.stmt(s, env, loops)

    def hit(self, node, message):
        text = ast.unparse(node)
        self.violations.setdefault(
            (self.f.qual, text[:100]),
            (message, '{}:{}'.format(self.f.mod.rel, node.lineno)))

    def stmt(self, s, env, loops):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            return
        if isinstance(s, ast.Assign):
            k = self.kind(s.value, env, loops)
            for t in s.targets:
                self.store(t, k, s.value, env, loops)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.kind(s.value, env, loops), s.value,
                           env, loops)
            return
        if isinstance(s, ast.AugAssign):
            k = self.kind(s.value, env, loops)
            if isinstance(s.op, ast.Add):
                texty = any(isinstance(n, ast.JoinedStr) or isinstance(
                    n, ast.Constant) and isinstance(n.value, str) or
                    isinstance(n, (ast.List, ast.ListComp))
                    for n in ast.walk(s.value)) or (
                        isinstance(s.target, ast.Name) and
                        env.get('type:' + s.target.id) == 'str')
                if (loops and texty) or k in TAINTED:
                    self.taint(s.target, SEQ, env)
            elif k in TAINTED and isinstance(s.op, (ast.BitOr, ast.BitAnd)):
                self.taint(s.target, SET, env)
            return
        if isinstance(s, ast.For):
            k = self.kind(s.iter, env, loops)
            inner = loops
            if k in TAINTED:
                self.sources += 1
                inner = loops + (s,)
            for _ in range(2):
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        env.pop(n.id, None)
                        if k == DOS:
                            env[n.id] = SET
                self.columns(s, env, loops)
                self.block(s.body, env, inner)
            self.block(s.orelse, env, loops)
            return
        if isinstance(s, ast.While):
            for _ in range(2):
                self.kind(s.test, env, loops)
                self.block(s.body, env, loops)
            self.block(s.orelse, env, loops)
            return
        if isinstance(s, ast.If):
            self.kind(s.test, env, loops)
            a, b = dict(env), dict(env)
            self.block(s.body, a, loops)
            self.block(s.orelse, b, loops)
            self.join(env, a, b)
            return
        if isinstance(s, ast.Try):
            a = dict(env)
            self.block(s.body, a, loops)
            outs = [a]
            for h in s.handlers:
                b = dict(a)
                self.block(h.body, b, loops)
                outs.append(b)
            self.block(s.orelse, a, loops)
            self.join(env, *outs)
            self.block(s.finalbody, env, loops)
            return
        if isinstance(s, ast.With):
            for i in s.items:
                self.kind(i.context_expr, env, loops)
            self.block(s.body, env, loops)
            return
        if isinstance(s, ast.Return):
            k = self.kind(s.value, env, loops) if s.value else None
            if k in TAINTED:
                self.f.ret = k
            if loops and s.value is not None and self.from_loop(
                    s.value, loops):
                self.hit(s, 'returns whichever item comes first of {}'.format(
                    ast.unparse(loops[-1].iter)))
            return
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.kind(e, env, loops)

    def columns(self, s, env, loops):
        """for a, b in ((1, 2), (3, 4))"""
        if not isinstance(s.iter, (ast.Tuple, ast.List)):
            return
        for row in s.iter.elts:
            pairs = [(s.target, row)]
            if isinstance(s.target, ast.Tuple) and isinstance(
                    row, (ast.Tuple, ast.List)):
                pairs = list(zip(s.target.elts, row.elts))
            for t, e in pairs:
                k = self.kind(e, env, loops)
                if k and isinstance(t, ast.Name):
                    env[t.id] = k

    def from_loop(self, e, loops):
        names = {n.id for f in loops for n in ast.walk(f.target)
                 if isinstance(n, ast.Name)}
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(
                e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return False
        if isinstance(e, ast.Call) and name_of(e.func) in NEUTRAL:
            return False
        return any(isinstance(n, ast.Name) and n.id in names
                   for n in ast.walk(e))

    def join(self, env, *outs):
        keys = set()
        for o in outs:
            keys |= set(o)
        env.clear()
        for k in keys:
            vals = [o[k] for o in outs if o.get(k) is not None]
            if vals:
                env[k] = vals[0]

    def store(self, t, k, value, env, loops):
        if isinstance(t, ast.Name):
            env[t.id] = k
            env['type:' + t.id] = 'str' if isinstance(
                value, ast.JoinedStr) or isinstance(
                value, ast.Constant) and isinstance(value.value, str) \
                else None
        elif isinstance(t, ast.Attribute):
            key = dotted(t)
            if key:
                env[key] = k
            if k in TAINTED or k == DOS:
                self.attrs[t.attr] = k
        elif isinstance(t, ast.Subscript):
            self.kind(t.slice, env, loops)
            if loops and isinstance(t.value, (ast.Name, ast.Attribute)):
                self.taint(t.value, DICT, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.store(e, ELEM if k in (SET, SEQ, DICT) else None, value,
                           env, loops)

    def taint(self, t, k, env):
        key = dotted(t)
        if key is None:
            return
        if env.get(key) in (SET, DOS):
            return
        env[key] = k
        if isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name) and t.value.id in ('self', 'cls'):
            self.attrs.setdefault(t.attr, k)

    # ------------------------------------------------------------------
    def kind(self, e, env, loops):
        m = getattr(self, 'k_' + type(e).__name__, None)
        if m:
            return m(e, env, loops)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.kind(c, env, loops)
        return None

    def k_Constant(self, e, env, loops):
        return None

    def k_Name(self, e, env, loops):
        return env.get(e.id)

    def k_Attribute(self, e, env, loops):
        self.kind(e.value, env, loops)
        key = dotted(e)
        if key in env:
            return env[key]
        for f in self.resolve(e, True):
            if f.ret in TAINTED:
                return f.ret
        return self.attrs.get(e.attr)

    def k_Set(self, e, env, loops):
        for c in e.elts:
            self.kind(c, env, loops)
        return SET if len(e.elts) > 1 else None

    def k_Lambda(self, e, env, loops):
        self.kind(e.body, dict(env), ())
        return None

    def k_BinOp(self, e, env, loops):
        ks = (self.kind(e.left, env, loops), self.kind(e.right, env, loops))
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return SET if SET in ks else None
        if isinstance(e.op, ast.Mod) and isinstance(
                e.left, ast.Constant) and isinstance(e.left.value, str):
            if ks[1] in TAINTED:
                self.hit(e, 'text in the order of a collection without order')
            return None
        if isinstance(e.op, ast.Add):
            return SEQ if any(k in (SEQ, ELEM) for k in ks) else None
        return None

    def k_BoolOp(self, e, env, loops):
        ks = [self.kind(v, env, loops) for v in e.values]
        return next((k for k in ks if k), None)

    def k_IfExp(self, e, env, loops):
        self.kind(e.test, env, loops)
        ks = [self.kind(v, env, loops) for v in (e.body, e.orelse)]
        return next((k for k in ks if k), None)

    def k_NamedExpr(self, e, env, loops):
        k = self.kind(e.value, env, loops)
        env[e.target.id] = k
        return k

    def k_Starred(self, e, env, loops):
        return self.kind(e.value, env, loops)

    def k_List(self, e, env, loops):
        ks = [self.kind(c, env, loops) for c in e.elts]
        for c, k in zip(e.elts, ks):
            if isinstance(c, ast.Starred) and k in TAINTED:
                return SEQ
        return None

    k_Tuple = k_List

    def k_Subscript(self, e, env, loops):
        k = self.kind(e.value, env, loops)
        self.kind(e.slice, env, loops)
        if k == DOS:
            return SET
        if k == SEQ:
            return SEQ if isinstance(e.slice, ast.Slice) else ELEM
        return None

    def comp(self, e, env, loops):
        env = dict(env)
        tainted = False
        for g in e.generators:
            k = self.kind(g.iter, env, loops)
            tainted = tainted or k in TAINTED
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    env.pop(n.id, None)
            for c in g.ifs:
                self.kind(c, env, loops)
        for c in ('elt', 'key', 'value'):
            if hasattr(e, c):
                self.kind(getattr(e, c), env, loops)
        if tainted:
            self.sources += 1
        return tainted

    def k_ListComp(self, e, env, loops):
        return SEQ if self.comp(e, env, loops) else None

    k_GeneratorExp = k_ListComp

    def k_SetComp(self, e, env, loops):
        self.comp(e, env, loops)
        return SET

    def k_DictComp(self, e, env, loops):
        return DICT if self.comp(e, env, loops) else None

    def k_JoinedStr(self, e, env, loops):
        for v in e.values:
            if isinstance(v, ast.FormattedValue) and self.kind(
                    v.value, env, loops) in TAINTED:
                self.hit(e, 'text in the order of a collection without order')
        return None

    def k_Yield(self, e, env, loops):
        k = self.kind(e.value, env, loops) if e.value else None
        del k
        if loops:
            self.f.ret = SEQ
        return None

    def k_YieldFrom(self, e, env, loops):
        if self.kind(e.value, env, loops) in TAINTED or loops:
            self.f.ret = SEQ
        return None

    def injective(self, key):
        """Does the sort key tell distinct items apart? None: not known"""
        if key is None or isinstance(key, ast.Constant):
            return True
        if isinstance(key, ast.Lambda):
            arg = key.args.args[0].arg if key.args.args else None
            parts = key.body.elts if isinstance(
                key.body, ast.Tuple) else [key.body]
            for p in parts:
                if isinstance(p, ast.Name) and p.id == arg:
                    return True
            if all(self.lossy(p, arg) for p in parts):
                return False
            return None
        if isinstance(key, ast.Attribute) and dotted(key) in (
                'str.lower', 'str.upper', 'str.casefold', 'str.title'):
            return False
        if isinstance(key, ast.Name) and key.id == 'len':
            return False
        return None

    def lossy(self, p, arg):
        """arg.lower(), len(arg), arg[0], constant and the like"""
        if isinstance(p, ast.Constant):
            return True
        if isinstance(p, ast.Call):
            if isinstance(p.func, ast.Name) and p.func.id == 'len':
                return True
            if isinstance(p.func, ast.Attribute) and p.func.attr in (
                    'lower', 'upper', 'casefold', 'isupper', 'islower',
                    'strip', 'count', 'startswith', 'isdigit', 'find'):
                return True
        if isinstance(p, (ast.Compare, ast.UnaryOp)):
            return True
        if isinstance(p, ast.Subscript) and isinstance(
                p.value, ast.Name) and p.value.id == arg and isinstance(
                p.slice, ast.Slice):
            return True
        return False

    def k_Call(self, e, env, loops):
        name = name_of(e.func)
        args = [self.kind(a, env, loops) for a in e.args]
        kws = {k.arg: self.kind(k.value, env, loops) for k in e.keywords}
        a0 = args[0] if args else None
        recv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.kind(e.func.value, env, loops)
        elif not isinstance(e.func, ast.Name):
            self.kind(e.func, env, loops)
        worst = next((k for k in args + list(kws.values())
                      if k in TAINTED), None)

        if name in LISTINGS:
            self.sources += 1
            return SEQ
        if isinstance(e.func, ast.Name):
            if name in ('set', 'frozenset'):
                return SET if e.args else SET
            if name == 'sorted':
                if a0 in TAINTED:
                    key = next((k.value for k in e.keywords
                                if k.arg == 'key'), None)
                    return SEQ if self.injective(key) is False else None
                return None
            if name in ('min', 'max'):
                key = next((k.value for k in e.keywords
                            if k.arg == 'key'), None)
                return ELEM if a0 in TAINTED and self.injective(
                    key) is False else None
            if name in NEUTRAL:
                return None
            if name in SEQ_OF:
                return SEQ if worst in TAINTED else None
            if name == 'dict':
                return DICT if worst in TAINTED else None
            if name == 'defaultdict':
                if e.args and name_of(e.args[0]) in ('set', 'frozenset'):
                    return DOS
                return None
            if name == 'next':
                return ELEM if a0 in (SET, SEQ) else None
            if name in ('str', 'repr', 'format', 'print'):
                if worst in TAINTED:
                    self.hit(e, 'text in the order of a collection without '
                                'order')
                if name == 'print':
                    self.emit(e, loops)
                return None
        if isinstance(e.func, ast.Attribute):
            if name == 'join' and a0 in TAINTED:
                return self.text(e)
            if name == 'format' and worst in TAINTED:
                return self.text(e)
            if name == 'fromkeys':
                return DICT if a0 in TAINTED else None
            if name in ('items', 'keys', 'values'):
                if recv == DOS:
                    return None
                return SEQ if recv == DICT else None
            if name in SETMETH and recv == SET or (
                    name == 'copy' and recv in TAINTED):
                return recv
            if name == 'sort':
                key = next((k.value for k in e.keywords
                            if k.arg == 'key'), None)
                if self.injective(key) is not False:
                    d = dotted(e.func.value)
                    if d and env.get(d) in (SEQ, None):
                        env[d] = None
                    if isinstance(e.func.value, ast.Attribute):
                        if self.attrs.get(e.func.value.attr) == SEQ:
                            del self.attrs[e.func.value.attr]
                return None
            if name in ADD:
                if loops or (name == 'extend' and a0 in TAINTED):
                    self.taint(e.func.value, SEQ, env)
                if name == 'write' and worst in TAINTED:
                    self.hit(e, 'output in the order of a collection '
                                'without order')
                return None
        if name and MSG.match(name):
            if worst in TAINTED:
                self.hit(e, 'diagnostic holds a collection without order')
            self.emit(e, loops)
            return None
        ret = None
        for f in self.resolve(e.func):
            if f.emits:
                self.emit(e, loops)
            if f.ret in TAINTED:
                ret = f.ret
        return ret

    def text(self, e):
        self.hit(e, 'text in the order of a collection without order')
        return None

    def emit(self, e, loops):
        self.f.emits = True
        if loops:
            self.hit(e, 'output or diagnostics in the order of {}'.format(
                ast.unparse(loops[-1].iter)))
