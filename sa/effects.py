"""Side-effect analysis of functions: which parameters, and which of their fields, a call may read or change.

A flow-insensitive fixpoint over the syntax trees.  An expression is *rooted* at (parameter, field) when it is an
attribute / subscript / iteration / call chain starting there; local variables inherit the roots of what is assigned
to them.  Reads and writes are sets of (parameter index, field or None).
"""
import ast

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add',
            'discard', 'write', 'seek', 'read', 'readline', 'readlines', 'truncate', 'read_byte', 'put', 'get_nowait',
            'popitem', 'writelines', 'set_array', 'build', 'release', 'close', 'appendleft', 'popleft', 'flush',
            'move_to_end', 'intersection_update', 'difference_update', 'symmetric_difference_update'}


# methods of built-in types that share a name with a method of the package
BUILTIN_NAMES = {'split', 'lower', 'format', 'index', 'encode', 'decode', 'strip', 'find', 'count', 'get', 'join', 'keys',
                 'items', 'values'}


class Effect:
    __slots__ = ('reads', 'writes')

    def __init__(self):
        self.reads, self.writes = set(), set()

    def key(self):
        return (frozenset(self.reads), frozenset(self.writes))


class Effects:
    def __init__(self, prog, resolver=None):
        self.prog = prog
        self.eff = {q: Effect() for q in prog.funcs}
        self.ret = {q: set() for q in prog.funcs}     # roots of what a function returns
        self.byname = {}
        for f in prog.funcs.values():
            self.byname.setdefault(f.name, []).append(f)
        for _ in range(12):
            changed = False
            for q, f in prog.funcs.items():
                before = self.eff[q].key(), frozenset(self.ret[q])
                self.analyse(f)
                changed |= (self.eff[q].key(), frozenset(self.ret[q])) != before
            if not changed:
                break

    def of(self, funcs):
        """Joined effect of several possible targets, aligned on 'self' being parameter 0."""
        e = Effect()
        for f in funcs:
            x = self.eff[f.qual if f.kind != 'setter' else f.qual + '.setter']
            e.reads |= x.reads
            e.writes |= x.writes
        return e

    def targets(self, f, call):
        fn = call.func
        if isinstance(fn, ast.Attribute):
            name = fn.attr
            if name in MUTATORS and not (isinstance(fn.value, ast.Name) and fn.value.id == 'self') \
                    and not isinstance(fn.value, ast.Call):
                return []
            if name in BUILTIN_NAMES and not (isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls')):
                return []
            fs = self.byname.get(name, [])
            fs = [x for x in fs if x.cls is not None or x.module.name.rsplit('.', 1)[-1] == getattr(fn.value, 'id', None)]
            n = len(call.args) + len(call.keywords)
            out = []
            for x in fs:
                k = len(x.params()) - (1 if x.kind in ('method', 'classmethod') else 0)
                lo = x.required() - (1 if x.kind in ('method', 'classmethod') else 0)
                if lo <= n <= max(k, lo) or any(isinstance(a, ast.Starred) for a in call.args):
                    out.append(x)
            if isinstance(fn.value, ast.Name) and fn.value.id == 'self' and f.cls is not None:
                m = self.prog.lookup(f.cls, name)
                if hasattr(m, 'qual') and hasattr(m, 'kind'):
                    return [m] + [x for x in out if x.cls in self.prog.subclasses(f.cls) and x is not m]
            return out
        if isinstance(fn, ast.Name):
            return [x for x in self.byname.get(fn.id, []) if x.cls is None]
        return []

    def analyse(self, f):
        e = self.eff[f.qual if f.kind != 'setter' else f.qual + '.setter']
        params = f.params()
        if f.kind == 'classmethod' and params:
            pass
        env = {p: {(i, None)} for i, p in enumerate(params)}
        for a in f.node.args.kwonlyargs:
            env[a.arg] = set()

        def key(t):
            return t.qual if t.kind != 'setter' else t.qual + '.setter'

        def actuals(n, t):
            off = 1 if t.kind in ('method', 'classmethod', 'property') else 0
            tp = t.params()
            actual = {}
            if off and isinstance(n.func, ast.Attribute):
                v = n.func.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and params:
                    actual[0] = {(0, None)}
                else:
                    actual[0] = roots(v)
            for i, a in enumerate(n.args):
                actual[i + off] = roots(a)
            for kw in n.keywords:
                if kw.arg in tp:
                    actual[tp.index(kw.arg)] = roots(kw.value)
            return actual

        def roots(x):
            if isinstance(x, ast.Name):
                return env.get(x.id, set())
            if isinstance(x, ast.Attribute):
                out = set()
                for (p, fl) in roots(x.value):
                    out.add((p, fl or x.attr))
                return out
            if isinstance(x, (ast.Subscript, ast.Starred)):
                return roots(x.value)
            if isinstance(x, (ast.List, ast.Tuple, ast.Set)):
                return set().union(*[roots(v) for v in x.elts]) if x.elts else set()
            if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
                return roots(x.elt)
            if isinstance(x, ast.Call):
                out = set()
                d = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ''
                if d.lstrip('_')[:1].isupper() or d in ('cls', 'defaultdict'):
                    return out
                ts = self.targets(f, x)
                if ts:
                    for t in ts:
                        for (p, fl) in self.ret[key(t)]:
                            for (q, ql) in actuals(x, t).get(p, ()):
                                out.add((q, ql or fl))
                    return out
                if isinstance(x.func, ast.Attribute):
                    if x.func.attr in ('encode', 'decode', 'split', 'strip', 'lower', 'join', 'format', 'tell', 'startswith'):
                        return set()
                    out |= roots(x.func.value)
                elif isinstance(x.func, ast.Name):
                    if x.func.id in ('len', 'range', 'int', 'str', 'ord', 'set', 'bool', 'sum'):
                        return set()
                    for a in x.args:
                        out |= roots(a)
                return out
            if isinstance(x, ast.IfExp):
                return roots(x.body) | roots(x.orelse)
            if isinstance(x, ast.BoolOp):
                return set().union(*[roots(v) for v in x.values])
            return set()

        def bind(t, r):
            if isinstance(t, ast.Name):
                if r and not r <= env.get(t.id, set()):
                    env[t.id] = env.get(t.id, set()) | r
            elif isinstance(t, (ast.Tuple, ast.List)):
                for y in t.elts:
                    bind(y, r)
            elif isinstance(t, ast.Starred):
                bind(t.value, r)

        def wr(rs, fld=None):
            for (p, fl) in rs:
                e.writes.add((p, fl or fld))

        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    r = roots(n.value)
                    for t in n.targets:
                        bind(t, r)
                elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    bind(n.target, roots(n.value))
                elif isinstance(n, ast.For):
                    bind(n.target, roots(n.iter))
                elif isinstance(n, ast.comprehension):
                    bind(n.target, roots(n.iter))
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    bind(n.optional_vars, roots(n.context_expr))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.attr in ('append', 'extend', 'insert', 'add'):
                    for a in n.args:
                        bind(n.func.value, roots(a))
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None:
                self.ret[key(f)] |= roots(n.value)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                rs = roots(n.value)
                if isinstance(n.ctx, ast.Load):
                    for (p, fl) in rs:
                        e.reads.add((p, fl or n.attr))
                else:
                    wr(rs, n.attr)
            elif isinstance(n, ast.Subscript):
                rs = roots(n.value)
                if not isinstance(n.ctx, ast.Load):
                    wr(rs)
                for (p, fl) in rs:
                    e.reads.add((p, fl))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Attribute, ast.Subscript)):
                if isinstance(n.target, ast.Attribute):
                    for (p, fl) in roots(n.target.value):
                        e.reads.add((p, fl or n.target.attr))
            elif isinstance(n, ast.Call):
                ts = self.targets(f, n)
                if isinstance(n.func, ast.Attribute):
                    rs = roots(n.func.value)
                    if n.func.attr in MUTATORS:
                        wr(rs)
                        for (p, fl) in rs:
                            e.reads.add((p, fl))
                for t in ts:
                    te = self.eff[key(t)]
                    actual = actuals(n, t)
                    for src, dst in ((te.reads, e.reads), (te.writes, e.writes)):
                        for (p, fl) in list(src):
                            for (q, ql) in actual.get(p, ()):
                                dst.add((q, ql or fl))
                    # an argument handed over is read as a whole
                for a in list(n.args) + [k.value for k in n.keywords]:
                    for (p, fl) in roots(a):
                        e.reads.add((p, fl))
