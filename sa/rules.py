"""Structural rules: path, effect and type rules that function summaries do not state."""
import ast
import json
import os
import re
from . import props
from .frontend import Func, Class


def _ob(*a, **k):
    from .check import Ob
    return Ob(*a, **k)


def at(f, n=None):
    line = getattr(n, 'lineno', None) or f.lineno
    return dict(path=f.path, line=line, where='%s:%d %s' % (f.path, line, f.qual))


def text(n):
    try:
        return ast.unparse(n)
    except Exception:
        return ''


def dotted(n, f):
    """Dotted name of a callee with the module's imports resolved."""
    s = text(n)
    if not re.match(r'^[\w.]+$', s):
        return s
    head, _, rest = s.partition('.')
    imp = dict(f.module.imports)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Import):
            for a in x.names:
                imp[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(x, ast.ImportFrom) and not x.level:
            for a in x.names:
                imp[a.asname or a.name] = (x.module or '') + '.' + a.name
    if head in imp:
        return imp[head] + ('.' + rest if rest else '')
    return s


def functions(prog):
    for q, f in sorted(prog.funcs.items()):
        yield f


# ---------------------------------------------------------------------------------------------- typestate walk
class Walk:
    """All paths of a function as sets of states, with exceptional exits.

    ``call(node, state)`` -> (states after normal return, states when it raises) or None for an ordinary call that may
    raise and changes nothing.  Package helpers are followed by ``enter``.
    """
    NORAISE = {'len', 'isinstance', 'str', 'repr', 'bool', 'id', 'type', 'range', 'getLogger', 'info', 'debug', 'warning',
               'append', 'print'}

    def __init__(self, check, prog, depth=4):
        self.check, self.prog, self.depth = check, prog, depth
        self.stack = []
        self.yields = []

    # -- states are frozensets; results: dict kind -> set of states
    def block(self, body, states):
        res = {'normal': set(states), 'raise': set(), 'return': set(), 'break': set(), 'continue': set()}
        for s in body:
            if not res['normal']:
                break
            r = self.stmt(s, res['normal'])
            res['normal'] = r.pop('normal')
            for k, v in r.items():
                res[k] |= v
        return res

    def out(self, normal, **k):
        r = {'normal': set(normal), 'raise': set(), 'return': set(), 'break': set(), 'continue': set()}
        for x, v in k.items():
            r[x.rstrip('_')] |= set(v)
        return r

    def exprs(self, nodes, states):
        """Evaluate expressions for their calls: (states, raise states)."""
        cur, rs = set(states), set()
        for n in nodes:
            if n is None:
                continue
            for c in calls_in_order(n):
                nxt = set()
                for st in cur:
                    if isinstance(c, (ast.Yield, ast.YieldFrom)):
                        if self.yields:
                            a, b = self.yields[-1](st)
                            nxt |= a
                            rs |= b
                        else:
                            nxt.add(st)
                            rs.add(st)
                        continue
                    r = self.check.call(self, c, st)
                    if r is None:
                        r = self.helper(c, st)
                    nxt |= r[0]
                    rs |= r[1]
                cur = nxt
        return cur, rs

    def helper(self, c, st):
        name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
        h = self.resolve(c)
        if h is not None and len(self.stack) < self.depth and h.qual not in self.stack and self.check.relevant(h):
            from .calls import is_generator
            if is_generator(h.node):
                return {st}, {st}
            r = self.function(h, {st})
            return r['normal'], r['raise']
        if name in self.NORAISE:
            return {st}, set()
        return {st}, {st}

    def resolve(self, c):
        f = self.cur
        if isinstance(c.func, ast.Name):
            if c.func.id in f.module.funcs:
                return f.module.funcs[c.func.id]
            if c.func.id in f.module.imports:
                r = self.prog.resolve(f.module.imports[c.func.id])
                return r if isinstance(r, Func) else None
            return None
        if isinstance(c.func, ast.Attribute):
            v = c.func.value
            if isinstance(v, ast.Name) and f.cls is not None and v.id in ('self', 'cls', f.cls.name):
                m = self.prog.lookup(f.cls, c.func.attr)
                return m if isinstance(m, Func) else None
            if isinstance(v, ast.Call) and text(v.func) == 'super' and f.cls is not None:
                for k in self.prog.mro(f.cls)[1:]:
                    if c.func.attr in k.methods:
                        return k.methods[c.func.attr]
        return None

    cur = None

    def function(self, f, states):
        old = self.cur
        self.cur = f
        self.stack.append(f.qual)
        try:
            r = self.block(f.node.body, states)
        finally:
            self.stack.pop()
            self.cur = old
        return {'normal': r['normal'] | r['return'], 'raise': r['raise']}

    def stmt(self, s, states):
        k = type(s).__name__
        if k == 'Return':
            n, rs = self.exprs([s.value], states)
            n = {self.check.returned(self, s, st) for st in n}
            return self.out((), return_=n, raise_=rs)
        if k == 'Raise':
            n, rs = self.exprs([s.exc, s.cause], states)
            return self.out((), raise_=n | rs)
        if k == 'Break':
            return self.out((), break_=states)
        if k == 'Continue':
            return self.out((), continue_=states)
        if k in ('FunctionDef', 'ClassDef', 'Pass', 'Import', 'ImportFrom', 'Global', 'Nonlocal', 'AsyncFunctionDef'):
            return self.out(states)
        if k == 'If':
            n, rs = self.exprs([s.test], states)
            yes, no = set(), set()
            for st in n:
                y, z = self.check.branch(self, s.test, st)
                if y is not None:
                    yes.add(y)
                if z is not None:
                    no.add(z)
            a, b = self.block(s.body, yes), self.block(s.orelse, no)
            r = self.join(a, b)
            r['raise'] |= rs
            return r
        if k in ('While', 'For', 'AsyncFor'):
            test = [s.test] if k == 'While' else [s.iter]
            cur, rs = self.exprs(test, states)
            seen, todo, brk, ret = set(), set(cur), set(), set()
            after = set(cur)
            while todo:
                seen |= todo
                r = self.block(s.body, todo)
                rs |= r['raise']
                ret |= r['return']
                brk |= r['break']
                nxt = r['normal'] | r['continue']
                if k == 'While':
                    nxt, e = self.exprs(test, nxt)
                    rs |= e
                after |= nxt
                todo = nxt - seen
            if k == 'While' and isinstance(s.test, ast.Constant) and s.test.value:
                after = set()
            e = self.block(s.orelse, after)
            e['normal'] |= brk
            e['raise'] |= rs
            e['return'] |= ret
            return e
        if k == 'Try':
            b = self.block(s.body, states)
            res = self.out((), return_=b['return'], break_=b['break'], continue_=b['continue'])
            els = self.block(s.orelse, b['normal'])
            pend = set(b['raise'])
            res = self.join(res, els)
            caught = False
            for h in s.handlers:
                r = self.block(h.body, pend)
                res = self.join(res, r)
                if h.type is None or text(h.type).split('.')[-1] in ('Exception', 'BaseException'):
                    caught = True
            if not caught:
                res['raise'] |= pend
            if s.finalbody:
                fin = self.out(())
                for kind in ('normal', 'raise', 'return', 'break', 'continue'):
                    if not res[kind]:
                        continue
                    r = self.block(s.finalbody, res[kind])
                    for x in ('raise', 'return', 'break', 'continue'):
                        fin[x] |= r[x]
                    fin[kind] |= r['normal']
                return fin
            return res
        if k in ('With', 'AsyncWith'):
            return self.withs(s, list(s.items), states)
        # simple statements: their calls, then the assignment itself
        nodes = [c for c in ast.iter_child_nodes(s)]
        n, rs = self.exprs([x for x in nodes if isinstance(x, ast.expr)], states)
        n = {self.check.simple(self, s, st) for st in n}
        if k == 'Assert':
            rs |= n
        return self.out(n, raise_=rs)

    def withs(self, s, items, states):
        if not items:
            return self.block(s.body, states)
        it = items.pop(0)
        ctx = it.context_expr
        h = self.resolve(ctx) if isinstance(ctx, ast.Call) else None
        from .calls import is_generator
        if h is not None and is_generator(h.node) and any('contextmanager' in text(d) for d in h.node.decorator_list):
            inner = self.out(())

            def body(st):
                old = self.cur
                self.cur = f
                y = self.yields.pop()
                try:
                    r = self.withs(s, list(items), {st})
                finally:
                    self.yields.append(y)
                    self.cur = old
                for x in ('break', 'continue'):
                    inner[x] |= r[x]
                return r['normal'] | r['return'], r['raise']
            f = self.cur
            self.yields.append(body)
            try:
                r = self.function(h, states)
            finally:
                self.yields.pop()
            return self.join(self.out(r['normal'], raise_=r['raise']), inner)
        c = None
        if isinstance(ctx, ast.Call):
            r = self.prog.resolve(dotted(ctx.func, self.cur)) if self.cur else None
            c = r if isinstance(r, Class) else self.cur.module.classes.get(text(ctx.func)) if self.cur else None
        n, rs = self.exprs([ctx], states)
        opened = {self.check.entered(self, it, st) for st in n}
        if c is not None and '__exit__' in c.methods and self.check.relevant(c.methods['__exit__']):
            if '__enter__' in c.methods:
                e = self.function(c.methods['__enter__'], opened)
                opened, rs = e['normal'], rs | e['raise']
            r = self.withs(s, items, opened)
            fin = self.out((), raise_=rs)
            for kind in r:
                if r[kind]:
                    x = self.function(c.methods['__exit__'], r[kind])
                    fin[kind] |= x['normal']
                    fin['raise'] |= x['raise']
            return fin
        r = self.withs(s, items, opened)
        for kind in r:
            r[kind] = {self.check.left(self, it, st) for st in r[kind]}
        r['raise'] |= rs
        return r

    def join(self, a, b):
        return {k: a[k] | b[k] for k in a}


def calls_in_order(n):
    """Calls and yields of an expression, arguments before the call; bodies of lambdas excluded."""
    out = []

    def go(x):
        if isinstance(x, ast.Lambda):
            return
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.FormattedValue)):
                go(c)
        if isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom)):
            out.append(x)
    go(n)
    return out


class Check:
    def call(self, w, c, st):
        return None

    def relevant(self, f):
        return True

    def returned(self, w, s, st):
        return st

    def branch(self, w, test, st):
        return st, st

    def simple(self, w, s, st):
        return st

    def entered(self, w, item, st):
        return st

    def left(self, w, item, st):
        return st


# ---------------------------------------------------------------------------------------------- C09
class LatticeUse(Check):
    """State: 'clean' or 'dirty' (nodes or sizes of a text are in the reused lattice)."""
    DIRTY = {'resize', 'insert', 'connect_node', 'connect_eos_node', '_build_lattice', 'build_lattice_c', 'create_node'}

    def __init__(self, resets_itself, builders):
        self.resets = resets_itself
        self.builders = builders
        self.uses = 0
        self.stale = False

    def lattice(self, w, n):
        s = text(n)
        if 'lattice' in s.lower():
            return True
        if isinstance(n, ast.Name) and w.cur is not None:
            for x in ast.walk(w.cur.node):
                if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == n.id for y in x.targets):
                    if 'lattice' in text(x.value).lower():
                        return True
        return False

    def relevant(self, f):
        return f.name not in self.DIRTY and 'dump' not in f.name

    def call(self, w, c, st):
        name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ''
        if isinstance(c.func, ast.Attribute) and name == 'clear' and self.lattice(w, c.func.value):
            return {'clean'}, set()
        if name in self.builders or (isinstance(c.func, ast.Attribute) and name in self.DIRTY and
                                     self.lattice(w, c.func.value)):
            self.uses += 1
            if st == 'dirty' and name in self.builders | {'resize'} and not self.resets:
                self.stale = True
            return {'dirty'}, {'dirty'}
        if 'dump' in name:
            return {st}, set()
        return None


def lattice_reset(ck):
    prog = ck.tp
    out = []
    tk = prog.funcs.get('sudachipy.tokenizer.Tokenizer.tokenize')
    lat = prog.classes.get('sudachipy.lattice.Lattice')
    if tk is None or lat is None:
        return [_ob('lattice-reset', 'tokenize', 'undecided', 'tokenize or Lattice not found')]
    # does starting a text reset the lattice by itself?
    resets = False
    for n in ('resize',):
        m = lat.methods.get(n)
        if m is not None:
            for x in ast.walk(m.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'clear':
                    resets = True
                if isinstance(x, ast.Assign) and any(text(y) == 'self.end_lists' for y in x.targets):
                    resets = True
    # functions of the tokenizer module that start a text
    builders = set()
    for f in prog.funcs.values():
        if f.module is tk.module and f is not tk:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'resize':
                    builders.add(f.name)
    grow = True
    while grow:
        grow = False
        for f in prog.funcs.values():
            if f.module is tk.module and f is not tk and f.name not in builders and len(f.node.body) <= 3:
                called = {text(x.func).split('.')[-1] for x in ast.walk(f.node) if isinstance(x, ast.Call)}
                if called & builders and 'clear' not in called and not any(
                        isinstance(x, (ast.Try, ast.With)) for x in ast.walk(f.node)):
                    builders.add(f.name)
                    grow = True
    fresh = any(isinstance(x, ast.Call) and text(x.func).split('.')[-1] == 'Lattice' for x in ast.walk(tk.node))
    c1 = LatticeUse(resets, builders)
    w = Walk(c1, prog)
    r = w.function(tk, {'clean'})
    exits_clean = 'dirty' not in r['normal'] and 'dirty' not in r['raise']
    c2 = LatticeUse(resets, builders)
    w = Walk(c2, prog)
    w.function(tk, {'dirty'})
    starts_clean = not c2.stale
    key = 'Tokenizer.tokenize'
    if fresh or not c1.uses:
        return [_ob('lattice-reset', key, 'undecided' if not fresh else 'ok',
                    'a new lattice for every text' if fresh else 'no use of the lattice found', **at(tk))]
    if exits_clean or starts_clean:
        how = 'every exit, also by an exception, leaves the lattice cleared' if exits_clean else \
            'the lattice is cleared before every use'
        return [_ob('lattice-reset', key, 'ok', how, **at(tk))]
    kinds = [k for k in ('normal', 'raise') if 'dirty' in r[k]]
    return [_ob('lattice-reset', key, 'bad', 'the lattice still holds nodes of the text when tokenize is left by %s, and it '
                'is not cleared before the next text' % ' and '.join('returning' if k == 'normal' else 'an exception' for k in kinds), **at(tk))]


# ---------------------------------------------------------------------------------------------- C10
SETCALLS = {'set', 'frozenset'}
ORDERED_OK = {'sorted', 'set', 'frozenset', 'any', 'all', 'sum', 'len', 'min', 'max', 'bool', 'isinstance', 'Counter'}


class SetTypes:
    """Which expressions are sets."""

    def __init__(self, prog):
        self.prog = prog
        self.funcs = set()
        self.fields = {}
        for _ in range(3):
            for f in functions(prog):
                rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
                ann = f.node.returns
                s = text(ann) if ann is not None else ''
                if re.match(r"^['\"]?(typing\.)?(Abstract)?(Set|FrozenSet|set|frozenset)\b", s):
                    self.funcs.add(f.name)
                elif rets and all(self.isset(x.value, f) for x in rets):
                    self.funcs.add(f.name)
            for f in functions(prog):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign):
                        for y in x.targets:
                            if isinstance(y, ast.Attribute):
                                self.fields.setdefault(y.attr, []).append((x.value, f))
        # a name that also belongs to a function that returns no set is not a set
        self.fieldset = {n for n, vs in self.fields.items()
                         if any(self.isset(v, f) for v, f in vs) and
                         all(self.isset(v, f) or isinstance(v, ast.Constant) for v, f in vs)}

    def local(self, name, f, seen=()):
        if (name, f.qual) in seen:
            return False
        vals = []
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for y in x.targets:
                    if isinstance(y, ast.Name) and y.id == name:
                        vals.append(x.value)
                    elif any(isinstance(z, ast.Name) and z.id == name for z in ast.walk(y)) and not isinstance(y, (ast.Attribute, ast.Subscript)):
                        vals.append(None)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                vals.append(x.value)
            elif isinstance(x, (ast.For, ast.comprehension)):
                if any(isinstance(z, ast.Name) and z.id == name for z in ast.walk(x.target)):
                    vals.append(None)
            elif isinstance(x, (ast.NamedExpr,)) and isinstance(x.target, ast.Name) and x.target.id == name:
                vals.append(x.value)
        if name in f.params_all():
            return False
        return bool(vals) and all(v is not None and self.isset(v, f, seen + ((name, f.qual),)) for v in vals)

    def isset(self, e, f, seen=()):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            if isinstance(e.func, ast.Name) and n in SETCALLS:
                return True
            if isinstance(e.func, ast.Attribute) and n in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                return self.isset(e.func.value, f, seen)
            if n in getattr(self, 'funcs', ()):
                cands = self.prog.by_method.get(n, [])
                return all(c.name in self.funcs for c in cands)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            return self.isset(e.left, f, seen) or (not isinstance(e.op, ast.Sub) and self.isset(e.right, f, seen))
        if isinstance(e, ast.IfExp):
            return self.isset(e.body, f, seen) and self.isset(e.orelse, f, seen)
        if isinstance(e, ast.Name):
            return self.local(e.id, f, seen)
        if isinstance(e, ast.Attribute):
            return e.attr in getattr(self, 'fieldset', ())
        return False


def insensitive(body):
    """Does the order of the iterations not matter?  (accumulating into sets, sums and flags)"""
    consts = set()

    def ok(s):
        if isinstance(s, (ast.Pass, ast.Continue)):
            return True
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, ast.If):
            return all(map(ok, s.body)) and all(map(ok, s.orelse))
        if isinstance(s, ast.Return):
            if s.value is None or isinstance(s.value, ast.Constant):
                consts.add(text(s.value) if s.value is not None else 'None')
                return len(consts) <= 1
            return False
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.AugAssign):
            return isinstance(s.op, (ast.Add, ast.BitAnd, ast.BitOr, ast.BitXor, ast.Mult)) and \
                not isinstance(s.value, (ast.List, ast.JoinedStr, ast.ListComp))
        if isinstance(s, ast.Assign):
            return isinstance(s.value, ast.Constant) or \
                (isinstance(s.value, ast.Call) and text(s.value.func) in ('max', 'min')) or \
                all(isinstance(x, ast.Subscript) for x in s.targets) or \
                (isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.BitAnd, ast.BitOr, ast.Add)))
        if isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Constant):
                return True
            return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                c.func.attr in ('add', 'update', 'discard', 'remove', 'info', 'debug', 'warning')
        return False
    return all(map(ok, body))


def ordering(ck):
    """No ordered result is built by iterating over a set."""
    prog = ck.tp
    ty = SetTypes(prog)
    out = []
    n = 0
    for f in functions(prog):
        if 'dump' in f.name or f.name in ('__str__', '__repr__'):
            continue
        parents = {}
        for x in ast.walk(f.node):
            for c in ast.iter_child_nodes(x):
                parents[c] = x
        for x in ast.walk(f.node):
            bad = None
            if isinstance(x, ast.For) and ty.isset(x.iter, f):
                n += 1
                if not insensitive(x.body) and not by_enum_order(x, f):
                    bad = 'the loop over the set %s' % text(x.iter)
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and ty.isset(x.generators[0].iter, f):
                n += 1
                p = parents.get(x)
                if isinstance(x, ast.DictComp):
                    continue
                if isinstance(p, ast.Call) and (text(p.func) in ORDERED_OK or (isinstance(p.func, ast.Attribute) and p.func.attr in ('update', 'union'))):
                    continue
                bad = 'the comprehension over the set %s' % text(x.generators[0].iter)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('list', 'tuple', 'iter', 'enumerate', 'zip', 'map', 'filter', 'next', 'reversed') and \
                    any(ty.isset(a, f) for a in x.args):
                n += 1
                p = parents.get(x)
                if isinstance(p, ast.Call) and text(p.func) in ORDERED_OK:
                    continue
                bad = '%s' % text(x)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'pop' and not x.args and ty.isset(x.func.value, f):
                n += 1
                bad = '%s' % text(x)
            if bad:
                # the order may be undone before it matters: sorted afterwards
                if sorted_later(x, f, parents):
                    continue
                out.append(_ob('set-order', props.short(f.qual) + ' ' + bad[:60], 'bad',
                               'the order of a set, which differs between processes, decides the result: ' + bad, **at(f, x)))
    out.append(_ob('set-order', 'package', 'ok', '%d uses of sets in iteration examined; %d functions' % (n, len(prog.funcs))))
    return out


def by_enum_order(x, f):
    return False


def sorted_later(x, f, parents):
    """Is the list built here sorted before it is used? (xs = list(s); xs.sort())"""
    p = parents.get(x)
    names = set()
    if isinstance(p, ast.Assign):
        names = {y.id for y in p.targets if isinstance(y, ast.Name)}
    if isinstance(x, ast.For):
        for c in ast.walk(x):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend') and isinstance(c.func.value, ast.Name):
                names.add(c.func.value.id)
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call):
            if isinstance(c.func, ast.Attribute) and c.func.attr == 'sort' and isinstance(c.func.value, ast.Name) and c.func.value.id in names:
                return True
            if isinstance(c.func, ast.Name) and c.func.id in ORDERED_OK and c.args and isinstance(c.args[0], ast.Name) and c.args[0].id in names:
                return True
    return False


NONDET = ('random.', 'secrets.', 'uuid.', 'os.urandom', 'os.getpid', 'os.environ', 'os.getenv', 'threading.get_ident',
          'datetime.', 'time.', 'numpy.random', 'socket.', 'platform.', 'locale.', 'os.getcwd', 'tempfile.')


#: results in the order the file system gives them
LISTINGS = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob'}


def unordered_use(x, parents):
    p = parents.get(x)
    return isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ORDERED_OK


def nondeterminism(ck):
    """No clock, random source, address or environment reaches an analysis."""
    prog = ck.tp
    out = []
    n = 0
    allowed = {f.qual for f in ck.sp.funcs.values() if f.module.name.endswith('command_line')}
    for f in functions(prog):
        if f.module.name == 'sudachipy.command_line':
            continue
        parents = {c: p for p in ast.walk(f.node) for c in ast.iter_child_nodes(p)}
        for x in ast.walk(f.node):
            s = None
            if isinstance(x, ast.Call):
                n += 1
                d = dotted(x.func, f)
                if d in ('id', 'hash') and f.name != '__hash__':
                    s = d
                elif any(d.startswith(p) for p in NONDET):
                    s = d
                elif (d in LISTINGS or isinstance(x.func, ast.Attribute) and x.func.attr in ('iterdir', 'rglob')) and \
                        not unordered_use(x, parents):
                    s = d
                for k in x.keywords:
                    if k.arg == 'key' and any(isinstance(y, ast.Name) and y.id in ('id', 'hash') for y in ast.walk(k.value)):
                        s = k.value.id if isinstance(k.value, ast.Name) else 'id'
            elif isinstance(x, ast.Attribute) and dotted(x, f).startswith('os.environ'):
                s = 'os.environ'
            if s and f.qual not in allowed:
                out.append(_ob('nondeterminism', props.short(f.qual) + ' ' + s, 'bad',
                               'calls %s, which differs between processes' % s, **at(f, x)))
    out.append(_ob('nondeterminism', 'package', 'ok', '%d calls examined' % n))
    return out


# ---------------------------------------------------------------------------------------------- C types
def crange(ty):
    """(lo, hi) of a C integer type, None when it is no C integer."""
    s = ' '.join(x for x in ty.replace('*', ' * ').split() if x not in ('const', 'signed'))
    if '*' in s or 'view' in s or '[' in s:
        return None
    u = s.startswith('unsigned ') or s == 'unsigned'
    s = s[9:] if s.startswith('unsigned ') else 'int' if s == 'unsigned' else s
    bits = {'char': 8, 'short int': 16, 'short': 16, 'int': 32, 'long int': 64, 'long': 64, 'long long int': 64,
            'long long': 64, 'Py_ssize_t': 64, 'ssize_t': 64, 'ptrdiff_t': 64}.get(s)
    if s in ('size_t', 'Py_hash_t'):
        bits, u = 64, s == 'size_t'
    m = re.match(r'^(?:.*\.)?(u?)int(8|16|32|64)_t$', s)
    if m:
        bits, u = int(m.group(2)), bool(m.group(1))
    if s == 'bint':
        return (0, 1)
    if s == 'float':
        return (-2 ** 24, 2 ** 24)
    if s in ('double', 'long double'):
        return (-2 ** 53, 2 ** 53)
    if bits is None:
        return None
    return (0, 2 ** bits - 1) if u else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)


def within(a, b):
    return b is None or a is None or (b[0] <= a[0] and a[1] <= b[1])


def ctypes(ck):
    """No C integer is narrower than in the reviewed tree, nothing wider is stored in a narrower one, and C functions
    pass exceptions on."""
    sp, tp = ck.sp, ck.tp
    out = []
    fields = {}
    for q, c in tp.classes.items():
        for n, ty in c.cfields.items():
            fields.setdefault(n, []).append(ty)
    for q, c in sp.classes.items():
        d = tp.classes.get(q)
        if d is None:
            continue
        for n, ty in c.cfields.items():
            if n not in d.cfields:
                continue
            a, b = crange(ty), crange(d.cfields[n])
            v = 'ok' if a is None or b is None or within(a, b) else 'bad'
            out.append(_ob('c-width', props.short(q) + '.' + n, v,
                           '' if v == 'ok' else 'reviewed %s, now %s: values are truncated' % (ty, d.cfields[n]),
                           path=d.module.path, where='%s %s.%s' % (d.module.path, q, n)))
    for q, f in sp.funcs.items():
        g = tp.funcs.get(q)
        if g is None:
            continue
        ta, tb = getattr(f.node, '_ctypes', None), getattr(g.node, '_ctypes', None)
        if ta is None or tb is None:
            continue
        pairs = [(n, ta[n], tb[n]) for n in ta if n in tb]
        pairs += [(y, ta.get(x, ''), tb.get(y, '')) for x, y in zip(f.params_all(), g.params_all()) if x != y]
        ra, rb = getattr(f.node, '_cret', None), getattr(g.node, '_cret', None)
        if ra and rb:
            pairs.append(('the result', ra, rb))
        for n, x, y in pairs:
            a, b = crange(x), crange(y)
            if a is None or b is None:
                # a Python object that became a C integer: whatever a C int holds is fine
                if a is None and b is not None and x == 'object' and f.name not in ('dump', '__str__') and not within((-2 ** 31, 2 ** 31 - 1), b) and y != 'bint':
                    u = b[0] == 0
                    if not (u and b[1] >= 2 ** 31 - 1):
                        out.append(_ob('c-width', props.short(q) + ' ' + n, 'bad', 'now %s: values are truncated' % y, **at(g)))
                continue
            v = 'ok' if within(a, b) else 'bad'
            out.append(_ob('c-width', props.short(q) + ' ' + n, v,
                           '' if v == 'ok' else 'reviewed %s, now %s: values are truncated' % (x, y), **at(g)))
    for q, g in tp.funcs.items():
        tb = getattr(g.node, '_ctypes', None)
        if tb is None or 'dump' in g.name:
            continue
        old = getattr(sp.funcs[q].node, '_ctypes', {}) if q in sp.funcs else {}

        def rng(e):
            if isinstance(e, ast.Name):
                return crange(tb.get(e.id, '')) if e.id in tb else None
            if isinstance(e, ast.Attribute):
                rs = [crange(x) for x in fields.get(e.attr, ())]
                return rs[0] if rs and all(r == rs[0] for r in rs) else None
            if isinstance(e, ast.BinOp):
                a, b = rng(e.left), rng(e.right)
                if a is None or b is None:
                    return None
                return (min(a[0], b[0]), max(a[1], b[1]))
            if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
                return (e.value, e.value)
            if isinstance(e, ast.IfExp):
                a, b = rng(e.body), rng(e.orelse)
                return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
            return None
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign):
                r = rng(x.value)
                if r is None:
                    continue
                for y in x.targets:
                    if isinstance(y, ast.Name) and y.id in tb and y.id not in old:
                        b = crange(tb[y.id])
                        if b is not None and b != (0, 1) and not within(r, b):
                            out.append(_ob('c-width', props.short(q) + ' ' + y.id, 'bad',
                                           '%s holds %s, which does not fit %s' % (y.id, text(x.value), tb[y.id]), **at(g, x)))
        cf = getattr(g.node, '_cexc', None)
        if getattr(g.node, '_ckind', 'def') != 'def' and cf is not None:
            sf = sp.funcs.get(q)
            was = getattr(sf.node, '_cexc', None) if sf is not None else None
            quiet = cf == (False, 'None') and getattr(g.node, '_cret', 'object') != 'object'
            if quiet and (was is None or was != cf) and may_raise(g):
                out.append(_ob('c-exceptions', props.short(q), 'bad', 'errors raised inside are dropped (noexcept)', **at(g)))
            elif was is not None:
                out.append(_ob('c-exceptions', props.short(q), 'ok', '', **at(g)))
    return out


def may_raise(g):
    return any(isinstance(x, (ast.Raise, ast.Call)) for x in ast.walk(g.node))


def noexcept(ck):
    return [o for o in ctypes(ck) if o.rule == 'c-exceptions']


#: compiler directives that change what compiled code does -> the value that is safe
DIRECTIVES = {'boundscheck': 'True', 'wraparound': 'True', 'initializedcheck': 'True', 'cdivision': 'False', 'always_allow_keywords': 'True',
              'auto_cpdef': 'False', 'c_string_type': None, 'c_string_encoding': None, 'language_level': '3', 'infer_types': None,
              'c_api_binop_methods': 'False', 'unraisable_tracebacks': None, 'legacy_implicit_noexcept': 'False'}


def directives_of(path):
    """(directive, value, line) of a compiled module: the header comments, decorators and with statements."""
    out = []
    with open(path, encoding='utf-8') as f:
        for i, line in enumerate(f, 1):
            m = re.match(r'\s*#\s*cython\s*:(.*)', line)
            if m:
                for part in m.group(1).split(','):
                    k, _, v = part.partition('=')
                    out.append((k.strip(), v.strip(), i))
                continue
            for k, v in re.findall(r'\bcython\.(\w+)\(\s*(True|False)\s*\)', line.split('#')[0]):
                out.append((k, v, i))
            if re.match(r'\s*@\s*(boundscheck|wraparound|cdivision|initializedcheck)\(', line):
                k, v = re.match(r'\s*@\s*(\w+)\(\s*(\w+)', line).groups()
                out.append((k, v, i))
    return out


def directives(ck):
    """An index outside a list or table fails with an error, and division rounds as in Python, in the compiled modules too."""
    out = []
    for sm in ck.sp.modules.values():
        tm = ck.tp.modules.get(sm.name)
        if not sm.path.endswith('.pyx') or tm is None or not tm.path.endswith('.pyx'):
            continue
        bad = []
        n = 0
        for ext in ('.pyx', '.pxd'):
            sp = os.path.join(ck.sp.root, sm.path[:-4] + ext)
            tp = os.path.join(ck.tp.root, tm.path[:-4] + ext)
            old = {(k, v) for k, v, i in directives_of(sp)} if os.path.exists(sp) else set()
            for k, v, i in directives_of(tp) if os.path.exists(tp) else ():
                n += 1
                if k in DIRECTIVES and v != DIRECTIVES[k] and (k, v) not in old and DIRECTIVES[k] is not None:
                    if k == 'wraparound' and not negative_index(tm.tree):
                        continue
                    if k == 'cdivision' and not any(isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.FloorDiv, ast.Div)) and
                                                    not isinstance(x.left, ast.Constant) for x in ast.walk(tm.tree)):
                        continue
                    if k == 'language_level' and v in ('3', '3str', '"3"'):
                        continue
                    bad.append((k, v, i, tm.path[:-4] + ext))
        for k, v, i, path in bad:
            out.append(_ob('compiler-directive', '%s %s=%s' % (tm.name.split('.')[-1], k, v), 'bad',
                           'compiled with %s=%s: an access out of range or a rounding goes unnoticed' % (k, v),
                           path=path, line=i, where='%s:%d' % (path, i)))
        if not bad:
            out.append(_ob('compiler-directive', tm.name.split('.')[-1], 'ok', '%d directives, none switches a check off' % n))
    return out


def negative_index(tree):
    """Is something indexed with a value that may be negative?"""
    for x in ast.walk(tree):
        if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
            for y in ast.walk(x.slice):
                if isinstance(y, (ast.USub, ast.Sub)):
                    return True
    return False


# ---------------------------------------------------------------------------------------------- C36
WRITERS = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.truncate', 'os.ftruncate', 'os.chmod', 'os.utime',
           'os.symlink', 'os.link', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs', 'os.mkfifo', 'os.write',
           'os.system', 'shutil.', 'subprocess.', 'tempfile.', 'os.popen')
WRITEMETHODS = {'write_text', 'write_bytes', 'unlink', 'rmdir', 'touch', 'symlink_to', 'hardlink_to'}
OPENERS = {'open': 1, 'io.open': 1, 'codecs.open': 1, 'os.open': 1, 'gzip.open': 1, 'bz2.open': 1, 'os.fdopen': 1}
OUTPUTS = {'out_file', 'fpath_out'}


def argument(c, pos, name):
    for k in c.keywords:
        if k.arg == name:
            return k.value
    return c.args[pos] if len(c.args) > pos else None


def values_of(e, f, prog, depth=0):
    """The expressions a name may stand for: constants, parameter defaults and arguments at the call sites."""
    if depth > 4 or e is None:
        return [e]
    if isinstance(e, ast.IfExp):
        return values_of(e.body, f, prog, depth + 1) + values_of(e.orelse, f, prog, depth + 1)
    if isinstance(e, ast.BoolOp):
        return [x for v in e.values for x in values_of(v, f, prog, depth + 1)]
    if isinstance(e, ast.Name):
        names = f.params_all()
        vals = []
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == e.id for y in x.targets):
                vals += values_of(x.value, f, prog, depth + 1)
        if e.id in names:
            from .driver import default_of
            d = default_of(f, e.id)
            if d is not None:
                vals.append((d, f))
            i = names.index(e.id)
            off = 1 if f.kind in ('method', 'classmethod') else 0
            for g in functions(prog):
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Call) and text(x.func).split('.')[-1] == f.name:
                        a = argument(x, i - off, e.id)
                        if a is not None:
                            vals += values_of(a, g, prog, depth + 1)
        elif not vals and e.id in f.module.consts:
            vals.append((f.module.consts[e.id], f))
        return [v if isinstance(v, tuple) else (v, f) for v in vals] or [(e, f)]
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') and f.cls is not None and e.attr in f.cls.consts:
            return [(f.cls.consts[e.attr], f)]
        return [(e, f)]
    return [(e, f)]


def writes(ck):
    prog = ck.tp
    out = []
    nopen = nmap = ncall = 0
    known = {}
    for f in ck.sp.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                known.setdefault(f.qual, set()).add(dotted(x.func, f))
    for f in functions(prog):
        cmd = f.module.name == 'sudachipy.command_line'
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            ncall += 1
            d = dotted(x.func, f)
            meth = x.func.attr if isinstance(x.func, ast.Attribute) else ''
            key = '%s %s' % (props.short(f.qual), d[:40])
            if d in OPENERS or (meth == 'open' and d not in OPENERS and 'webbrowser' not in d and 'mmap' not in d):
                nopen += 1
                pathlike = d not in OPENERS
                mode = argument(x, 0 if pathlike else 1, 'mode')
                if d == 'os.open':
                    flags = text(argument(x, 1, 'flags'))
                    bad = re.search(r'O_(WRONLY|RDWR|APPEND|CREAT|TRUNC)', flags)
                    out.append(_ob('open-mode', key, 'bad' if bad else 'ok', flags, **at(f, x)))
                    continue
                modes = [v for v in values_of(mode, f, prog)] if mode is not None else []
                w = False
                unk = False
                for v in modes:
                    v = v[0] if isinstance(v, tuple) else v
                    if isinstance(v, ast.Constant) and isinstance(v.value, str):
                        w = w or any(ch in v.value for ch in 'wax+')
                    else:
                        unk = True
                if not w:
                    out.append(_ob('open-mode', key, 'undecided' if unk else 'ok', 'mode %s' % (text(mode) if mode is not None else 'default'), **at(f, x)))
                    continue
                what = argument(x, 0, 'file') if not pathlike else x.func.value
                names = set()
                for v in values_of(what, f, prog):
                    v = v[0] if isinstance(v, tuple) else v
                    names |= {n.attr for n in ast.walk(v) if isinstance(n, ast.Attribute)} if v is not None else set()
                    names |= {n.id for n in ast.walk(v) if isinstance(n, ast.Name)} if v is not None else set()
                    names |= {n.value for n in ast.walk(v) if isinstance(n, ast.Constant) and isinstance(n.value, str)} if v is not None else set()
                good = cmd and names & OUTPUTS and not (names - OUTPUTS - {'args', 'vars', 'getattr'} - set(f.params_all()))
                also = [m for m in modes if isinstance((m[0] if isinstance(m, tuple) else m), ast.Constant) and
                        any(ch in (m[0] if isinstance(m, tuple) else m).value for ch in 'ax+')] if modes else []
                if good and not also:
                    out.append(_ob('open-mode', key, 'ok', 'declared output %s' % text(what), **at(f, x)))
                else:
                    out.append(_ob('open-mode', key, 'bad', 'opens %s for writing' % text(what), **at(f, x)))
            elif d in ('mmap.mmap',) or d.endswith('.mmap.mmap') or (d == 'numpy.memmap'):
                nmap += 1
                acc = argument(x, 99, 'access')
                prot = argument(x, 3, 'prot')
                vals = [v[0] if isinstance(v, tuple) else v for v in values_of(acc, f, prog)] if acc is not None else []
                names = {text(v).split('.')[-1] for v in vals}
                if acc is None:
                    p = text(prot) if prot is not None else ''
                    ok = prot is not None and 'WRITE' not in p
                    out.append(_ob('map-mode', key, 'ok' if ok else 'bad', 'mapped shared and writable' if not ok else p, **at(f, x)))
                elif names <= {'ACCESS_READ', 'ACCESS_COPY', '1', '3'}:
                    out.append(_ob('map-mode', key, 'ok', 'access in %s' % sorted(names), **at(f, x)))
                elif names & {'ACCESS_WRITE', 'ACCESS_DEFAULT', '2', '0'}:
                    out.append(_ob('map-mode', key, 'bad', 'access may be %s: changes reach the file' % sorted(names), **at(f, x)))
                else:
                    out.append(_ob('map-mode', key, 'undecided', 'access %s' % sorted(names), **at(f, x)))
            elif any(d.startswith(p) for p in WRITERS) and d not in known.get(f.qual, ()):
                out.append(_ob('file-effect', key, 'bad', 'calls %s' % d, **at(f, x)))
            elif meth in WRITEMETHODS:
                out.append(_ob('file-effect', key, 'bad', 'calls %s' % meth, **at(f, x)))
            elif meth == 'flush' and 'bytes' in text(x.func.value).lower():
                out.append(_ob('file-effect', key, 'bad', 'writes a mapping back to its file', **at(f, x)))
            elif any(k.arg == 'inplace' and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in x.keywords) and d.startswith('fileinput'):
                out.append(_ob('file-effect', key, 'bad', 'rewrites its input files in place', **at(f, x)))
    out.append(_ob('file-effect', 'package', 'ok' if nopen >= 8 and nmap >= 1 else 'undecided',
                   '%d open() sites, %d mappings, %d calls examined' % (nopen, nmap, ncall)))
    return out


# ---------------------------------------------------------------------------------------------- C37
class FileUse(Check):
    """State of one file variable: 'none', 'open' or 'open@<condition>'."""

    def __init__(self, var, site, prog):
        self.var, self.site, self.prog = var, site, prog
        self.cond = None

    def relevant(self, f):
        return False

    def closes(self, c):
        return isinstance(c.func, ast.Attribute) and c.func.attr == 'close' and text(c.func.value) == self.var

    def call(self, w, c, st):
        if c is self.site:
            return {'opening'}, {st}
        if self.closes(c):
            return {'none'}, {'none'}
        d = dotted(c.func, w.cur)
        if st == 'opening':
            # the file is handed to something that takes care of it
            if c.func is not self.site and self.site in list(ast.walk(c)):
                n = d.split('.')[-1]
                if n in ('enter_context', 'closing', 'callback', 'push'):
                    return {'none'}, {'none'}
                if n in ('TextIOWrapper', 'BufferedReader', 'BufferedWriter'):
                    return {'opening'}, {'opening'}
                return {'lost'}, {'lost'}
        if self.var and any(text(a) == self.var for a in c.args) and d.split('.')[-1] in ('enter_context', 'closing'):
            return {'none'}, {'none'}
        if d.startswith('logging.') or d.split('.')[-1] in ('setLevel', 'addHandler', 'getLogger', 'StreamHandler', 'isatty'):
            return {st}, set()
        h = w.resolve(c)
        if h is not None and self.calm(h):
            return {st}, set()
        return None

    CALM = ('Expr', 'Assign', 'AnnAssign', 'Return', 'Pass', 'Call', 'Name', 'Attribute', 'Constant', 'keyword', 'Load', 'Store')

    def calm(self, f):
        """A helper that only sets up a logger."""
        for s in f.node.body:
            for n in ast.walk(s):
                if type(n).__name__ not in self.CALM:
                    return False
                if isinstance(n, ast.Call) and dotted(n.func, f).split('.')[-1] not in (
                        'setLevel', 'addHandler', 'getLogger', 'StreamHandler', 'isatty', 'Formatter', 'setFormatter'):
                    return False
        return True

    def simple(self, w, s, st):
        if st == 'opening':
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in ts):
                    return 'kept'
                v = s.value
                if not self.direct(v):
                    return 'none' if not isinstance(v, (ast.Call, ast.Attribute)) else 'lost'
                return 'open'
            return 'lost'
        if st.startswith('open') and isinstance(s, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in s.targets) and \
                any(isinstance(n, ast.Name) and n.id == self.var for n in ast.walk(s.value)):
            return 'kept'
        return st

    def direct(self, v):
        if v is self.site:
            return True
        if isinstance(v, ast.IfExp):
            return self.direct(v.body) or self.direct(v.orelse)
        if isinstance(v, ast.Call) and dotted(v.func, self.fn).split('.')[-1] in ('TextIOWrapper', 'BufferedReader', 'BufferedWriter'):
            return any(a is self.site for a in v.args)
        if isinstance(v, ast.BoolOp):
            return any(self.direct(x) for x in v.values)
        return False

    def returned(self, w, s, st):
        if st == 'opening' and s.value is not None and self.site in list(ast.walk(s.value)):
            return 'handed' if self.direct(s.value) else 'lost'
        if st.startswith('open') and s.value is not None and any(isinstance(n, ast.Name) and n.id == self.var for n in ast.walk(s.value)):
            if isinstance(s.value, (ast.Name, ast.Tuple)):
                return 'handed'
        return st

    def branch(self, w, test, st):
        if st.startswith('open') and self.cond is not None and same(test, self.cond):
            return st, None
        if st.startswith('open') and self.cond is not None and same(test, negated(self.cond)):
            return None, st
        s = text(test)
        if st.startswith('open') and self.var:
            if s in (self.var, self.var + ' is not None', 'not %s.closed' % self.var,
                     '%s is not sys.stdout' % self.var, '%s != sys.stdout' % self.var):
                return st, None
            if s in ('not ' + self.var, self.var + ' is None', self.var + '.closed', '%s is sys.stdout' % self.var, '%s == sys.stdout' % self.var):
                return None, st
        return st, st

    def entered(self, w, item, st):
        if st == 'opening' and self.site in list(ast.walk(item.context_expr)):
            return 'with' if self.direct(item.context_expr) or 'closing' in text(item.context_expr) else 'lost'
        if st.startswith('open') and text(item.context_expr) == self.var:
            return 'with'
        return st

    def left(self, w, item, st):
        if st == 'with' and (self.site in list(ast.walk(item.context_expr)) or text(item.context_expr) == self.var):
            return 'none'
        return st


def same(a, b):
    return ast.dump(simplify(a)) == ast.dump(simplify(b))


def simplify(e):
    """bool(x), x is not None -> x"""
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.IsNot, ast.NotEq)) and \
            isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value in (None, ''):
        return e.left
    if isinstance(e, ast.Call) and text(e.func) == 'bool' and len(e.args) == 1:
        return e.args[0]
    return e


def negated(e):
    return e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.UnaryOp(ast.Not(), e)


def closing(ck):
    prog = ck.tp
    out = []
    n = 0
    handed = {}
    for f in functions(prog):
        parents = {}
        for x in ast.walk(f.node):
            for c in ast.iter_child_nodes(x):
                parents[c] = x
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call) or not is_open(x, f):
                continue
            n += 1
            out.append(close_ob(prog, f, x, parents, handed))
    # helpers that return an open file: judge their callers
    done = set()
    while set(handed) - done:
        q = sorted(set(handed) - done)[0]
        done.add(q)
        h = prog.funcs[q]
        from .calls import is_generator
        if is_generator(h.node):
            continue
        sites = 0
        for f in functions(prog):
            parents = {}
            for x in ast.walk(f.node):
                for c in ast.iter_child_nodes(x):
                    parents[c] = x
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and text(x.func).split('.')[-1] == h.name and f is not h:
                    sites += 1
                    out.append(close_ob(prog, f, x, parents, handed))
        if not sites:
            out.append(_ob('close', props.short(q), 'undecided', 'returns an open file to callers not seen', **at(h)))
    out.append(_ob('close', 'package', 'ok' if n >= 8 else 'undecided', '%d sites that open a file' % n))
    # a dictionary closes the mapping it holds
    bd = prog.classes.get('sudachipy.dictionarylib.binarydictionary.BinaryDictionary')
    dd = prog.classes.get('sudachipy.dictionary.Dictionary')
    for c in (bd, dd):
        if c is None:
            continue
        m = prog.lookup(c, 'close')
        key = props.short(c.qual) + '.close'
        if not isinstance(m, Func):
            out.append(_ob('close', key, 'bad', 'close() is gone', path=c.module.path, where=c.module.path))
            continue
        todo, seen, found = [m], set(), False
        while todo:
            g = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call):
                    nm = text(x.func).split('.')[-1]
                    if nm == 'close' or 'close' in [text(a).split('.')[-1] for a in x.args]:
                        found = True
                    h = prog.lookup(c, nm)
                    if isinstance(h, Func):
                        todo.append(h)
        out.append(_ob('close', key, 'ok' if found else 'bad', '' if found else 'what it opened is not closed', **at(m)))
    return out


def is_open(x, f):
    d = dotted(x.func, f)
    if d in OPENERS:
        return True
    return isinstance(x.func, ast.Attribute) and x.func.attr == 'open' and d not in ('webbrowser.open',)


def close_ob(prog, f, x, parents, handed):
    key = '%s %s' % (props.short(f.qual), text(x)[:50])
    # the variable the file ends up in, and the condition it is opened under
    var, cond, p, child = None, None, parents.get(x), x
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.NamedExpr):
            var = text(p.target)
        if isinstance(p, ast.IfExp) and child in (p.body, p.orelse):
            cond = p.test if child is p.body else negated(p.test)
        if isinstance(p, ast.withitem):
            break
        child, p = p, parents.get(p)
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        var = p.targets[0].id
    elif isinstance(p, ast.AnnAssign):
        var = text(p.target)
    if var is None:
        var = '<file>'
    q, child = parents.get(p), p
    while cond is None and q is not None and q is not f.node:
        if isinstance(q, ast.If):
            cond = q.test if child in q.body else negated(q.test)
        child, q = q, parents.get(q)
    c = FileUse(var, x, prog)
    c.cond, c.fn = cond, f
    w = Walk(c, prog)
    w.cur = f
    r = w.function(f, {'none'})
    bad = []
    for kind in ('normal', 'raise'):
        left = {s for s in r[kind] if s in ('open', 'opening', 'lost', 'with')}
        if left:
            bad.append('when it returns' if kind == 'normal' else 'when an exception is raised')
    if 'handed' in r['normal']:
        handed.setdefault(f.qual, []).append(x)
    if bad:
        return _ob('close', key, 'bad', 'the file is not closed ' + ' nor '.join(bad), **at(f, x))
    if 'kept' in r['normal'] or 'kept' in r['raise']:
        return kept_ob(prog, f, x, key)
    return _ob('close', key, 'ok', '', **at(f, x))


def kept_ob(prog, f, x, key):
    """A file stored in an attribute: some close() of the class must close it."""
    if f.cls is not None:
        for n in ('close', '__exit__'):
            m = prog.lookup(f.cls, n)
            if isinstance(m, Func) and any(isinstance(c, ast.Call) and text(c.func).endswith('.close') for c in ast.walk(m.node)):
                return _ob('close', key, 'ok', 'kept and closed by %s' % m.qual, **at(f, x))
    return _ob('close', key, 'bad', 'the file is kept in an attribute that nothing closes', **at(f, x))


# ---------------------------------------------------------------------------------------------- C38
def resources(ck):
    """The shipped settings and definition files are well formed and name what the code knows."""
    root = os.path.join(ck.tp.root, 'sudachipy', 'resources')
    spec = os.path.join(ck.sp.root, 'sudachipy', 'resources')
    out = []

    def ob(key, bad, path, line=0):
        out.append(_ob('resource', key, 'bad' if bad else 'ok', bad or '', path='sudachipy/resources/' + path, line=line,
                       where='sudachipy/resources/%s:%d' % (path, line)))
    cats = set()
    c = ck.tp.classes.get('sudachipy.dictionarylib.categorytype.CategoryType')
    if c is not None:
        cats = {n for n in c.consts if not n.startswith('_')}

    def lines(name):
        with open(os.path.join(root, name), encoding='utf-8') as f:
            return f.read().split('\n')

    def parse(name, base):
        with open(os.path.join(base, name), encoding='utf-8') as f:
            ls = f.read().split('\n')
        if name == 'char.def':
            rs, defs = [], {}
            for i, l in enumerate(ls, 1):
                l = l.strip()
                if not l or l.startswith('#'):
                    continue
                cols = l.split('#')[0].split() if l.startswith('0x') else l.split()
                if cols[0].startswith('0x'):
                    lo, _, hi = cols[0].partition('..')
                    rs.append((int(lo, 16), int(hi or lo, 16), tuple(sorted(cols[1:])), i))
                else:
                    defs[cols[0]] = (tuple(cols[1:4]), i)
            return rs, defs
        if name == 'unk.def':
            return [(tuple(l.split(',')), i) for i, l in enumerate(ls, 1) if l.strip() and not l.startswith('#')]
        if name == 'rewrite.def':
            ign, rep = {}, {}
            for i, l in enumerate(ls, 1):
                l = l.strip()
                if not l or l.startswith('#'):
                    continue
                cols = l.split()
                if len(cols) == 1:
                    ign.setdefault(cols[0], []).append(i)
                else:
                    rep.setdefault(cols[0], []).append((tuple(cols[1:]), i))
            return ign, rep
        return json.loads('\n'.join(ls))
    try:
        rs, defs = parse('char.def', root)
        srs, sdefs = parse('char.def', spec)
    except (OSError, ValueError, IndexError) as e:
        ob('char.def', 'cannot be read: %s' % e, 'char.def')
        rs = None
    if rs is not None:
        for lo, hi, cs, i in rs:
            bad = ''
            if lo > hi:
                bad = 'empty range'
            elif set(cs) - cats and cats:
                bad = 'unknown category %s' % sorted(set(cs) - cats)
            if bad:
                ob('char.def 0x%04X..0x%04X' % (lo, hi), bad, 'char.def', i)
        # the categories every code point gets
        a, b = category_map(rs), category_map(srs)
        ob('char.def ranges', '' if a == b else 'code points change category: ' + first_diff(a, b), 'char.def')
        ob('char.def properties', '' if {k: v[0] for k, v in defs.items()} == {k: v[0] for k, v in sdefs.items()} else
           'the category properties differ from the reviewed ones', 'char.def')
        for k, (v, i) in defs.items():
            ob('char.def ' + k, 'unknown category' if cats and k not in cats else
               'malformed' if len(v) < 3 or v[0] not in '01' or v[1] not in '01' or not v[2].isdigit() else '', 'char.def', i)
    try:
        ign, rep = parse('rewrite.def', root)
        sign, srep = parse('rewrite.def', spec)
    except (OSError, ValueError) as e:
        ob('rewrite.def', 'cannot be read: %s' % e, 'rewrite.def')
        ign = None
    if ign is not None:
        for k, v in rep.items():
            if len(v) > 1 or len(v[0][0]) != 1:
                ob('rewrite.def ' + k, 'defined twice or malformed', 'rewrite.def', v[-1][1])
        for k, v in ign.items():
            if len(k) != 1:
                ob('rewrite.def ' + k, 'the ignored text is not one character', 'rewrite.def', v[0])
        ob('rewrite.def ignored characters', '' if set(ign) == set(sign) else 'differ from the reviewed ones', 'rewrite.def')
        d = {k: v[0][0] for k, v in rep.items()}
        sd = {k: v[0][0] for k, v in srep.items()}
        ob('rewrite.def replacements', '' if d == sd else 'differ from the reviewed ones: ' +
           ' '.join(sorted(k for k in set(d) | set(sd) if d.get(k) != sd.get(k)))[:80], 'rewrite.def')
    try:
        unk = parse('unk.def', root)
        sunk = parse('unk.def', spec)
    except OSError as e:
        ob('unk.def', 'cannot be read: %s' % e, 'unk.def')
        unk = None
    if unk is not None:
        for cols, i in unk:
            bad = ''
            if len(cols) < 10:
                bad = 'too few columns'
            elif cats and cols[0] not in cats:
                bad = 'unknown category'
            elif rs is not None and cols[0] not in defs:
                bad = 'category without properties in char.def'
            else:
                try:
                    [int(x) for x in cols[1:4]]
                except ValueError:
                    bad = 'ids and cost are not numbers'
            if bad:
                ob('unk.def line %d' % i, bad, 'unk.def', i)
        ob('unk.def entries', '' if sorted(c for c, i in unk) == sorted(c for c, i in sunk) else 'differ from the reviewed ones', 'unk.def')
    try:
        js = parse('sudachi.json', root)
        sjs = parse('sudachi.json', spec)
    except (OSError, ValueError) as e:
        ob('sudachi.json', 'cannot be read: %s' % e, 'sudachi.json')
        return out
    names = set()
    for f in functions(ck.tp):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                names.add(x.value)
    for m in ck.tp.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                names.add(x.value)
    for k, v in js.items():
        ob('sudachi.json ' + k, '' if k in names else 'no code reads this setting', 'sudachi.json')
        if isinstance(v, list):
            for e in v:
                if isinstance(e, dict):
                    cl = e.get('class')
                    tail = str(cl).rsplit('.', 1)[-1]
                    ob('sudachi.json class %s' % cl, '' if any(n == tail or n.endswith('.' + tail) for n in names) else 'no plugin of this name', 'sudachi.json')
                    for kk in e:
                        ob('sudachi.json %s.%s' % (cl, kk), '' if kk in names else 'no code reads this setting', 'sudachi.json')
    ob('sudachi.json values', '' if js == sjs else 'differ from the reviewed ones', 'sudachi.json')
    return out


def category_map(rs):
    """Maximal intervals with their categories."""
    cuts = sorted({x for lo, hi, cs, i in rs for x in (lo, hi + 1)})
    out = []
    for a, b in zip(cuts, cuts[1:]):
        cs = frozenset(c for lo, hi, k, i in rs if lo <= a and b - 1 <= hi for c in k)
        if out and out[-1][1] == a and out[-1][2] == cs:
            out[-1] = (out[-1][0], b, cs)
        elif cs:
            out.append((a, b, cs))
    return out


def first_diff(a, b):
    for x in a:
        if x not in b:
            return '0x%04X..0x%04X %s' % (x[0], x[1] - 1, sorted(x[2]))
    for x in b:
        if x not in a:
            return '0x%04X..0x%04X %s' % (x[0], x[1] - 1, sorted(x[2]))
    return ''


# ---------------------------------------------------------------------------------------------- C39
FRESH_CALLS = {'list', 'dict', 'set', 'tuple', 'sorted', 'str', 'repr', 'int', 'float', 'bool', 'len', 'range', 'sum', 'min',
               'max', 'abs', 'format', 'bytearray', 'bytes', 'frozenset', 'Counter', 'defaultdict', 'OrderedDict', 'deque',
               'StringIO', 'BytesIO', 'copy', 'deepcopy', 'hex', 'chr', 'ord'}
SHUFFLERS = {'random.shuffle', 'heapq.heapify', 'heapq.heappush', 'heapq.heappop', 'heapq.heapreplace', 'bisect.insort',
             'bisect.insort_left', 'bisect.insort_right', 'setattr', 'delattr', 'object.__setattr__', 'next', 'exec', 'eval',
             'list.sort', 'list.reverse', 'list.append', 'list.clear', 'list.pop', 'list.remove', 'list.extend', 'list.insert'}
ENDERS = {'exit', 'quit', 'sys.exit', 'os._exit', 'os.abort', 'os.kill'}


class Owner:
    """Which expressions of a function denote objects made in it: everything else may be shared with the analysis."""

    def __init__(self, f):
        self.f = f
        self.bound = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for tg in x.targets:
                    self.bind(tg, x.value)
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None:
                self.bind(x.target, x.value)
            elif isinstance(x, ast.For):
                self.bind(x.target, None)
            elif isinstance(x, ast.comprehension):
                self.bind(x.target, None)
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                self.bind(x.optional_vars, x.context_expr)
        for p in f.params_all():
            self.bound.setdefault(p, []).append(None)

    def bind(self, tg, v):
        if isinstance(tg, ast.Name):
            self.bound.setdefault(tg.id, []).append(v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(tg.elts) else [None] * len(tg.elts)
            for a, b in zip(tg.elts, vs):
                self.bind(a, b)
        elif isinstance(tg, ast.Starred):
            self.bind(tg.value, ast.List(elts=[], ctx=ast.Load()))

    def fresh(self, e, seen=()):
        if e is None:
            return False
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Lambda)):
            return True
        if isinstance(e, ast.Name):
            if e.id in seen:
                return True
            b = self.bound.get(e.id)
            return bool(b) and all(self.fresh(v, seen + (e.id,)) for v in b)
        if isinstance(e, ast.IfExp):
            return self.fresh(e.body, seen) and self.fresh(e.orelse, seen)
        if isinstance(e, ast.BoolOp):
            return all(self.fresh(v, seen) for v in e.values)
        if isinstance(e, ast.Subscript):
            return isinstance(e.slice, ast.Slice)
        if isinstance(e, ast.Call):
            name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            return name in FRESH_CALLS or name.lstrip('_')[:1].isupper() or name in (
                'join', 'split', 'strip', 'lower', 'upper', 'encode', 'decode', 'replace', 'rjust', 'ljust', 'zfill')
        return False


def diagnostics(ck):
    """Functions that only describe the state must not change it, nor end the analysis."""
    from .effects import Effects, MUTATORS
    prog = ck.tp
    eff = Effects(prog)
    diag = [q for q in prog.funcs if props.match(props.DIAGNOSTIC, props.short(q)) and not q.endswith('.__del__')
            and not q.endswith('.print_version')]
    known = set()
    for q, f in ck.sp.funcs.items():
        if props.match(props.DIAGNOSTIC, props.short(q)):
            known |= {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
    known -= MUTATORS
    used = {}
    for q, f in prog.funcs.items():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                used.setdefault(x.attr, set()).add(q)
            elif isinstance(x, ast.Name):
                used.setdefault(x.id, set()).add(q)
    out, seen, todo = [], set(), [(q, ()) for q in diag]
    inner = set(diag)
    nst = ncall = 0
    while todo:
        q, owned = todo.pop(0)
        if (q, owned) in seen:
            continue
        seen.add((q, owned))
        f = prog.funcs[q]
        key = props.short(q)
        ow = Owner(f)
        for p in owned:
            if p in ow.bound:
                ow.bound[p] = [v for v in ow.bound[p] if v is not None] + [ast.List(elts=[], ctx=ast.Load())]
        bad = []

        def elsewhere(name):
            return used.get(name, set()) - inner - {q}

        def isloger(e):
            return re.search(r'logg|handler|formatter', text(e), re.I) is not None

        glob = {n for x in ast.walk(f.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        caught = {id(y) for x in ast.walk(f.node) if isinstance(x, ast.Try) and x.handlers for s in x.body for y in ast.walk(s)}
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                nst += 1
                if ow.fresh(x.value) or isloger(x.value):
                    continue
                if isinstance(x, ast.Attribute) and not elsewhere(x.attr):
                    continue
                bad.append((x, 'stores into %s' % text(x)))
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and not ow.fresh(
                    ast.Name(id=x.target.id, ctx=ast.Load())) and isinstance(x.value, (ast.List, ast.ListComp, ast.Set, ast.Dict)):
                bad.append((x, 'extends %s in place' % x.target.id))
            elif isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and x.id in glob and elsewhere(x.id):
                bad.append((x, 'assigns the global %s' % x.id))
            elif isinstance(x, ast.Raise) and id(x) not in caught:
                bad.append((x, 'raises: with debug output on, the analysis ends here'))
            elif isinstance(x, ast.Call):
                ncall += 1
                d = dotted(x.func, f)
                if d in ENDERS:
                    bad.append((x, 'ends the process'))
                elif d in SHUFFLERS and x.args and not ow.fresh(x.args[0]) and not isloger(x.args[0]) and \
                        not (d == 'next' and isinstance(x.args[0], ast.Call)):
                    bad.append((x, 'changes %s' % text(x.args[0])))
                elif isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    if not ow.fresh(x.func.value) and not isloger(x.func.value):
                        bad.append((x, 'changes %s by %s()' % (text(x.func.value), x.func.attr)))
                else:
                    ts = eff.targets(f, x)
                    name = x.func.attr if isinstance(x.func, ast.Attribute) else ''
                    if name in known or isloger(x.func) and not ts:
                        continue
                    own = [g for g in ts if g.name not in {h.name for h in ck.sp.funcs.values()}]
                    for g in own:
                        inner.add(g.qual)
                        ps = g.params()
                        off = 1 if g.kind in ('method', 'classmethod') else 0
                        got = tuple(sorted([ps[i + off] for i, a in enumerate(x.args) if i + off < len(ps) and ow.fresh(a)] +
                                           [k.arg for k in x.keywords if k.arg and ow.fresh(k.value)]))
                        todo.append((g.qual, got))
                    rest = [g for g in ts if g not in own]
                    w = [g for g in rest if any(
                        (i == 0 and g.kind in ('method', 'property', 'setter') and not (isinstance(x.func, ast.Attribute) and ow.fresh(x.func.value)))
                        or i - (1 if g.kind in ('method', 'classmethod') else 0) in
                        [k for k, a in enumerate(x.args) if not ow.fresh(a)]
                        for (i, fl) in eff.eff[g.qual].writes)]
                    if w and len(w) == len(rest):
                        bad.append((x, '%s() changes what it is given' % text(x.func)))
                    elif w:
                        out.append(_ob('pure-diagnostics', key, 'undecided', 'one of several functions named %s changes its object'
                                       % text(x.func), **at(f, x)))
        for x, why in bad:
            out.append(_ob('pure-diagnostics', key, 'bad', '%s, which debug output must not do' % why, **at(f, x)))
        if not bad:
            out.append(_ob('pure-diagnostics', key, 'ok', 'changes only objects it made itself', **at(f)))
    out.append(_ob('pure-diagnostics', 'package', 'ok' if len(diag) >= 4 else 'undecided',
                   '%d diagnostic functions and helpers, %d stores, %d calls examined' % (len(seen), nst, ncall)))
    return out


# ---------------------------------------------------------------------------------------------- implicit operations
#: where the reviewed program tests or compares objects without naming a method (class -> site)
TRUTHS = {'sudachipy.dictionarylib.grammar.Grammar': 'Dictionary._read_user_dictionary: if dict_.grammar',
          'sudachipy.dictionarylib.wordinfo.WordInfo': 'LatticeNode.get_word_info, Morpheme.get_word_info: if the word info is there',
          'sudachipy.dictionarylib.charactercategory.CharacterCategory.Range': 'CharacterCategory._compile: if right',
          'sudachipy.tokenizer.Tokenizer.SplitMode': 'Tokenizer.tokenize: mode or self._mode'}
EQUALS = {'sudachipy.dictionarylib.lexicon.Lexicon': 'LexiconSet.add: lexicon not in self.lexicons',
          'sudachipy.dictionarylib.doublearraylexicon.DoubleArrayLexicon': 'LexiconSet.add: lexicon not in self.lexicons',
          'sudachipy.latticenode.LatticeNode': 'Lattice.remove: the node is looked for in the list',
          'sudachipy.dictionarylib.categorytype.CategoryType': 'category sets and dictionaries'}


def constant_method(m, values):
    """The method does nothing but return one of the given values or decide identity."""
    body = [s for s in m.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
        return False
    v = body[0].value
    if isinstance(v, ast.Constant):
        return v.value in values
    ps = m.params()
    s = text(v)
    if len(ps) == 1:
        return s == 'id(%s)' % ps[0] or s == 'object.__hash__(%s)' % ps[0] or s == 'super().__hash__()'
    return len(ps) == 2 and s in ('%s is %s' % tuple(ps), '%s is %s' % tuple(reversed(ps)))


def protocols(ck):
    """Objects that are tested for truth or compared without a method being named keep doing so by existence and identity."""
    out = []
    n = 0
    for table, names, kind, what in ((TRUTHS, ('__bool__', '__len__'), (True,), 'tested for truth'),
                                     (EQUALS, ('__eq__', '__ne__', '__hash__'), (), 'compared')):
        for q, site in table.items():
            sc, tc = ck.sp.classes.get(q), ck.tp.classes.get(q)
            if tc is None:
                continue
            n += 1
            key = props.short(q)
            where = dict(path=tc.module.path if hasattr(tc.module, 'path') else '', line=tc.node.lineno,
                         where='%s %s' % (getattr(tc.module, 'path', ''), q))
            bad = []
            found = {}
            for name in names:
                m = ck.tp.lookup(tc, name)
                old = ck.sp.lookup(sc, name) if sc is not None else None
                if isinstance(m, Func) and not isinstance(old, Func):
                    found[name] = m
            if '__bool__' in found:
                found.pop('__len__', None)
            elif isinstance(ck.tp.lookup(tc, '__bool__'), Func):
                found.pop('__len__', None)
            if '__hash__' in found and '__eq__' not in found:
                found.pop('__hash__')
            for name, m in found.items():
                if not constant_method(m, kind):
                    bad.append((m, '%s objects are %s (%s), which %s now decides' % (tc.name, what, site, name)))
            for b in tc.bases:
                last = b.split('[')[0].split('.')[-1]
                oldb = {x.split('[')[0].split('.')[-1] for x in sc.bases} if sc is not None else set()
                if last not in oldb and (last in ('list', 'dict', 'set', 'UserList', 'UserDict', 'deque') or
                                         table is EQUALS and last in ('tuple', 'NamedTuple', 'str', 'int')):
                    bad.append((None, '%s objects are %s (%s), and now behave as %s' % (tc.name, what, site, b)))
            for d in tc.node.decorator_list:
                s = text(d)
                if table is EQUALS and re.search(r'(^|\.)(dataclass|define|attrs|s)\b', s) and 'eq=False' not in s.replace(' ', '') \
                        and not (sc is not None and any(text(x) == s for x in sc.node.decorator_list)):
                    bad.append((None, '%s objects are %s (%s), and %s makes that a comparison of fields' % (tc.name, what, site, s)))
            for m, why in bad:
                out.append(_ob('implicit-operations', key, 'bad', why, **(at(m) if m is not None else where)))
            if not bad:
                out.append(_ob('implicit-operations', key, 'ok', '%s by %s as reviewed' % (
                    what, 'existence' if table is TRUTHS else 'identity'), **where))
    out.append(_ob('implicit-operations', 'package', 'ok' if n >= 6 else 'undecided', '%d classes with implicit uses examined' % n))
    return out
