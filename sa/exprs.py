"""Expressions of the summariser."""
import ast
import re
from . import terms as t
from .terms import T, const, sym, glob, raw, mk, ITE, AND, OR, NOT, EQ, LT, add, sub, mul, ge0, truth, idx, length
from .eval import Undecided, newptr, is_alloc, Exit
from .stmts import Stmts, as_load
from .frontend import Func, Class, Module

CMPS = {ast.Lt: lambda a, b: LT(a, b), ast.Gt: lambda a, b: LT(b, a),
        ast.LtE: lambda a, b: NOT(LT(b, a)), ast.GtE: lambda a, b: NOT(LT(a, b))}


class Exprs(Stmts):

    # ------------------------------------------------------------------ conditions
    def cond(self, e):
        if isinstance(e, ast.BoolOp):
            c = self.cond(e.values[0])
            for v in e.values[1:]:
                if self.g is t.FALSE:
                    return c
                if isinstance(e.op, ast.And):
                    c = self.branch(c, lambda: self.cond(v), lambda: t.FALSE)
                else:
                    c = self.branch(c, lambda: t.TRUE, lambda: self.cond(v))
            return c
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand))
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test)
            return self.branch(c, lambda: self.cond(e.body), lambda: self.cond(e.orelse))
        if isinstance(e, ast.Compare):
            return self.compare(e)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
            return self.cond(e.args[0])
        v = self.expr(e)
        return self.truth(v)

    def truth(self, v):
        d = self.deref(v)

        def f(x):
            if x.op in ('newobj', 'obj', 'new'):
                return t.TRUE
            cn = self.w.cls_of(x)
            if cn is not None and x.ty is None:
                c = self.w.cls(cn)
                if c is not None:
                    if self.w.prog.lookup(c, '__len__') is None and self.w.prog.lookup(c, '__bool__') is None:
                        if x.op == 'idx' and self.w.ecls.get(x.a[0]):
                            return t.TRUE          # (the lists of objects have no None in them)
                        return NOT(EQ(x, t.NONE))
            return t.truth(x)
        return t.lift(f, d)

    def compare(self, e):
        left = self.expr(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            if res is not None:
                if self.g is t.FALSE or res is t.FALSE:
                    break
                state = {}

                def go():
                    rv = self.expr(r)
                    state['r'] = rv
                    return self.compare1(op, left, rv, e)
                res = self.branch(res, go, lambda: t.FALSE)
                left = state.get('r', left)
            else:
                rv = self.expr(r)
                res = self.compare1(op, left, rv, e)
                left = rv
        return res

    def compare1(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is t.NONE or a is t.NONE:
                r = t.lift(self.same_none, a, b)
            else:
                r = EQ(a, b)
            return r if isinstance(op, ast.Is) else NOT(r)
        a2, b2 = self.value(a), self.value(b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a2, b2)
            return r if isinstance(op, ast.Eq) else NOT(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a2, b, b2)
            return r if isinstance(op, ast.In) else NOT(r)
        return CMPS[type(op)](a2, b2)

    def equal(self, a, b):
        def f(x, y):
            for p, q in ((x, y), (y, x)):
                # s[:n] == 'abc'
                if p.op == 'slice' and q.op == 'const' and isinstance(t.cval(q), str) and p.a[1] is t.ZERO and \
                        t.is_const(p.a[2], 'int') and t.cval(p.a[2]) == len(t.cval(q)):
                    return t.atom(raw('truthy', (raw('m', ('startswith', p.a[0], q), 'bool'),)))
            return EQ(x, y)
        return t.lift(f, a, b)

    def same_none(self, a, b):
        for x in (a, b):
            if x.op == 'idx' and x.a[0].op == 'field' and self.w.elements_made(x.a[0]):
                return t.FALSE
        return EQ(a, b)

    def value(self, v):
        """Contents for comparing / passing by value."""
        return self.reify(v)

    def contains(self, x, cp, c):
        def f(c):
            if c.op == 'm' and c.a[0] == 'keys':
                c = c.a[1]
            cn = self.w.cls_of(c)
            if cn is not None:
                k = self.w.cls(cn)
                m = k and self.w.prog.lookup(k, '__contains__')
                if m is not None and isinstance(m, Func):
                    v = self.invoke(m, [c, x], {}, None, recv=c)
                    return self.truth(v)
            if c.op == 'setof' and c.a[0].op == 'bigcat':
                # membership in a mapped collection is a search
                return t.atom(raw('in', (x, c)))
            return t.IN(x, c)
        return t.lift(f, c)

    # ------------------------------------------------------------------ values
    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression ' + type(e).__name__, e)
        return t.boolval(m(e))

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return t.NONE
        return const(e.value)

    def e_Name(self, e):
        env = self.st.env
        if e.id in env:
            return env[e.id]
        return self.w.name(self, e.id, self.frames[-1], e)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.st.env[e.target.id] = v
        return v

    def e_BoolOp(self, e):
        v = self.expr(e.values[0])
        for x in e.values[1:]:
            if self.g is t.FALSE:
                return v
            c = self.truth(v)
            cur = v
            if isinstance(e.op, ast.And):
                v = self.branch(c, lambda: self.expr(x), lambda: cur)
            else:
                v = self.branch(c, lambda: cur, lambda: self.expr(x))
        return v

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand))
        v = self.value(self.expr(e.operand))
        if isinstance(e.op, ast.USub):
            return t.scale(v, -1)
        if isinstance(e.op, ast.UAdd):
            return v
        return sub(const(-1), v)

    def e_Compare(self, e):
        return self.compare(e)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        return self.branch(c, lambda: self.expr(e.body), lambda: self.expr(e.orelse))

    def e_BinOp(self, e):
        a = self.expr(e.left)
        if isinstance(e.op, ast.Mod) and self.value(a).ty == 'str':
            b = self.expr(e.right)
            return self.percent(self.value(a), self.value(b))
        b = self.expr(e.right)
        r = self.binop(e.op, a, b, e)
        if isinstance(e.op, (ast.Add, ast.Mult)) and all(x.ty == 'list' for x in t.leaves(r)):
            q = self.fresh_list(r)
            for x in (a, b):
                if self.w.ecls.get(x):
                    self.w.ecls.setdefault(q, self.w.ecls[x])
            return q
        return r

    def percent(self, a, b):
        """`format % arguments`: the pieces, when the format is a constant of plain %s and %d."""
        if a.op == 'const' and b.op != 'ite':
            args = list(b.a) if b.op == 'seq' and b.ty == 'tuple' else \
                [b] if t.isint(b) or (b.ty is None and '%s' not in t.cval(a)) or b.ty in ('str', 'bytes', 'list', 'path', 'float') or b.op in ('obj', 'newobj', 'const') else None
            pieces = re.split(r'(%.)', t.cval(a), flags=re.S)
            specs = pieces[1::2]
            if args is not None and set(specs) <= {'%s', '%d', '%%'} and \
                    sum(1 for s in specs if s != '%%') == len(args) and \
                    all(s != '%d' or t.isint(x) or x.ty is None for s, x in zip([s for s in specs if s != '%%'], args)) and \
                    not any('%' in p for p in pieces[::2]):
                out, args = [const('')], iter(args)
                for i, p in enumerate(pieces):
                    out.append(const(p) if i % 2 == 0 else const('%') if p == '%%' else self.tostr(next(args)))
                return t.concat(out, 'str')
        return mk('fmt%', a, b, ty='str')

    def binop(self, op, a, b, node):
        a, b = self.value(a), self.value(b)
        return t.lift(lambda x, y: self.binop1(op, x, y, node), a, b)

    def binop1(self, op, a, b, node):
        if isinstance(op, ast.Add):
            for x in (a, b):
                if x.ty in ('str', 'bytes', 'list', 'tuple') and not t.isint(a) and not t.isint(b):
                    return t.concat([a, b], x.ty)
            return add(a, b)
        if isinstance(op, ast.Sub):
            if a.ty in ('set',) or b.ty in ('set',):
                return mk('setminus', a, b, ty='set')
            return sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x.ty in ('str', 'bytes', 'list', 'tuple'):
                    if y.op == 'const' and x.op == 'const':
                        return const(t.cval(x) * t.cval(y))
                    if x.op == 'seq' and len(x.a) == 1 and x.ty == 'list':
                        return t.mk_bigcat(t.fresh('nat'), t.max0(y), x, 'list')
                    return t.lift(lambda n: raw('repeat', (x, n), x.ty), y)
            return mul(a, b)
        if isinstance(op, ast.FloorDiv):
            return t.fdiv(a, b)
        if isinstance(op, ast.Div):
            if a.ty == 'str' or b.ty == 'str' or a.ty == 'path':
                return raw('pathjoin', (a, b), 'path')
            if a.ty in ('path', None) and b.ty == 'str':
                return raw('pathjoin', (a, b), 'path')
            return raw('div', (a, b), 'float')
        if isinstance(op, ast.Mod):
            return t.mod_(a, b)
        if isinstance(op, ast.Pow):
            if a.op == 'const' and b.op == 'const':
                return const(t.cval(a) ** t.cval(b))
            return raw('pow', (a, b), 'int')
        if isinstance(op, ast.LShift):
            if b.op == 'const':
                return mul(a, const(1 << t.cval(b)))
            return raw('shl', (a, b), 'int')
        if isinstance(op, ast.RShift):
            if b.op == 'const':
                return t.fdiv(a, const(1 << t.cval(b)))
            return raw('shr', (a, b), 'int')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self.bitop(op, a, b)
        raise Undecided('operator ' + type(op).__name__, node)

    def bitop(self, op, a, b):
        if a.op == 'const' and b.op == 'const':
            x, y = t.cval(a), t.cval(b)
            return const(x & y if isinstance(op, ast.BitAnd) else x | y if isinstance(op, ast.BitOr) else x ^ y)
        isset = a.ty == 'set' or b.ty == 'set' or a.op == 'setof' or b.op == 'setof'
        isbool = a.ty == 'bool' and b.ty == 'bool'
        if isbool:
            x, y = truth(a), truth(b)
            return AND(x, y) if isinstance(op, ast.BitAnd) else OR(x, y) if isinstance(op, ast.BitOr) else \
                ITE(x, NOT(y), y)
        if b.op == 'const':
            a, b = b, a
        if isinstance(op, ast.BitAnd):
            if t.is_const(a, 'int') and not isset:
                n = t.cval(a)
                if n > 0 and (n & (n + 1)) == 0:
                    return t.mod_(b, const(n + 1))
                u = t.upper(b)
                if n > 0 and n & (n - 1) == 0 and u is not None:
                    return t.scale(t.mod_(t.fdiv(b, a), const(2)), n)
            name = 'band'
        else:
            name = 'bor' if isinstance(op, ast.BitOr) else 'bxor'
        if name != 'band' and not isset:
            for x, y in ((a, b), (b, a)):       # no bit in common: a sum
                u, v = t.upper(x), t.lowbits(y)
                if v is not None and (u is not None and u < v or u is None and t.nonneg(x) and
                                      t.constrain(ge0(sub(const(v - 1), x)), AND(self.ctx, self.g)) is t.TRUE):
                    return add(x, y)
        # commutative, associative, idempotent
        parts = []
        for x in (a, b):
            parts += list(x.a) if x.op == name else [x]
        if name != 'bxor':
            parts = list(dict.fromkeys(parts))
        parts.sort(key=lambda x: (x.op != 'const', x.id))
        cs = [x for x in parts if t.is_const(x, 'int')]
        if len(cs) > 1:
            v = t.cval(cs[0])
            for c in cs[1:]:
                v = v & t.cval(c) if name == 'band' else v | t.cval(c) if name == 'bor' else v ^ t.cval(c)
            parts = [const(v)] + [x for x in parts if x not in cs]
        if len(parts) == 1:
            return parts[0]
        return raw(name, tuple(parts), 'set' if isset else None if a.ty is None and b.ty is None else 'int')

    def e_Tuple(self, e):
        return self.literal(e, 'tuple')

    def literal(self, e, ty):
        parts = []
        cur = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                if cur:
                    parts.append(t.seq(cur, ty))
                    cur = []
                parts.append(self.seqval(self.expr(x.value)))
            else:
                cur.append(self.expr(x))
        if cur or not parts:
            parts.append(t.seq(cur, ty))
        return parts[0] if len(parts) == 1 else t.concat(parts, ty)

    def e_List(self, e):
        return self.fresh_list(self.literal(e, 'list'))

    def e_Set(self, e):
        l = self.literal(e, 'list')
        return self.fresh_list(self.mkset(l))

    def mkset(self, l):
        def f(l):
            if l.ty == 'set':
                return l
            if l.op == 'seq' and all(x.op in ('const', 'glob') for x in l.a):
                return raw('seq', tuple(sorted(set(l.a), key=lambda x: x.id)), 'set')
            if l.op == 'seq':
                l = t.seq(sorted(set(l.a), key=lambda x: x.id))
            return raw('setof', (l,), 'set')
        return t.lift(f, self.snapshot(l))

    def e_Dict(self, e):
        if not e.keys:
            return self.fresh_list(t.empty('dict'))
        p = self.fresh_list(t.empty('dict'))
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.value(self.expr(v))
                self.mutate(p, lambda c: t.lift(lambda y, z: self.dict_update(y, z), c, d))
                continue
            kv, vv = self.value(self.expr(k)), self.expr(v)
            self.mutate(p, lambda c: t.upd(c, kv, vv))
        return p

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.value(self.expr(v.value))
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    spec = self.expr(v.format_spec) if v.format_spec is not None else t.NONE
                    parts.append(mk('fmtspec', x, spec, ty='str'))
                else:
                    parts.append(self.tostr(x))
        return t.concat([const('')] + parts, 'str')

    def e_FormattedValue(self, e):
        return self.tostr(self.value(self.expr(e.value)))

    def tostr(self, x):
        def f(x):
            if x.ty == 'str':
                return x
            if x.op == 'const':
                return const(str(t.cval(x)))
            if t.isint(x) or x.op == 'poly':
                return raw('str', (x,), 'str')
            return raw('str', (x,), 'str')
        return t.lift(f, x)

    def e_Lambda(self, e):
        return self.closure(e)

    def closure(self, node):
        return newptr('closure', ClosureBox(node, self.st, self.frames[-1]))

    def e_Starred(self, e):
        raise Undecided('starred expression', e)

    # ------------------------------------------------------------------ comprehensions
    def e_ListComp(self, e):
        return self.comp(e, [e.elt], 'list')

    def e_GeneratorExp(self, e):
        return self.comp(e, [e.elt], 'list')

    def e_SetComp(self, e):
        p = self.comp(e, [e.elt], 'list')
        return self.fresh_list(self.mkset(self.deref(p)))

    def e_DictComp(self, e):
        acc = self.fresh_list(t.empty('dict'))
        self.run_comp(e, lambda: self.assign_item(acc, e))
        return acc

    def assign_item(self, acc, e):
        k = self.value(self.expr(e.key))
        v = self.expr(e.value)
        self.mutate(acc, lambda c: t.lift(lambda y: t.upd(y, k, v), c))

    def comp(self, e, elts, ty):
        acc = self.fresh_list(t.empty(ty))

        def emit():
            x = self.expr(elts[0])
            self.mutate(acc, lambda c: t.concat([c, t.seq([x])], ty))
        self.run_comp(e, emit)
        return acc

    def run_comp(self, e, emit):
        """The generators of a comprehension as nested loops around emit()."""
        saved = {}
        names = set()
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        for n in names:
            if n in self.st.env:
                saved[n] = self.st.env[n]

        body = [Emit(emit)]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                i = ast.If(c, body, [])
                ast.copy_location(i, e)
                body = [i]
            f = ast.For(g.target, g.iter, body, [])
            ast.copy_location(f, e)
            body = [f]
        self.block(body)
        for n in names:
            self.st.env.pop(n, None)
        self.st.env.update(saved)

    def s_Emit(self, s):
        s.fn()

    # ------------------------------------------------------------------ iteration
    def iteration(self, e, node):
        """(count, element of k) or a list of elements for a literal."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in self.st.env and not e.keywords:
            fn = e.func.id
            if fn == 'range' and 1 <= len(e.args) <= 3:
                a = [self.value(self.expr(x)) for x in e.args]
                lo, hi, st = (t.ZERO, a[0], t.ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else t.ONE)
                if not t.is_const(st, 'int') or t.cval(st) == 0:
                    raise Undecided('range step', node)
                s = t.cval(st)
                d = sub(hi, lo) if s > 0 else sub(lo, hi)
                n = d if abs(s) == 1 else t.fdiv(add(d, const(abs(s) - 1)), const(abs(s)))
                if t.is_const(n, 'int') and t.cval(n) <= 16:
                    return [add(lo, const(i * s)) for i in range(max(0, t.cval(n)))]
                return n, (lambda k: add(lo, t.scale(k, s)))
            if fn == 'enumerate' and 1 <= len(e.args) <= 2:
                it = self.iteration(e.args[0], node)
                s = self.value(self.expr(e.args[1])) if len(e.args) == 2 else t.ZERO
                return self.enumerated(it, s)
            if fn == 'zip':
                its = [self.iteration(x, node) for x in e.args]
                if all(isinstance(i, list) for i in its):
                    return [t.seq(x, 'tuple') for x in zip(*its)]
                its = [self.nolist(i) for i in its]
                n = its[0][0]
                for m, _ in its[1:]:
                    n = ITE(ge0(sub(m, n)), n, m)
                return n, (lambda k: t.seq([f(k) for _, f in its], 'tuple'))
            if fn == 'reversed' and len(e.args) == 1:
                it = self.iteration(e.args[0], node)
                if isinstance(it, list):
                    return it[::-1]
                n, f = it
                return n, (lambda k: f(sub(sub(n, t.ONE), k)))
            if fn in ('iter', 'list', 'tuple') and len(e.args) == 1:
                return self.iteration(e.args[0], node)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'enumerate' and e.keywords and \
                len(e.args) == 1:
            it = self.iteration(e.args[0], node)
            return self.enumerated(it, self.value(self.expr(e.keywords[0].value)))
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.step is None:
            o = self.expr(e.value)
            a = self.value(self.expr(e.slice.lower)) if e.slice.lower is not None else t.ZERO
            b = self.value(self.expr(e.slice.upper)) if e.slice.upper is not None else t.NONE
            c = self.deref(o)
            if c.op not in ('ite', 'const', 'seq') and c.ty in ('list', 'tuple', None) and a.op != 'ite' and b.op != 'ite':
                if b is not t.NONE:
                    self.w.sliced = True
                if (b is t.NONE and t.nonneg(a)) or (b is not t.NONE and self.w.trust):
                    # the elements of the sequence itself, the bounds taken to be within it
                    if b is t.NONE:
                        b = t.lift(t.count_of, c)
                    return sub(b, a), (lambda k: self.elem(o, c, add(a, k)))
        v = self.expr(e)
        return self.iter_value(v, node)

    def enumerated(self, it, s):
        if isinstance(it, list):
            return [t.seq([add(s, const(i)), x], 'tuple') for i, x in enumerate(it)]
        n, f = it
        return n, (lambda k: t.seq([add(s, k), f(k)], 'tuple'))

    def nolist(self, it):
        if isinstance(it, list):
            l = t.seq(it)
            return const(len(it)), (lambda k: idx(l, k))
        return it

    def iter_value(self, v, node):
        c = self.seqval(v)
        if c.op == 'seq' and c.ty in ('list', 'tuple') and len(c.a) <= 24:
            return list(c.a)
        if c.op == 'const' and isinstance(t.cval(c), str) and len(t.cval(c)) <= 24:
            return [const(x) for x in t.cval(c)]
        if any(x.op == 'slice' and x.a[2] is not t.NONE for x in t.leaves(c)):
            self.w.sliced = True
            if self.w.trust and c.op == 'slice':
                # the bounds taken to be within the sequence
                x, a, b = c.a
                return sub(b, a), (lambda k: self.elem(v, x, add(a, k)))
        n = t.lift(t.count_of, c)
        return n, (lambda k: self.elem(v, c, k))

    def seqval(self, v):
        """The sequence of elements iterating over v yields."""
        c = self.deref(v)

        def f(x):
            if x.op == 'newlist':
                return self.seqval(x)
            if x.op == 'm' and x.a[0] == 'items':
                return self.items_of(x.a[1])
            if x.ty == 'dict' or (x.op == 'm' and x.a[0] == 'keys'):
                d = x.a[1] if x.op == 'm' else x
                return raw('keys', (d,), 'list')
            if x.op == 'm' and x.a[0] in ('readlines',):
                return raw('lines', (x.a[1],), 'list')
            if x.op == 'ext' and x.a[0] in ('open', 'fileinput.input', 'csv.reader'):
                return raw('lines', (x,), 'list') if x.a[0] == 'open' else x
            if x.op == 'setof' or x.ty == 'set':
                return raw('setlist', (x,), 'list')
            cn = self.w.cls_of(x)
            if cn is not None:
                k = self.w.cls(cn)
                m = k and self.w.prog.lookup(k, '__iter__')
                if isinstance(m, Func):
                    if c.op != 'ite' and self.g is not t.FALSE and len(self.frames) < 12:
                        names, vals = self.bind_args(m, [v], {}, m.node, 0)
                        r = self.run_body(m.node, vals, m, m.module, m.cls, names[0], m.node)
                        if self.w.cls_of(r) is None:
                            return self.seqval(r)
                    return raw('iter', (x,), 'list')
            return self.whole_slice(x)
        return t.lift(f, c)

    def whole_slice(self, x):
        """The elements of a short slice of something known to be long enough."""
        if x.op != 'slice' or not t.is_const(x.a[1], 'int') or not t.is_const(x.a[2], 'int') or \
                x.ty in ('str', 'bytes', 'tuple'):
            return x
        a, b = t.cval(x.a[1]), t.cval(x.a[2])
        if not 0 <= a < b <= a + 24:
            return x
        enough = t.lift(lambda n: ge0(sub(n, const(b))), t.length(x.a[0]))
        if t.constrain(enough, AND(self.ctx, self.g)) is not t.TRUE:
            return x
        return t.seq([self.elem(x.a[0], x.a[0], const(j)) for j in range(a, b)])

    def items_of(self, d):
        k = t.fresh('nat')
        ks = raw('keys', (d,), 'list')
        return t.mk_bigcat(k, length(ks), t.seq([t.seq([idx(ks, k), idx(d, idx(ks, k))], 'tuple')]), 'list')

    def elem(self, p, content, i):
        """Element i of the container p refers to."""
        def f(c):
            r = t.idx(c, i)
            return r
        r = t.lift(f, content)
        self.note_elem(p, content, i, r)
        return r

    def note_elem(self, p, content, i, r):
        ec = self.w.ecls.get(p) or (self.w.ecls.get(content) if content.op != 'ite' else None)
        for x in t.leaves(r):
            if x.op in ('idx',) and ec:
                self.w.tcls.setdefault(x, ec)
            if x.op in ('idx', 'newlist') and p.op != 'const' and not (content.op == 'seq' and x in self.st.par):
                self.st.par[x] = (p, i)

    # ------------------------------------------------------------------ subscripts and attributes
    def e_Subscript(self, e):
        o = self.expr(e.value)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                st = self.value(self.expr(e.slice.step))
                if t.is_const(st, 'int') and t.cval(st) == -1 and e.slice.lower is None and e.slice.upper is None:
                    return self.reversed_list(o)
                raise Undecided('slice step', e)
            a = self.value(self.expr(e.slice.lower)) if e.slice.lower is not None else t.ZERO
            b = self.value(self.expr(e.slice.upper)) if e.slice.upper is not None else t.NONE
            return self.slice_of(o, a, b)
        if isinstance(e.value, ast.Name) and o.op == 'classref':
            i = self.value(self.expr(e.slice))
            return self.enum_item(o, i, e)
        i = self.value(self.expr(e.slice))
        if i.op == 'ext' and i.a[0] == 'slice' and len(i.a) in (2, 3) and all(isinstance(x, T) for x in i.a[1:]) and \
                not any(x.op == 'kw' for x in i.a[1:]):
            a, b = (t.ZERO, i.a[1]) if len(i.a) == 2 else i.a[1:]
            if t.isint(a) or a is t.NONE:
                return self.slice_of(o, t.ZERO if a is t.NONE else a, b)
        return self.getitem(o, i, e)

    def slice_of(self, o, a, b):
        c = self.deref(o)
        r = t.slice_(c, a, b)
        if r.op == 'slice' and r.ty == 'list':
            r = self.whole_slice(r)
        if r.ty == 'list':
            if not self.w.ecls.get(r) and self.w.ecls.get(o):
                self.w.ecls[r] = self.w.ecls[o]
            q = self.fresh_list(r)
            if self.w.ecls.get(o):
                self.w.ecls[q] = self.w.ecls[o]
            return q
        return r

    def reversed_list(self, o):
        c = self.seqval(o)
        n = t.lift(t.count_of, c)
        if c.op == 'seq':
            return self.fresh_list(t.seq(c.a[::-1]))
        k = t.fresh('nat')
        b = self.elem(o, c, sub(sub(n, t.ONE), k))
        if c.ty == 'str':
            return t.mk_bigcat(k, n, b, 'str')
        return self.fresh_list(t.mk_bigcat(k, n, t.seq([b]), 'list'))

    def getitem(self, o, i, node):
        cn = self.w.cls_of(o) if o.op != 'ite' else None
        if cn is not None:
            k = self.w.cls(cn)
            m = k and self.w.prog.lookup(k, '__getitem__')
            if isinstance(m, Func):
                return self.invoke(m, [o, i], {}, node, recv=o)
        if o.op == 'classref':
            return self.enum_item(o, i, node)
        c = self.deref(o)
        if self.handlers and c.op != 'ite' and not t.isint(i) and c.ty not in ('list', 'str', 'tuple', 'bytes'):
            self.maybe_raise('KeyError', NOT(t.IN(i, c)))
            if self.g is t.FALSE:
                return t.undef()
        if c.op == 'ite' or True:
            if any(self.is_defaultdict(x) for x in t.leaves(o)):
                return self.default_item(o, c, i)
        return self.elem(o, c, i)

    def is_defaultdict(self, x):
        return x.ty == 'defaultdict' or (x.op == 'field' and self.w.ftype_of_term(x) == 'defaultdict')

    def default_item(self, o, c, i):
        present = t.IN(i, c)

        def miss():
            p = self.fresh_list(t.empty('list'))
            self.mutate(o, lambda y: t.lift(lambda z: t.upd(z, i, p), y))
            self.st.par[p] = (o, i)
            return p
        return self.branch(present, lambda: self.elem(o, self.deref(o), i), miss)

    def setitem_hook(self, o, i, v, node):
        cn = self.w.cls_of(o) if o.op != 'ite' else None
        if cn is not None:
            k = self.w.cls(cn)
            m = k and self.w.prog.lookup(k, '__setitem__')
            if isinstance(m, Func):
                self.invoke(m, [o, i, v], {}, node, recv=o)
                return True
        return False

    def e_Attribute(self, e):
        return self.attr(self.expr(e.value), e.attr, e)

    def attr(self, o, name, e):
        return t.lift(lambda x: self.attr1(x, name, e), o) if o.op == 'ite' and all(
            x.op in ('glob', 'classref', 'modref') for x in t.leaves(o)) else self.attr1(o, name, e)

    def attr1(self, o, name, e):
        if o.op == 'superref':
            o = o.a[1]
        if o.op in ('modref', 'classref', 'glob', 'extref'):
            return self.w.member(self, o, name, e)
        cn = self.w.cls_of(o) if o.op != 'ite' else self.w.common_cls(o)
        if cn is not None:
            k = self.w.cls(cn)
            m = self.w.prog.lookup(k, name) if k is not None else None
            if isinstance(m, Func) and m.kind == 'property':
                return self.invoke(m, [o], {}, e, recv=o)
            if isinstance(m, Func):
                return raw('bound', (o, name)) if o.op != 'ite' else mk('bound', o, name)
            if isinstance(m, Class):
                return raw('classref', (m.qual,))
            if isinstance(m, tuple) and (o, name) not in self.st.fld:
                v = self.w.class_const(self, m, k, name)
                if v is not None:
                    return v
        elif cn is None:
            # a property of a repo class seen through an untyped value
            ms = self.w.props.get(name)
            if ms is not None and len(ms) == 1:
                return self.invoke(ms[0], [o], {}, e, recv=o)
        return self.load(o, name, e)

    def set_attr(self, o, name, v, node):
        cn = self.w.cls_of(o) if o.op != 'ite' else None
        if cn is not None:
            k = self.w.cls(cn)
            m = k and k.methods.get(name + '.setter')
            if m is not None:
                self.invoke(m, [o, v], {}, node, recv=o)
                return
        self.store(o, name, v)

    def e_Await(self, e):
        raise Undecided('await', e)

    def e_Yield(self, e):
        raise Undecided('yield expression', e)


class Emit(ast.stmt):
    _fields = ()

    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.lineno = 0


class ClosureBox:
    __slots__ = ('node', 'st', 'frame')

    def __init__(self, node, st, frame):
        self.node, self.st, self.frame = node, st, frame
