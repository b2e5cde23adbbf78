"""Built-in functions and external (standard library) calls of the summariser."""
import ast
import re
import struct
from . import terms as t
from .terms import T, const, sym, glob, raw, mk, ITE, AND, OR, NOT, EQ, LT, add, sub, mul, ge0, truth, idx, length
from .eval import Undecided, newptr, is_alloc, Exit
from .calls import Calls, EXT_TYPES
from .exprs import Emit
from .frontend import Func, Class

# external classes whose instances are mutable: every construction is an object of its own
MUTABLE_EXT = {'io.BytesIO', 'io.StringIO', 'dartsclone.DoubleArray', 'sortedcontainers.SortedDict',
               'queue.PriorityQueue', 'collections.deque', 'collections.OrderedDict'}
STREAM_EXT = {'io.BytesIO': 'bytes', 'io.StringIO': 'str'}
ARGNAMES = {
    'open': ('file', 'mode', 'buffering', 'encoding'),
    'int.from_bytes': ('bytes', 'byteorder', 'signed'),
    'mmap.mmap': ('fileno', 'length', 'access'),
    'int.to_bytes': ('self', 'length', 'byteorder', 'signed'),
    'warnings.warn': ('message', 'category'),
    'fileinput.input': ('files', 'inplace', 'backup'),
}
ARGDEFAULTS = {
    'open': {'mode': 'r', 'buffering': -1, 'encoding': None},
    'int.from_bytes': {'byteorder': 'big', 'signed': False},
    'int.to_bytes': {'length': 1, 'byteorder': 'big', 'signed': False},
}
FLAG_ARGS = {'signed'}
REGEX_META = set('.^$*+?{}[]\\|()')


def literal_pattern(p):
    """The text a pattern without any operator stands for, or None."""
    r = re.sub(r'\\([^\w\s])', lambda m: chr(0xE000 + ord(m.group(1))), p)
    if not r or set(r) & REGEX_META:
        return None
    return ''.join(chr(ord(c) - 0xE000) if 0xE000 <= ord(c) < 0xE080 else c for c in r)


class Builtins(Calls):
    STREAM_EXT = STREAM_EXT

    def name_call(self, fn, args):
        """A builtin applied to values."""
        m = getattr(self, 'b_' + fn, None)
        if m is None:
            return None
        saved = dict(self.st.env)
        names = []
        for i, a in enumerate(args):
            n = '$arg%d_%d' % (len(self.frames), i)
            self.st.env[n] = a
            names.append(ast.Name(n, ast.Load(), lineno=0, col_offset=0))
        call = ast.Call(ast.Name(fn, ast.Load(), lineno=0, col_offset=0), names, [], lineno=0, col_offset=0)
        r = m(call)
        for n in names:
            self.st.env.pop(n.id, None)
        return r

    def arg(self, e, i, name=None, default=None):
        if i < len(e.args):
            if isinstance(e.args[i], ast.Starred):
                raise Undecided('starred argument of a builtin', e)
            return self.expr(e.args[i])
        for k in e.keywords:
            if k.arg is not None and k.arg == name:
                return self.expr(k.value)
        return default

    # ------------------------------------------------------------------ sizes and conversions
    def b_len(self, e):
        v = self.arg(e, 0)
        return self.length_of(v, e)

    def length_of(self, v, e):
        def f(x):
            cn = self.w.cls_of(x)
            if cn is not None:
                k = self.w.cls(cn)
                m = k and self.w.prog.lookup(k, '__len__')
                if isinstance(m, Func):
                    return self.invoke(m, [x], {}, e, recv=x)
            d = self.deref(x)
            if d.op == 'ite':
                return t.lift(lambda y: t.length(y), d)
            return t.length(d)
        if v.op == 'ite':
            return t.lift(f, v)
        return f(v)

    def aslist(self, c):
        def f(c):
            if c.ty == 'list' or c.ty is None and c.op != 'seq':
                return c
            if c.op == 'seq':
                return raw('seq', c.a, 'list')
            if c.op == 'const' and isinstance(t.cval(c), str):
                return t.seq([const(x) for x in t.cval(c)])
            k = t.fresh('nat')
            return t.mk_bigcat(k, t.lift(t.count_of, c), t.seq([t.idx(c, k)]), 'list')
        return t.lift(f, c)

    def b_list(self, e):
        if not e.args:
            return self.fresh_list(t.empty('list'))
        it = e.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'zip', 'enumerate', 'reversed') \
                and self.w.is_builtin(it.func.id, self.frames[-1]):
            return self.materialise(it, e)
        v = self.expr(it)
        p = self.fresh_list(self.aslist(self.seqval(v)))
        if self.w.ecls.get(v):
            self.w.ecls[p] = self.w.ecls[v]
        return p

    def materialise(self, it, e):
        r = self.iteration(it, e)
        if isinstance(r, list):
            return self.fresh_list(t.seq(r))
        n, f = r
        k = t.fresh('nat')
        return self.fresh_list(t.mk_bigcat(k, n, t.lift(lambda x: t.seq([x]), f(k)), 'list'))

    def b_range(self, e):
        return self.materialise(e, e)

    def b_zip(self, e):
        return self.materialise(e, e)

    def b_enumerate(self, e):
        return self.materialise(e, e)

    def b_iter(self, e):
        return self.expr(e.args[0])

    def b_tuple(self, e):
        if not e.args:
            return t.seq((), 'tuple')
        c = self.snapshot(self.aslist(self.seqval(self.expr(e.args[0]))))
        return t.lift(lambda x: raw('seq', x.a, 'tuple') if x.op == 'seq' else raw('astuple', (x,), 'tuple'), c)

    def b_set(self, e):
        if not e.args:
            return self.fresh_list(t.empty('set'))
        v = self.expr(e.args[0])
        d = self.deref(v)

        def f(x):
            if x.ty == 'set':
                return x
            y = self.seqval(x)
            if y.op == 'setlist':
                return y.a[0]
            return self.mkset(y if y.op != 'const' else self.aslist(y))
        return self.fresh_list(t.lift(f, d))

    b_frozenset = b_set

    def b_dict(self, e):
        if not e.args and not e.keywords:
            return self.fresh_list(t.empty('dict'))
        if len(e.args) == 1 and not e.keywords:
            d = self.deref(self.expr(e.args[0]))
            if all(x.ty == 'dict' or x.op == 'dict' for x in t.leaves(d)):
                return self.fresh_list(d)
            return self.fresh_list(t.lift(lambda x: raw('dictof', (x,), 'dict'), self.snapshot(self.seqval(d))))
        p = self.fresh_list(t.empty('dict'))
        for k in e.keywords:
            v = self.expr(k.value)
            self.mutate(p, lambda c: t.upd(c, const(k.arg), v))
        return p

    def b_str(self, e):
        if not e.args:
            return const('')
        v = self.arg(e, 0)
        if v.op != 'ite':
            cn = self.w.cls_of(v)
            k = cn and self.w.cls(cn)
            m = k and self.w.prog.lookup(k, '__str__')
            if isinstance(m, Func):
                return self.invoke(m, [v], {}, e, recv=v)
        return self.tostr(self.value(v))

    def b_repr(self, e):
        return mk('repr', self.value(self.arg(e, 0)), ty='str')

    def b_bool(self, e):
        if not e.args:
            return t.FALSE
        return self.truth(self.expr(e.args[0]))

    def b_int(self, e):
        if not e.args:
            return t.ZERO
        v = self.value(self.arg(e, 0))
        base = self.arg(e, 1, 'base', const(10))
        base = self.value(base)

        def f(x, b):
            if x.op == 'const' and isinstance(t.cval(x), bool):
                return const(int(t.cval(x)))
            if x.op == 'const' and b.op == 'const' and isinstance(t.cval(x), (str, int)):
                try:
                    return const(int(t.cval(x), t.cval(b)) if isinstance(t.cval(x), str) else t.cval(x))
                except ValueError:
                    pass
            if x.ty in ('int', 'nat', 'byte') or x.op == 'poly':
                return x
            return raw('int', (x, b), 'int')
        r = t.lift(f, v, base)
        for x in t.leaves(r):
            if x.op == 'int':
                self.maybe_raise('ValueError', NOT(t.atom(raw('truthy', (raw('intok', x.a, 'bool'),)))))
        return r

    def b_float(self, e):
        return mk('float', self.value(self.arg(e, 0)), ty='float')

    def b_ord(self, e):
        return t.lift(lambda x: const(ord(t.cval(x))) if x.op == 'const' and len(t.cval(x)) == 1 else raw('ord', (x,), 'nat'),
                      self.value(self.arg(e, 0)))

    def b_chr(self, e):
        return t.lift(lambda x: const(chr(t.cval(x))) if x.op == 'const' else x.a[0] if x.op == 'ord' else raw('chr', (x,), 'str'),
                      self.value(self.arg(e, 0)))

    def b_abs(self, e):
        v = self.value(self.arg(e, 0))
        return ITE(ge0(v), v, t.scale(v, -1))

    def b_divmod(self, e):
        a, b = self.value(self.arg(e, 0)), self.value(self.arg(e, 1))
        return t.seq([t.fdiv(a, b), t.mod_(a, b)], 'tuple')

    def b_bytes(self, e):
        if not e.args:
            return const(b'')
        v = self.value(self.arg(e, 0))

        def f(x):
            if x.ty in ('bytes',):
                return x
            if x.op == 'const' and isinstance(t.cval(x), int):
                return const(b'\x00' * t.cval(x))
            if t.isint(x) or x.op == 'poly':
                return raw('repeat', (const(b'\x00'), x), 'bytes')
            return raw('bytes', (x,), 'bytes')
        return t.lift(f, v)

    def b_memoryview(self, e):
        v = self.expr(e.args[0])
        return t.lift(lambda x: x if x.op == 'memoryview' else raw('memoryview', (x,)), self.place(v))

    def place(self, v):
        """The object itself, not its current state (views see later changes)."""
        return v

    # ------------------------------------------------------------------ folds
    def extremum(self, e, up):
        kw = {k.arg: self.expr(k.value) for k in e.keywords}
        if len(e.args) >= 2 and not kw:
            vs = [self.value(self.expr(a)) for a in e.args]
            r = vs[0]
            for v in vs[1:]:
                c = LT(r, v) if up else LT(v, r)
                r = ITE(c, v, r)
            return r
        if len(e.args) == 1 and set(kw) <= {'key', 'default'}:
            v = self.expr(e.args[0])
            c = self.snapshot(self.seqval(v))
            if c.op == 'seq' and c.a and not kw:
                r = c.a[0]
                for v in c.a[1:]:
                    r = ITE(LT(r, v) if up else LT(v, r), v, r)
                return r
            if c.ty in ('list', 'tuple', 'str', 'bytes', None) and c.op != 'const':
                return self.best_of(e, v, kw, up)
        if len(e.args) == 1:
            args = [mk('kw', k, self.lam(v) if v.op == 'closure' else self.value(v)) for k, v in sorted(kw.items())]
            return mk('max' if up else 'min', self.snapshot(self.seqval(self.expr(e.args[0]))), *args)
        raise Undecided('min/max', e)

    def best_of(self, e, v, kw, up):
        """min() or max() of a sequence as the loop that finds the first best element."""
        d = len(self.frames)
        while '$best%d' % d in self.st.env or '$item%d' % d in self.st.env:
            d += 100
        it, best, item, key = ('$%s%d' % (x, d) for x in ('its', 'best', 'item', 'key'))
        self.st.env[it] = v

        def name(n):
            return ast.Name(n, ast.Load())

        def keyed(n):
            return ast.Call(name(key), [name(n)], []) if 'key' in kw else name(n)
        if 'key' in kw:
            self.st.env[key] = kw['key']
        body = [ast.Assign([ast.Name(best, ast.Store())], ast.Subscript(name(it), ast.Constant(0), ast.Load())),
                ast.For(ast.Name(item, ast.Store()),
                        ast.Subscript(name(it), ast.Slice(ast.Constant(1), None, None), ast.Load()),
                        [ast.If(ast.Compare(keyed(item), [ast.Gt() if up else ast.Lt()], [keyed(best)]),
                                [ast.Assign([ast.Name(best, ast.Store())], name(item))], [])], [])]
        if 'default' in kw:
            self.st.env[best] = kw['default']
            stmts = [ast.If(name(it), body, [])]
        else:
            stmts = [ast.If(ast.UnaryOp(ast.Not(), name(it)), [ast.Raise(ast.Name('ValueError', ast.Load()), None)], [])] + body
        for x in stmts:
            ast.copy_location(x, e)
            for y in ast.walk(x):
                y.lineno = getattr(e, 'lineno', 0)
            ast.fix_missing_locations(x)
        self.block(stmts)
        r = self.st.env.pop(best, t.undef())
        for n in (it, item, key):
            self.st.env.pop(n, None)
        return r

    def b_max(self, e):
        return self.extremum(e, True)

    def b_min(self, e):
        return self.extremum(e, False)

    def b_sum(self, e):
        start = self.value(self.arg(e, 1, 'start', t.ZERO))
        a = e.args[0]
        it = self.iteration(a, e) if not isinstance(a, (ast.GeneratorExp, ast.ListComp)) else \
            self.iter_value(self.expr(a), e)
        if isinstance(it, list):
            return add(start, *[self.value(x) for x in it])
        return add(start, self.sum_of(self.snapshot(self.seqval(self.expr(a)))))

    def sum_of(self, c):
        def f(c):
            if c.op == 'seq':
                return add(t.ZERO, *c.a)
            if c.op == 'concat':
                return add(t.ZERO, *[self.sum_of(x) for x in c.a])
            if c.op == 'bigcat':
                vs, bodies = t.open_binder(c)
                return t.mk_bigsum(vs[0], c.a[2][0], self.sum_of(bodies[0]))
            k = t.fresh('nat')
            return t.mk_bigsum(k, t.count_of(c), t.idx(c, k))
        return t.lift(f, c)

    def fold_bool(self, e, is_any):
        a = e.args[0]
        whole = None
        if not isinstance(a, ast.GeneratorExp):
            whole = '$all%d' % len(self.frames)
            while whole in self.st.env:
                whole += '_'
            if isinstance(a, ast.ListComp):
                # every element is computed before the first one is looked at
                self.st.env[whole] = self.expr(a)
                a = ast.Name(whole, ast.Load())
            g = ast.GeneratorExp(ast.Name('$x', ast.Load()), [ast.comprehension(ast.Name('$x', ast.Store()), a, [], 0)])
            ast.copy_location(g, e)
            ast.fix_missing_locations(g)
            a = g
        flag = '$flag%d' % len(self.frames)
        while flag in self.st.env:
            flag += '_'
        self.st.env[flag] = t.FALSE if is_any else t.TRUE
        single = len(a.generators) == 1

        if single:
            test = a.elt if is_any else ast.UnaryOp(ast.Not(), a.elt)
            body = [ast.If(test, [ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(is_any)), ast.Break()], [])]
            g = a.generators[0]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            loop = ast.For(g.target, g.iter, body, [])
            ast.copy_location(loop, e)
            ast.fix_missing_locations(loop)
            saved = {}
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            for n in names:
                if n in self.st.env:
                    saved[n] = self.st.env[n]
            self.block([loop])
            for n in names:
                self.st.env.pop(n, None)
            self.st.env.update(saved)
            if whole is not None:
                self.st.env.pop(whole, None)
        else:
            self.st.env.pop(flag)
            cell = newptr('newlist', ty='bool')
            self.st.cont[cell] = t.FALSE if is_any else t.TRUE

            def emit():
                c = self.cond(a.elt)
                self.mutate(cell, lambda cur: OR(cur, c) if is_any else AND(cur, c))
            self.run_comp(a, emit)
            return self.deref(cell)
        return self.st.env.pop(flag, t.undef())

    def b_any(self, e):
        return self.fold_bool(e, True)

    def b_all(self, e):
        return self.fold_bool(e, False)

    def b_next(self, e):
        a = e.args[0]
        if isinstance(a, ast.GeneratorExp) and len(a.generators) == 1:
            g = a.generators[0]
            name = '$next%d' % len(self.frames)
            body = [ast.Assign([ast.Name(name, ast.Store())], a.elt), ast.Break()]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            if len(e.args) > 1:
                orelse = [ast.Assign([ast.Name(name, ast.Store())], e.args[1])]
            else:
                orelse = [ast.Raise(ast.Name('StopIteration', ast.Load()), None)]
            loop = ast.For(g.target, g.iter, body, orelse)
            ast.copy_location(loop, e)
            ast.fix_missing_locations(loop)
            self.st.env[name] = t.NONE
            self.block([loop])
            return self.st.env.pop(name, t.undef())
        raise Undecided('next', e)

    def b_sorted(self, e):
        v = self.expr(e.args[0])
        kw = {k.arg: self.expr(k.value) for k in e.keywords}
        p = self.fresh_list(self.sorted_term(v, kw))
        if self.w.ecls.get(v):
            self.w.ecls[p] = self.w.ecls[v]
        return p

    def b_reversed(self, e):
        a = e.args[0]
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('range', 'enumerate', 'zip'):
            return self.materialise(e, e)
        v = self.expr(a)
        r = self.reversed_list(v)
        if self.w.ecls.get(v):
            for x in t.leaves(r):
                self.w.ecls[x] = self.w.ecls[v]
        return r

    def b_map(self, e):
        if len(e.args) != 2:
            raise Undecided('map of several iterables', e)
        fn = self.expr(e.args[0])
        acc = self.fresh_list(t.empty('list'))

        def emit():
            x = self.call_leaf(fn, [self.st.env['$m']], {}, e)
            self.mutate(acc, lambda c: t.concat([c, t.seq([x])], 'list'))
        loop = ast.For(ast.Name('$m', ast.Store()), e.args[1], [Emit(emit)], [])
        ast.copy_location(loop, e)
        self.block([loop])
        self.st.env.pop('$m', None)
        return acc

    def b_filter(self, e):
        fn = self.expr(e.args[0])
        acc = self.fresh_list(t.empty('list'))

        def emit():
            x = self.st.env['$m']
            c = self.truth(x) if fn is t.NONE else self.truth(self.call_leaf(fn, [x], {}, e))

            def yes():
                self.mutate(acc, lambda q: t.concat([q, t.seq([x])], 'list'))
            self.branch(c, yes, lambda: None)
        loop = ast.For(ast.Name('$m', ast.Store()), e.args[1], [Emit(emit)], [])
        ast.copy_location(loop, e)
        self.block([loop])
        self.st.env.pop('$m', None)
        return acc

    # ------------------------------------------------------------------ reflection
    def b_isinstance(self, e):
        v = self.value(self.expr(e.args[0]))
        return t.lift(lambda x: t.atom(raw('isinst', (x, ast.unparse(e.args[1])))), v)

    def b_hasattr(self, e):
        v, n = self.expr(e.args[0]), self.value(self.expr(e.args[1]))
        return t.truth(mk('hasattr', self.value(v), n, ty='bool'))

    def b_getattr(self, e):
        v, n = self.expr(e.args[0]), self.value(self.expr(e.args[1]))
        if n.op == 'const' or n.op == 'ite' and all(t.is_const(x, 'str') for x in t.leaves(n)):
            def go(n):
                if n.op != 'ite':
                    return self.attr(v, t.cval(n), e)
                return self.branch(t.atom(n.a[0]), lambda: go(n.a[1]), lambda: go(n.a[2]))
            if len(e.args) == 3 and n.op == 'const' and v.op == 'ret' and v.a[0].rsplit('.', 1)[-1] == 'parse_args':
                # an attribute of the parsed arguments may not be there
                if self.w.always_function(t.cval(n)):
                    t.NEVER_NONE.add('.' + t.cval(n))
                return ITE(t.truth(mk('hasattr', self.value(v), n, ty='bool')), go(n), self.expr(e.args[2]))
            return go(n)
        if v.op == 'classref' and self.w.cls(v.a[0]) is not None and self.w.is_enum(self.w.cls(v.a[0])):
            has = t.truth(mk('enumhas', v.a[0], n, ty='bool'))
            if len(e.args) > 2:
                d = self.expr(e.args[2])
                return ITE(has, mk('enumitem', v.a[0], n), d)
            self.maybe_raise('AttributeError', NOT(has))
            return mk('enumitem', v.a[0], n)
        return mk('getattr', self.value(v), n)

    def b_setattr(self, e):
        raise Undecided('setattr', e)

    def b_super(self, e):
        fr = self.frames[-1]
        return raw('superref', (fr.cls.qual, self.st.env[fr.selfname])) if fr.selfname else None

    # ------------------------------------------------------------------ the world
    def b_print(self, e):
        args = [self.tostr(self.value(self.expr(a))) for a in e.args]
        kw = {k.arg: self.value(self.expr(k.value)) for k in e.keywords}
        sep, end = kw.get('sep', const(' ')), kw.get('end', const('\n'))
        parts = [const('')]
        for i, a in enumerate(args):
            if i:
                parts.append(sep)
            parts.append(a)
        x = t.concat(parts + [end], 'str')
        o = kw.get('file', glob('sys.stdout'))
        self.stream_method(o, 'write', [x], e)
        return t.NONE

    def b_exit(self, e):
        a = [self.value(self.expr(x)) for x in e.args]
        return self.leave(a)

    def leave(self, a):
        self.raise_('SystemExit', a[0] if a else t.NONE)
        return t.undef()

    def b_open(self, e):
        pos, kw = self.args_of(e)
        return self.external('open', pos, kw, e)

    def b_id(self, e):
        raise Undecided('id()', e)

    def norm_args(self, name, pos, kw):
        names = ARGNAMES.get(name)
        pos, kw = list(pos), dict(kw)
        if names:
            for i, n in enumerate(names):
                if n in kw and i >= len(pos):
                    d = ARGDEFAULTS.get(name, {})
                    ok = True
                    fill = []
                    for j in range(len(pos), i):
                        if names[j] in kw:
                            fill.append(kw.pop(names[j]))
                        elif names[j] in d:
                            fill.append(const(d[names[j]]))
                        else:
                            ok = False
                            break
                    if ok:
                        pos += fill + [kw.pop(n)]
            d = ARGDEFAULTS.get(name, {})
            for i, n in enumerate(names[:len(pos)]):
                if n in FLAG_ARGS and pos[i].op != 'const':
                    pos[i] = t.truth(pos[i])
            while len(pos) > 1 and names[len(pos) - 1] in d and len(pos) <= len(names) and \
                    pos[-1] is const(d[names[len(pos) - 1]]):
                pos.pop()
        return pos, kw

    def external(self, name, pos, kw, e):
        if name.startswith('builtins.'):
            fn = name[9:]
            if not kw:
                r = self.name_call(fn, pos)
                if r is not None:
                    return r
            name = fn
        if name in ('sys.exit', 'exit', 'os._exit'):
            return self.leave([self.value(x) for x in pos])
        if name in ('warnings.warn', 'gc.collect') or (name.startswith('logging.') and name != 'logging.getLogger' and
                                                       name != 'logging.StreamHandler'):
            return t.NONE
        name = {'os.path.abspath': 'os.path.abspath', 'io.open': 'open', 'codecs.open': 'open'}.get(name, name)
        if name.split('.')[-1] == 'defaultdict' and len(pos) == 1:
            p = newptr('newlist', ty='defaultdict')
            self.st.cont[p] = t.empty('dict')
            return p
        if name in ('copy.copy', 'copy.deepcopy') and len(pos) == 1:
            return self.call_method(pos[0], 'copy', [], {}, e)
        if name in ('itertools.chain',):
            return self.fresh_list(t.concat([self.aslist(self.seqval(x)) for x in pos], 'list'))
        if name == 'collections.OrderedDict' and not pos and not kw:
            return self.fresh_list(t.empty('dict'))
        if name == 'argparse.ArgumentParser':
            kw = {k: x for k, x in kw.items() if k not in ('description', 'epilog')}
        if name in MUTABLE_EXT:
            return self.new_external(name, pos, kw, e)
        pos, kw = self.norm_args(name, pos, kw)
        vals = [self.lam(x) if x.op == 'closure' else self.value(x) for x in pos]
        if name in ('re.match', 're.fullmatch', 're.search', 're.sub', 're.split', 're.findall') and vals:
            p = vals[0]
            if p.op == 'ext' and p.a[0] == 're.compile':
                vals[0] = p.a[1]
            if name == 're.match' and len(vals) == 2 and t.is_const(vals[0], 'str') and \
                    not (set(t.cval(vals[0])) & REGEX_META):
                return t.lift(lambda y: t.truth(raw('m', ('startswith', y, vals[0]), 'bool')), vals[1])
            if name == 're.fullmatch' and len(vals) == 2 and t.is_const(vals[0], 'str') and t.cval(vals[0]) == r'\s*':
                return NOT(t.nonblank(vals[1]))
            if name == 're.match' and len(vals) == 2 and t.is_const(vals[0], 'str') and t.cval(vals[0]) in (r'\s*$',):
                return NOT(t.nonblank(vals[1]))
        if name == 'struct.calcsize' and len(vals) == 1 and not kw:
            def size(f):
                if t.is_const(f, 'str'):
                    try:
                        return const(struct.calcsize(t.cval(f)))
                    except struct.error:
                        pass
                if f.op == 'concat' and len(f.a) == 2 and f.a[0].op == 'str' and t.is_const(f.a[1], 'str') and \
                        len(t.cval(f.a[1])) == 1 and t.cval(f.a[1]) in 'bBhHiIqQ' and t.nonneg(f.a[0].a[0]):
                    return t.scale(f.a[0].a[0], struct.calcsize(t.cval(f.a[1])))
                return mk('ext', name, f, ty='int')
            return t.lift(size, vals[0])
        if name == 'os.fspath' and len(vals) == 1:
            return vals[0]
        if name == 're.split' and len(vals) == 2 and not kw and t.is_const(vals[0], 'str'):
            p = literal_pattern(t.cval(vals[0]))
            if p:
                return self.call_method(vals[1], 'split', [const(p)], {}, e)
        if name == 'os.path.join' and len(vals) == 2 and not kw:
            absolute = self.external('os.path.isabs', [vals[1]], {}, e)
            return ITE(absolute, vals[1], mk('ext', name, *vals, ty='str'))
        if name == 'importlib.util.find_spec' or name == 'importlib.import_module':
            if name == 'importlib.import_module':
                self.maybe_raise('ModuleNotFoundError', EQ(mk('ext', 'importlib.util.find_spec', *vals), t.NONE))
        args = vals + [mk('kw', k, self.lam(v) if v.op == 'closure' else self.value(v)) for k, v in sorted(kw.items())]
        r = mk('ext', name, *args, ty=EXT_TYPES.get(name))
        if EXT_TYPES.get(name) == 'bool':
            return t.truth(r)
        return r

    def new_external(self, name, pos, kw, e):
        p = self.new_object(name)
        args = [self.value(x) for x in pos] + [mk('kw', k, self.value(v)) for k, v in sorted(kw.items())]
        if name in STREAM_EXT:
            self.st.cont[p] = args[0] if args else const(b'' if STREAM_EXT[name] == 'bytes' else '')
            self.st.fld[(p, '$pos')] = t.ZERO
        elif name == 'sortedcontainers.SortedDict' and not args:
            self.st.cont[p] = raw('new', (name,), 'dict')
        else:
            self.st.cont[p] = self.lifted_call('new', (name,), args, None)
        return p

    # ------------------------------------------------------------------ byte and text streams
    STREAM = {'seek', 'tell', 'read', 'read_byte', 'write', 'truncate', 'getvalue', 'getbuffer'}

    def stream_method(self, o, name, v, e):
        """Streams are a content and a position."""
        if o.op == 'ite':
            return None
        if name not in self.STREAM:
            return None
        content = self.deref(o)
        pos = self.load(o, '$pos')
        if pos.op == 'field':
            pos = raw('field', pos.a, 'nat')
        if name == 'tell' and not v:
            return pos
        if name == 'seek' and 1 <= len(v) <= 2:
            if len(v) == 2 and v[1] is not t.ZERO:
                return None
            self.st.fld[(o, '$pos')] = v[0]
            return v[0]
        if name == 'getvalue' and not v:
            return content
        if name == 'read' and len(v) <= 1:
            kind = 'str' if self.w.text_stream(o) else 'bytes'
            if not v or v[0] is const(-1) or v[0] is t.NONE:
                r = t.slice_(content, pos, t.NONE, kind)
                self.st.fld[(o, '$pos')] = t.length(content)
            else:
                end = add(pos, v[0])
                r = t.slice_(content, pos, end, kind)
                self.st.fld[(o, '$pos')] = end
            return r
        if name == 'read_byte' and not v:
            r = t.idx(content, pos, 'byte')
            self.st.fld[(o, '$pos')] = add(pos, t.ONE)
            return r
        if name == 'write' and len(v) == 1:
            x = v[0]
            n = t.length(x)
            text = self.w.text_stream(o)
            self.mutate(o, lambda c: t.lift(lambda c, p, x: self.stream_write(c, p, x, text), c, pos, x))
            self.st.fld[(o, '$pos')] = add(pos, n)
            return n
        if name == 'truncate' and len(v) <= 1:
            n = v[0] if v else pos
            self.mutate(o, lambda c: t.lift(lambda c, n: self.stream_trunc(c, n), c, n))
            return n
        return None

    def stream_write(self, c, p, x, text=False):
        if x.op == 'const' and not t.cval(x):
            return c
        if c.op == 'const' and not t.cval(c) and p is t.ZERO:
            return x
        d = t.length(c)
        if c.ty in ('bytes', 'str') and p is d:
            return t.concat([c, x], c.ty)
        if c.op == 'written':
            c0, p0, x0 = c.a
            ty = 'str' if text and x0.ty in ('str', None) and x.ty in ('str', None) else x.ty if x0.ty == x.ty else None
            if p is add(p0, t.length(x0)) and ty in ('bytes', 'str'):
                return self.w.inherit(raw('written', (c0, p0, t.concat([x0, x], ty)), c.ty), c)
        return self.w.inherit(raw('written', (c, p, x), c.ty), c)

    def stream_trunc(self, c, n):
        if n is t.ZERO and c.ty in ('bytes', 'str'):
            return const(b'' if c.ty == 'bytes' else '')
        if n is t.ZERO:
            return raw('emptystream', (c.ty or '',), c.ty)
        return self.w.inherit(raw('truncated', (c, n), c.ty), c)
