"""Statements and loops of the summariser."""
import ast
import time
from . import terms as t
from .terms import T, const, sym, glob, raw, mk, ITE, AND, OR, NOT, EQ, LT, add, sub, ge0, truth, idx, length
from .eval import Base, St, Exit, Undecided, newptr, is_alloc, EXC_UP, _uid
from .frontend import Unsupported


def only_extended(name, body):
    """Every assignment to the name below is name += ..."""
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                    not any(isinstance(y, ast.AugAssign) and y.target is x and isinstance(y.op, ast.Add)
                            for z in body for y in ast.walk(z)):
                return False
    return True


def assigned_names(nodes):
    out = []

    def tgt(x):
        if isinstance(x, ast.Name):
            if x.id not in out:
                out.append(x.id)
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                tgt(y)
        elif isinstance(x, ast.Starred):
            tgt(x.value)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            if isinstance(n, ast.FunctionDef):
                if n.name not in out:
                    out.append(n.name)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    tgt(x.target)
            return
        if isinstance(n, ast.Assign):
            for x in n.targets:
                tgt(x)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            if n.name not in out:
                out.append(n.name)
        for c in ast.iter_child_nodes(n):
            go(c)
    for n in nodes:
        go(n)
    return out


def has_own(nodes, kinds):
    """Does the body contain a break/continue of its own loop?"""
    for n in nodes:
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While)):
            if has_own(n.orelse, kinds):
                return True
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if has_own([x for x in (getattr(n, f, None) or []) if isinstance(x, ast.AST)], kinds):
                return True
        for h in getattr(n, 'handlers', []):
            if has_own(h.body, kinds):
                return True
    return False


class Stmts(Base):

    def block(self, body):
        for s in body:
            if self.g is t.FALSE:
                return
            self.stmt(s)

    def stmt(self, s):
        if t.DEADLINE[0] is not None and time.monotonic() > t.DEADLINE[0]:
            raise t.TooBig()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement ' + type(s).__name__, s)
        m(s)

    def s_Pass(self, s):
        pass

    s_Import = s_Pass
    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_ImportFrom(self, s):
        m = self.frames[-1].module
        base = m.resolve_from(s)
        for a in s.names:
            d = base + '.' + a.name if base else a.name
            r = self.w.resolve_dotted(self, d)
            self.st.env[a.asname or a.name] = r

    def s_Import(self, s):
        for a in s.names:
            d = a.name if a.asname else a.name.split('.')[0]
            self.st.env[a.asname or a.name.split('.')[0]] = self.w.resolve_dotted(self, d)

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            acc = self.st.env.get('$yield')
            if acc is None:
                raise Undecided('yield', s)
            if isinstance(v, ast.Yield):
                x = self.expr(v.value) if v.value is not None else t.NONE
                self.mutate(acc, lambda c: t.concat([c, t.seq([x])]))
            else:
                x = self.seqval(self.expr(v.value))
                self.mutate(acc, lambda c: t.concat([c, x]))
            return
        self.expr(v)

    def s_Assign(self, s):
        v = self.expr(s.value)
        for x in s.targets:
            self.assign(x, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        old = self.expr(as_load(s.target))
        c = self.deref(old)
        if isinstance(s.op, ast.Add) and c.ty == 'list':
            x = self.seqval(self.expr(s.value))
            self.mutate(old, lambda q: t.concat([q, x]))
            return
        v = self.binop(s.op, old, self.expr(s.value), s)
        self.assign(s.target, v)

    def s_Delete(self, s):
        for x in s.targets:
            if isinstance(x, ast.Name):
                self.st.env.pop(x.id, None)
            elif isinstance(x, ast.Attribute):
                self.store(self.expr(x.value), x.attr, t.undef())
            elif isinstance(x, ast.Subscript):
                o = self.expr(x.value)
                if isinstance(x.slice, ast.Slice):
                    self.splice(o, x.slice, t.empty('list'), s)
                else:
                    i = self.expr(x.slice)
                    self.mutate(o, lambda c: self.del_index(c, i))

    def del_index(self, c, i):
        return t.lift(lambda c: t.concat([t.slice_(c, t.ZERO, i), t.slice_(c, add(i, t.ONE), t.NONE)])
                      if c.ty in ('list', None) and c.ty != 'dict' and (t.isint(i) or i.op == 'poly')
                      else mk('delitem', c, i, ty=c.ty), c)

    def splice(self, o, sl, v, node):
        if sl.step is not None:
            raise Undecided('slice step', node)
        a = self.expr(sl.lower) if sl.lower is not None else t.ZERO
        b = self.expr(sl.upper) if sl.upper is not None else t.NONE

        def f(c):
            tail = t.empty('list') if b is t.NONE else t.slice_(c, b, t.NONE)
            return t.concat([t.slice_(c, t.ZERO, a), v, tail], 'list')
        self.mutate(o, f)

    def assign(self, x, v):
        if isinstance(x, ast.Name):
            self.st.env[x.id] = v
        elif isinstance(x, ast.Attribute):
            o = self.expr(x.value)
            self.set_attr(o, x.attr, v, x)
        elif isinstance(x, ast.Subscript):
            o = self.expr(x.value)
            if isinstance(x.slice, ast.Slice):
                self.splice(o, x.slice, self.seqval(v), x)
                return
            i = self.expr(x.slice)
            if self.setitem_hook(o, i, v, x):
                return
            d = self.deref(o)
            if t.is_const(i, 'int') and t.cval(i) < 0 and d.ty != 'dict':
                i = add(length(d), i)
            self.mutate(o, lambda c: t.lift(lambda y: t.upd(y, i, v), c))
        elif isinstance(x, (ast.Tuple, ast.List)):
            n = len(x.elts)
            dv = self.deref(v)
            star = [j for j, y in enumerate(x.elts) if isinstance(y, ast.Starred)]
            dv = self.seqval(dv) if dv.op not in ('ite',) or True else dv
            if not star and dv.op == 'slice' and dv.a[2] is not t.NONE and sub(dv.a[2], dv.a[1]) is const(n):
                # exactly n elements, or it fails
                for j, y in enumerate(x.elts):
                    self.assign(y, self.elem(dv.a[0], dv.a[0], add(dv.a[1], const(j))))
                return
            for j, y in enumerate(x.elts):
                if star and j == star[0]:
                    end = n - 1 - j
                    up = sub(length(dv), const(end)) if end else t.NONE
                    p = self.fresh_list(t.slice_(dv, const(j), up))
                    self.assign(y.value, p)
                elif star and j > star[0]:
                    self.assign(y, self.elem(v, dv, sub(length(dv), const(n - j))))
                else:
                    self.assign(y, self.elem(v, dv, const(j)))
        elif isinstance(x, ast.Starred):
            self.assign(x.value, v)
        else:
            raise Undecided('assignment target', x)

    def fresh_list(self, content):
        p = newptr('newlist', ty=content.ty if content.ty in ('list', 'set', 'dict') else 'list')
        self.st.cont[p] = content
        return p

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else t.NONE
        if self.g is t.FALSE:
            return
        self.exits.append(Exit('return', self.g, self.st.copy(), v))
        self.g = t.FALSE

    def s_Raise(self, s):
        if s.exc is None:
            cur = self.st.env.get('$exc')
            name = cur.a[0] if isinstance(cur, T) and cur.op == 'excclass' else 'Exception'
            self.raise_(name)
            return
        e = s.exc
        if isinstance(e, ast.Call):
            for a in e.args:
                pass
            e = e.func
        if isinstance(e, ast.Name):
            v = self.st.env.get(e.id)
            if isinstance(v, T) and v.op == 'excclass':
                self.raise_(v.a[0])
                return
            self.raise_(EXC_ALIAS.get(e.id, e.id))
        elif isinstance(e, ast.Attribute):
            self.raise_(e.attr)
        else:
            raise Undecided('raise', s)

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.branch(c, lambda: None, lambda: self.raise_('AssertionError'))

    def s_Break(self, s):
        self.exits.append(Exit('break', self.g, self.st.copy()))
        self.g = t.FALSE

    def s_Continue(self, s):
        self.exits.append(Exit('continue', self.g, self.st.copy()))
        self.g = t.FALSE

    def s_If(self, s):
        c = self.cond(s.test)
        if self.g is t.FALSE:
            return

        def run(b):
            self.block(b)
            return None
        self.branch(c, lambda: run(s.body), lambda: run(s.orelse))

    def s_With(self, s):
        for i in s.items:
            v = self.expr(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(s.body)

    def s_FunctionDef(self, s):
        self.st.env[s.name] = self.closure(s)

    def s_ClassDef(self, s):
        raise Undecided('local class', s)

    def s_Try(self, s):
        outer_exits = self.exits
        self.exits = []
        hs = []
        for h in s.handlers:
            hs.append(self.handler_names(h))
        if s.handlers:
            self.handlers.append([n for names in hs for n in names])
        start = self.st.copy()
        g0 = self.g
        try:
            self.block(s.body)
        finally:
            if s.handlers:
                self.handlers.pop()
        if s.orelse and self.g is not t.FALSE:
            inner, self.exits = self.exits, []
            self.block(s.orelse)
            after_else, self.exits = self.exits, inner
        else:
            after_else = []
        norm = [(self.g, self.st, None)]
        rest = []
        caught = [[] for _ in hs]
        for e in self.exits:
            if e.kind == 'raise':
                ups = EXC_UP.get(e.val.a[0], (e.val.a[0], 'Exception', 'BaseException'))
                for j, names in enumerate(hs):
                    if any(n in ups for n in names):
                        caught[j].append(e)
                        break
                else:
                    rest.append(e)
            else:
                rest.append(e)
        self.exits = rest + after_else
        for j, h in enumerate(s.handlers):
            es = caught[j]
            broad = any(n in ('Exception', 'BaseException') for n in hs[j])
            if not es:
                if not self.only_reraises(h) and broad:
                    raise Undecided('catch-all handler', h)
                if not self.only_reraises(h) and not broad and self.can_implicitly(hs[j], s.body):
                    raise Undecided('handler of exceptions that are not modelled', h)
                continue
            # the handler runs for every caught exit; one run per exit keeps re-raised classes apart
            for e in es:
                self.st, self.g = e.st.copy(), e.g
                if h.name:
                    self.st.env[h.name] = raw('excclass', (e.val.a[0],))
                self.st.env['$exc'] = raw('excclass', (e.val.a[0],))
                self.block(h.body)
                norm.append((self.g, self.st, None))
        g, st, _ = self.merge_list(norm)
        self.g = g
        if st is not None:
            self.st = st
        if s.finalbody:
            mine, self.exits = self.exits, []
            done = []
            if self.g is not t.FALSE:
                self.block(s.finalbody)
            gn, sn = self.g, self.st
            extra = self.exits
            for e in mine:
                self.exits = []
                self.st, self.g = e.st.copy(), e.g
                self.block(s.finalbody)
                done += self.exits
                if self.g is not t.FALSE:
                    done.append(Exit(e.kind, self.g, self.st, e.val))
            self.g, self.st = gn, sn
            self.exits = done + extra
        self.exits = outer_exits + self.exits

    def can_implicitly(self, names, body):
        return True

    def handler_names(self, h):
        if h.type is None:
            return ['BaseException']
        x = h.type
        if isinstance(x, ast.Tuple):
            return [EXC_ALIAS.get(self.excname(y), self.excname(y)) for y in x.elts]
        return [EXC_ALIAS.get(self.excname(x), self.excname(x))]

    def excname(self, x):
        return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?'

    def only_reraises(self, h):
        """The handler only reports and re-raises."""
        for n in h.body[:-1]:
            for x in ast.walk(n):
                if isinstance(x, (ast.Return, ast.Continue, ast.Break, ast.Raise)) or \
                        isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                    return False
        last = h.body[-1]
        if isinstance(last, ast.Raise):
            if last.exc is None or (isinstance(last.exc, ast.Name) and last.exc.id == h.name):
                return True
        return False

    # ------------------------------------------------------------------ loops
    def s_While(self, s):
        self.loop(None, s.test, None, s.body, s.orelse, s, assigned_names(s.body + [ast.Expr(s.test)]))

    def part_name(self, x):
        name = '$part%d' % len(self.st.env)
        while name in self.st.env:
            name += '_'
        self.st.env[name] = x
        return name

    def parts_of(self, s):
        """The loops a loop over chained, filtered or flattened lists stands for."""
        leaves = any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in ast.walk(b))
        i = s.iter
        if isinstance(i, ast.Call):
            f = i.func
            if (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')) not in ('chain', 'filter') or i.keywords or \
                    any(isinstance(a, ast.Starred) for a in i.args):
                return None
        elif not isinstance(i, (ast.Name, ast.BinOp, ast.ListComp)) or \
                (isinstance(i, ast.Name) and (i.id not in self.st.env or any(
                    isinstance(x, ast.Name) and x.id == i.id for b in s.body for x in ast.walk(b)))):
            return None
        v = self.expr(i)
        if not isinstance(v, T):
            return None
        d = self.deref(v)
        parts = [d]
        if leaves and d.op == 'concat' and d.ty == 'list' and not all(p.op == 'seq' for p in d.a):
            parts = list(d.a)
        orelse, some = s.orelse, len(parts) > 1
        for p in reversed(parts):
            if p.op == 'bigcat' and p.ty == 'list':
                b = p.a[3][0]
                sizes = [len(x.a) if x.op == 'seq' else 2 for x in t.leaves(b)]
                if 0 in sizes and max(sizes) == 1:
                    # some of the elements
                    some = True
                    vs, bodies = t.open_binder(p)
                    pair = t.mapleaves(lambda x: t.seq([t.seq([t.TRUE, x.a[0]], 'tuple')]) if x.a else
                                       t.seq([t.seq([t.FALSE, t.NONE], 'tuple')]), bodies[0])
                    n = self.part_name(t.mk_bigcat(vs[0], p.a[2][0], pair, 'list'))
                    e = ast.Name(n + 'e', ast.Load())
                    sub_ = lambda j: ast.Subscript(e, ast.Constant(j), ast.Load())
                    body = [ast.If(sub_(0), [ast.Assign([s.target], sub_(1))] + s.body, [])]
                    orelse = [ast.For(ast.Name(n + 'e', ast.Store()), ast.Name(n, ast.Load()), body, orelse, None)]
                    continue
                if max(sizes) > 1 and not orelse and not breaks_out(s.body) and all(
                        x.ty == 'list' for x in t.leaves(b)):
                    # list after list
                    some = True
                    vs, bodies = t.open_binder(p)
                    n = self.part_name(t.mk_bigcat(vs[0], p.a[2][0], t.lift(lambda x: raw('seq', (x,), 'list'), bodies[0]), 'list'))
                    inner = ast.For(s.target, ast.Name(n + 'e', ast.Load()), s.body, [], None)
                    orelse = [ast.For(ast.Name(n + 'e', ast.Store()), ast.Name(n, ast.Load()), [inner], [], None)]
                    continue
            n = self.part_name(p if p is not d else v)
            orelse = [ast.For(s.target, ast.Name(n, ast.Load()), s.body, orelse, None)]
        if not some and isinstance(i, ast.Name):
            return None
        for x in ast.walk(orelse[0]):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, s)
        return orelse[0], some

    def s_For(self, s):
        r = self.parts_of(s)
        if r is not None:
            s, some = r
            if some:
                return self.s_For(s)
        it = self.iteration(s.iter, s)
        if isinstance(it, list):
            return self.unrolled(it, s)
        names = assigned_names(s.body)
        for n in assigned_names([ast.Assign([s.target], ast.Constant(0))]):
            if n not in names:
                names.append(n)
        n, elem = it
        self.loop(n, None, lambda k: self.assign(s.target, elem(k)), s.body, s.orelse, s, names)

    def unrolled(self, items, s):
        """A loop over a literal: the body once per item."""
        outer = self.exits
        norm_breaks = []
        for v in items:
            if self.g is t.FALSE:
                break
            self.exits = []
            self.assign(s.target, v)
            self.block(s.body)
            conts = [(self.g, self.st, None)]
            for e in self.exits:
                if e.kind == 'continue':
                    conts.append((e.g, e.st, None))
                elif e.kind == 'break':
                    norm_breaks.append((e.g, e.st, None))
                else:
                    outer.append(e)
            g, st, _ = self.merge_list(conts)
            self.g = g
            if st is not None:
                self.st = st
        self.exits = outer
        if s.orelse and self.g is not t.FALSE:
            self.block(s.orelse)
        g, st, _ = self.merge_list(norm_breaks + [(self.g, self.st, None)])
        self.g = g
        if st is not None:
            self.st = st

    def carried_type(self, v):
        d = self.deref(v)
        if d.op == 'ite':
            tys = {x.ty for x in t.leaves(d)}
            ty = tys.pop() if len(tys) == 1 else None
        else:
            ty = d.ty
        if d in (t.TRUE, t.FALSE):
            return 'bool'
        if ty == 'nat' or t.isint(d):
            ty = 'bool' if ty == 'bool' else 'int'
        if ty == 'none':
            ty = None
        return ty

    def nonnegative(self, v, g):
        try:
            return all(t.isint(x) for x in t.leaves(v)) and t.constrain(ge0(v), g) is t.TRUE
        except t.TooBig:
            return False

    def carried(self, key, init, notnat, outer):
        ty = self.carried_type(init)
        if ty == 'int' and key not in notnat and self.nonnegative(self.deref(init), outer):
            return 'nat'
        return ty

    def loop(self, n, test, bind, body, orelse, node, names):
        self.loops += 1
        if self.loops > 60:
            raise Undecided('too many loops', node)
        ctx0, g0, start, exits0 = self.ctx, self.g, self.st, self.exits
        outer = AND(ctx0, g0)
        cells = []
        eff = sym('$eff')
        mark0 = _uid[0]
        notnat = set()                     # carried numbers that may become negative
        for attempt in range(14):
            mark = _uid[0]
            k = t.fresh('nat')
            st = start.copy()
            car = []                       # (where, key, symbol, initial value)
            for name in names:
                init = start.env.get(name)
                if init is None:
                    continue
                if not isinstance(init, T):
                    continue
                if is_alloc(init) and start.cont.get(init, init).ty == 'list' and only_extended(name, body):
                    continue               # x += ... changes the list, not the variable
                init = self.reify_allocs(init, start)
                s_ = t.fresh(self.carried(('env', name), init, notnat, outer))
                self.w.inherit(s_, init)
                st.env[name] = s_
                car.append(('env', name, s_, init))
            for c in cells:
                if c[0] == 'cont':
                    init = start.cont.get(c[1], self.empty_eff() if c[1] is eff else c[1])
                else:
                    init = self._load(start, c[1][0], c[1][1], None)
                    init = self.reify(init, start)
                s_ = t.fresh(self.carried(c, init, notnat, outer))
                self.w.inherit(s_, init, c[1] if c[0] == 'cont' else None)
                (st.cont if c[0] == 'cont' else st.fld)[c[1]] = s_
                car.append((c[0], c[1], s_, init))
            base = st.copy()
            self.ctx, self.g, self.st, self.exits = outer, t.TRUE, st, []
            if n is not None:
                c = LT(k, n)
            else:
                c = self.cond(test)
            c = t.constrain(c, AND(self.ctx, self.g), True)
            pre_exits = self.exits
            self.exits = []
            false_st, false_g = self.st.copy(), AND(self.g, NOT(c))
            self.g = AND(self.g, c)
            self.st = self.constrained(self.st, c, True)
            if self.g is not t.FALSE:
                if bind is not None:
                    bind(k)
                self.block(body)
            conts = [(self.g, self.st, None)]
            breaks, outs = [], list(pre_exits)
            for e in self.exits:
                if e.kind == 'continue':
                    conts.append((e.g, e.st, None))
                elif e.kind == 'break':
                    breaks.append((e.g, e.st, None))
                else:
                    outs.append(e)
            gc, cst, _ = self.merge_list(conts)
            gb, bst, _ = self.merge_list(breaks)
            variant = {k} | {x[2] for x in car}

            def is_variant(p):
                if any(v in p.fr for v in variant):
                    return True
                return any(is_alloc(x) and x.a[0] > mark for x in t.walk(p))
            new = []
            effs = {}
            for which, s2 in (('c', cst), ('b', bst), ('f', false_st)) + tuple(('o', e.st) for e in outs):
                if s2 is None:
                    continue
                ev = []
                for p, v in s2.cont.items():
                    if v is base.cont.get(p, p):
                        continue
                    if is_variant(p):
                        continue
                    if ('cont', p) not in cells and ('cont', p) not in new:
                        new.append(('cont', p))
                for (p, f), v in s2.fld.items():
                    b = base.fld.get((p, f))
                    if v is b:
                        continue
                    if is_variant(p):
                        if not is_alloc(p) and b is None and not self.is_new_obj(p):
                            d = self._load(base, p, f, None)
                            if v is not d:
                                ev.append((p, f, v))
                        continue
                    if b is None and v is self._load(base, p, f, None):
                        continue
                    if ('fld', (p, f)) not in cells and ('fld', (p, f)) not in new:
                        new.append(('fld', (p, f)))
                if ev and which in 'cb':
                    ev.sort(key=lambda x: (t.show(x[0]), x[1]))
                    cur = s2.cont.get(eff, self.empty_eff())
                    items = []
                    for p, f, v in ev:
                        v = self.reify_local(v, s2, mark)
                        items.append(raw('assign', (p, f, v)) if v.op != 'ite' else
                                     t.lift(lambda y: raw('assign', (p, f, y)), v))
                    s2.cont[eff] = t.concat([cur] + [t.seq([x]) for x in items])
                    if ('cont', eff) not in cells and ('cont', eff) not in new:
                        new.append(('cont', eff))
            retype = False
            if cst is not None and gc is not t.FALSE:
                for w_, key, s_, init in car:
                    if s_.ty == 'nat':
                        v = self.cell(cst, w_, key, base)
                        if v is s_:
                            continue
                        v = self.reify_local(v, cst, mark) if isinstance(v, T) else s_
                        if not self.nonnegative(v, AND(outer, gc)):
                            notnat.add((w_, key))
                            retype = True
            if not new and not retype:
                break
            cells += new
            self.ctx, self.g, self.st, self.exits = ctx0, g0, start, exits0
        else:
            raise Undecided('loop state does not settle', node)
        self.ctx, self.g, self.exits = ctx0, g0, exits0
        ss = [x[2] for x in car]
        inits = [self.reify_allocs(x[3], start) if x[0] != 'cont' or not is_alloc(x[1]) else self.reify_allocs(x[3], start)
                 for x in car]
        dead = gc is t.FALSE
        gcc = t.constrain(gc, outer)
        if dead:
            ups = list(ss)
        else:
            ups = []
            for w_, key, s_, init in car:
                v = self.cell(cst, w_, key, base)
                v = self.reify_local(v, cst, mark) if isinstance(v, T) else s_
                ups.append(t.constrain(v, AND(outer, gcc)))
        # a container changed only at the position of the iteration is still the initial one there
        m = {}
        for s_, u, i0 in zip(ss, ups, inits):
            if u is not s_ and all(x is s_ or (x.op == 'upd' and x.a[0] is s_ and x.a[1] is k) for x in t.leaves(u)):
                m[idx(s_, k)] = idx(i0, k)
        if m:
            ups = [t.subst(u, m) for u in ups]
        X = NOT(gcc)

        memo = {}

        def value(i, at):
            key = (i, at.id)
            if key not in memo:
                memo[key] = t.mk_rec(k, ss, inits, ups, at, i)
            return memo[key]

        def at(v, when, only=None):
            m = {s_: value(i, when) for i, s_ in enumerate(ss) if s_ in v.fr}
            if when is not k:
                m[k] = when
            return t.subst(v, m)
        Xk = t.constrain(at(X, k), outer)
        K = t.mk_mu(k, Xk)
        XK = t.subst(Xk, {k: K})

        # after the loop
        def final_state(s2, changed_env):
            r = start.copy()
            for name in changed_env:
                v = s2.env.get(name)
                if isinstance(v, T):
                    r.env[name] = at(self.reify_local(v, s2, mark), K)
                else:
                    r.env.pop(name, None)
            for c in cells:
                if c[0] == 'cont':
                    v = s2.cont.get(c[1], base.cont.get(c[1], c[1]))
                    r.cont[c[1]] = at(self.reify_local(v, s2, mark), K)
                else:
                    v = self._load(s2, c[1][0], c[1][1], None)
                    r.fld[c[1]] = at(self.reify_local(v, s2, mark), K)
            return r
        allnames = list(names)
        for s2 in (cst, bst, false_st):
            if s2 is not None:
                for q in s2.env:
                    if q not in allnames and s2.env[q] is not base.env.get(q):
                        allnames.append(q)
        routes = []
        # names first assigned inside the body: value of the last iteration
        fs = final_state(false_st, allnames)
        if cst is not None and not dead:
            for name in allnames:
                if name not in start.env and isinstance(cst.env.get(name), T) and name not in false_st.env:
                    u = self.reify_local(cst.env[name], cst, mark)
                    u = t.constrain(u, AND(outer, gcc))
                    last = at(u, sub(K, t.ONE)) if not any(x in u.fr for x in ss) else \
                        t.subst(at(u, k), {k: sub(K, t.ONE)})
                    fs.env[name] = last
        gf = t.constrain(at(false_g, K), XK) if XK.op == 'ite' or XK is t.TRUE else at(false_g, K)
        self.st, self.g = fs, AND(g0, gf)
        if orelse and self.g is not t.FALSE:
            self.block(orelse)
        routes.append((self.g, self.st, None))
        if bst is not None and gb is not t.FALSE:
            b2 = final_state(bst, allnames)
            gb2 = t.constrain(at(gb, K), XK)
            routes.append((AND(g0, gb2), b2, None))
        for e in outs:
            g2 = t.constrain(at(e.g, K), XK)
            v = e.val
            if v is not None and e.kind == 'return':
                v = at(self.reify_local(v, e.st, mark), K)
            self.exits.append(Exit(e.kind, AND(g0, g2), final_state(e.st, allnames), v))
        g, st, _ = self.merge_list(routes)
        self.g = g
        self.st = st if st is not None else start

    def empty_eff(self):
        return t.empty('list')

    def is_new_obj(self, p):
        return False

    def cell(self, st, where, key, base):
        if where == 'env':
            return st.env.get(key)
        if where == 'cont':
            return st.cont.get(key, base.cont.get(key, key))
        return self._load(st, key[0], key[1], None)

    def reify_local(self, v, st, mark):
        return self.reify(v, st, mark)

    def reify_allocs(self, v, st):
        """Allocations replaced by their contents (objects stay references when small enough to be places)."""
        return self.reify(v, st, 0)


EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'error': 'struct.error'}


def breaks_out(body):
    """A break of the loop whose body this is."""
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if breaks_out(s.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if breaks_out(getattr(s, f, ())):
                return True
        if any(breaks_out(h.body) for h in getattr(s, 'handlers', ())):
            return True
    return False


def as_load(x):
    if isinstance(x, ast.Name):
        return ast.copy_location(ast.Name(x.id, ast.Load()), x)
    if isinstance(x, ast.Attribute):
        return ast.copy_location(ast.Attribute(x.value, x.attr, ast.Load()), x)
    if isinstance(x, ast.Subscript):
        return ast.copy_location(ast.Subscript(x.value, x.slice, ast.Load()), x)
    return x
