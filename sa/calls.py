"""Calls: builtins, methods of built-in types, functions of the package."""
import ast
from . import terms as t
from .terms import T, const, sym, glob, raw, mk, ITE, AND, OR, NOT, EQ, LT, add, sub, mul, ge0, truth, idx, length
from .eval import Undecided, newptr, is_alloc, Exit, MAXDEPTH, Frame, St
from .exprs import Exprs, Emit, ClosureBox
from .frontend import Func, Class, Module

# methods without side effects: name -> type of the result
PURE = {
    'startswith': 'bool', 'endswith': 'bool', 'strip': 'str', 'rstrip': 'str', 'lstrip': 'str', 'lower': 'str',
    'upper': 'str', 'split': 'list', 'rsplit': 'list', 'splitlines': 'list', 'encode': 'bytes', 'decode': 'str',
    'count': 'nat', 'find': 'int', 'rfind': 'int', 'replace': 'str', 'isdigit': 'bool', 'isspace': 'bool',
    'isalpha': 'bool', 'zfill': 'str', 'title': 'str', 'to_bytes': 'bytes', 'group': 'str', 'groups': 'tuple',
    'tell': 'nat', 'getvalue': None, 'issubset': 'bool', 'issuperset': 'bool', 'union': 'set', 'keys': 'list',
    'values': 'list', 'items': 'list', 'absolute': 'path', 'is_absolute': 'bool', 'as_posix': 'str', 'exists': 'bool',
    'cast': None, 'fileno': 'int', 'casefold': 'str', 'partition': 'tuple', 'isnumeric': 'bool', 'isdecimal': 'bool',
    'total_size': 'nat', 'array': None, 'common_prefix_search': 'list', 'symmetric_difference': 'set', 'hex': 'str',
    'bit_length': 'nat', 'isupper': 'bool', 'islower': 'bool', 'resolve': 'path', 'with_name': 'path', 'joinpath': 'path',
    'empty': None, 'match': None, 'fullmatch': None, 'search': None, 'sub': 'str',
}
SELFRET = {'copy', '__copy__'}
LOGNAMES = {'info', 'debug', 'warning', 'warn', 'error', 'exception', 'log', 'critical'}
BUILTIN_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'add', 'discard',
               'setdefault'}
EXT_TYPES = {'os.path.join': 'str', 'os.path.dirname': 'str', 'os.path.exists': 'bool', 'int.from_bytes': 'int',
             'struct.unpack': 'tuple', 'struct.unpack_from': 'tuple', 'pathlib.Path': 'path', 'csv.reader': 'list',
             'fileinput.input': 'list', 're.split': 'list', 're.sub': 'str', 'unicodedata.normalize': 'str',
             'time.time': 'float', 'os.path.abspath': 'str', 'os.path.isabs': 'bool', 're.findall': 'list',
             'os.path.isfile': 'bool', 'os.path.basename': 'str', 'unicodedata.category': 'str', 'json.load': 'dict'}


class BadCall(Exception):
    """The arguments do not fit the parameters."""


class Calls(Exprs):

    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id not in self.st.env:
            m = getattr(self, 'b_' + f.id, None)
            if m is not None and self.w.is_builtin(f.id, self.frames[-1]):
                r = m(e)
                if r is not None:
                    return r
        if isinstance(f, ast.Attribute):
            if f.attr == 'fromkeys' and isinstance(f.value, ast.Name) and f.value.id == 'dict' and 'dict' not in self.st.env and \
                    1 <= len(e.args) <= 2 and not e.keywords:
                v = self.expr(e.args[1]) if len(e.args) == 2 else t.NONE
                if v.op in ('const', 'sym', 'field', 'idx') or v.ty in ('str', 'int', 'nat', 'bool', 'bytes'):
                    self.st.env['$each'] = v
                    d = ast.DictComp(ast.Name('$key', ast.Load()), ast.Name('$each', ast.Load()), [
                        ast.comprehension(ast.Name('$key', ast.Store()), e.args[0], [], 0)])
                    for x in ast.walk(d):
                        if not hasattr(x, 'lineno'):
                            ast.copy_location(x, e)
                    r = self.expr(d)
                    self.st.env.pop('$each', None)
                    return r
            return self.call_attr(e, f)
        fn = self.expr(f)
        return self.call_value(fn, e)

    def args_of(self, e):
        pos = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.expr(a.value))
                if v.op == 'seq':
                    pos += list(v.a)
                elif v.op == 'ite' and len({len(x.a) if x.op == 'seq' else -1 for x in t.leaves(v)}) == 1 and \
                        all(x.op == 'seq' for x in t.leaves(v)):
                    n = len(t.leaves(v)[0].a)
                    pos += [t.lift(lambda y, i=i: y.a[i], v) for i in range(n)]
                elif v.op == 'field' and self.w.field_arity(v.a[1]):
                    pos += [t.idx(v, const(i)) for i in range(self.w.field_arity(v.a[1]))]
                else:
                    pos.append(mk('star', self.reify(v)))
            else:
                pos.append(self.expr(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.deref(self.expr(k.value))
                if v.op == 'dict' and all(t.is_const(n, 'str') for n, x in v.a):
                    kw.update({t.cval(n): x for n, x in v.a})
                else:
                    kw['**'] = v if v.op == 'ite' else self.reify(v)
            else:
                kw[k.arg] = self.expr(k.value)
        return pos, kw

    def call_value(self, fn, e):
        fn = t.constrain(fn, AND(self.ctx, self.g), True) if fn.op == 'ite' else fn
        if fn.op == 'ite':
            leaves = t.leaves(fn)
            pos, kw = self.args_of(e)
            # branch on which function it is

            def go(x):
                if x.op != 'ite':
                    return self.call_leaf(x, pos, kw, e)
                return self.branch(t.atom(x.a[0]), lambda: go(x.a[1]), lambda: go(x.a[2]))
            return go(fn)
        pos, kw = self.args_of(e)
        if self.g is t.FALSE:
            return t.undef()
        return self.call_leaf(fn, pos, kw, e)

    def call_leaf(self, fn, pos, kw, e):
        if '**' in kw and kw['**'].op == 'ite':
            if all(y.op == 'dict' and all(t.is_const(n, 'str') for n, x in y.a) for y in t.leaves(kw['**'])):
                rest = {k: v for k, v in kw.items() if k != '**'}

                def spread(x):
                    if x.op != 'ite':
                        return self.call_leaf(fn, pos, dict(rest, **{t.cval(n): v for n, v in x.a}), e)
                    return self.branch(t.atom(x.a[0]), lambda: spread(x.a[1]), lambda: spread(x.a[2]))
                return spread(kw['**'])
            kw = dict(kw, **{'**': self.reify(kw['**'])})
        if fn.op == 'field' and isinstance(fn.a[1], str) and '.' + fn.a[1] in t.NEVER_NONE:
            return self.call_method(fn.a[0], fn.a[1], pos, kw, e)
        if fn.op == 'closure':
            return self.apply(fn, pos, kw, e)
        if fn.op == 'funcref':
            return self.invoke(self.w.prog.funcs[fn.a[0]], pos, kw, e)
        if fn.op == 'classref':
            return self.construct(fn.a[0], pos, kw, e)
        if fn.op == 'bound':
            return self.call_method(fn.a[0], fn.a[1], pos, kw, e)
        if fn.op == 'extref':
            return self.external(fn.a[0], pos, kw, e)
        args = [self.value(a) for a in pos] + [mk('kw', k, self.value(v)) for k, v in sorted(kw.items())]
        return mk('apply', self.reify(fn), *args)

    # ------------------------------------------------------------------ closures
    def apply(self, fn, pos, kw, e):
        box = fn.a[1]
        node = box.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(box.st.env) if box.frame is not self.frames[-1] else dict(self.st.env)
        loc = {}
        for n, v in zip(names, pos):
            loc[n] = v
        for n, v in kw.items():
            loc[n] = v
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in loc:
                loc[n] = self.expr(d)
        if len(self.frames) > MAXDEPTH:
            raise Undecided('nesting depth', e)
        env.update(loc)
        return self.run_body(node, env, box.frame.func, box.frame.module, box.frame.cls, box.frame.selfname, e)

    def run_body(self, node, env, func, module, cls, selfname, e):
        saved_env = self.st.env
        self.st.env = env
        fr = Frame(func, module, cls, len(self.frames))
        fr.selfname = selfname
        self.frames.append(fr)
        exits, self.exits = self.exits, []
        try:
            if isinstance(node, ast.Lambda):
                v = self.expr(node.body)
                if self.g is not t.FALSE:
                    self.exits.append(Exit('return', self.g, self.st.copy(), v))
                self.g = t.FALSE
            else:
                acc = None
                if is_generator(node):
                    acc = self.fresh_list(t.empty('list'))
                    self.st.env['$yield'] = acc
                self.block(node.body)
                if self.g is not t.FALSE:
                    self.exits.append(Exit('return', self.g, self.st.copy(), t.NONE))
                if acc is not None:
                    for x in self.exits:
                        if x.kind == 'return':
                            x.val = acc
        finally:
            self.frames.pop()
        rets = [(x.g, x.st, x.val) for x in self.exits if x.kind == 'return']
        others = [x for x in self.exits if x.kind != 'return']
        for x in others:
            if x.kind in ('break', 'continue'):
                raise Undecided('loop exit out of a function', e)
            x.st.env = saved_env
        self.exits = exits + others
        for x in rets:
            x[1].env = {}
        g, st, v = self.merge_list(rets)
        self.g = g
        if st is None:
            self.st.env = saved_env
            return t.undef()
        self.st = st
        self.st.env = saved_env
        return v

    # ------------------------------------------------------------------ functions of the package
    def bind_args(self, f, pos, kw, e, skip):
        """Arguments by parameter position."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        for n, v in zip(names, pos):
            vals[n] = v
        if len(pos) > len(names):
            if a.vararg is None:
                raise BadCall()
            vals['*' + a.vararg.arg] = self.fresh_list(t.seq(pos[len(names):], 'tuple'))
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                vals[k] = v
            else:
                raise BadCall()
        dn = names[len(names) - len(a.defaults):]
        for n, d in list(zip(dn, a.defaults)) + [(n, d) for n, d in zip(konly, a.kw_defaults) if d is not None]:
            if n not in vals:
                vals[n] = self.w.default_value(self, f, d)
        for n in names + konly:
            if n not in vals:
                raise BadCall()
        return names + konly, vals

    def invoke(self, f, pos, kw, e, recv=None):
        """Call a function of the package (pos includes self for methods)."""
        if self.g is t.FALSE:
            return t.undef()
        if any(x.op == 'star' for x in pos):
            return self.opaque(f.name, [f], pos, kw, e)
        if self.w.is_abstract(f):
            return self.opaque(f.name, [f], pos, kw, e)
        inline = self.policy.inline(self, f)
        if inline and (len(self.frames) > MAXDEPTH or any(x.func is f for x in self.frames)):
            inline = False
        if not inline:
            return self.opaque(f.name, [f], pos, kw, e)
        self.inlined.add(f.qual)
        try:
            names, vals = self.bind_args(f, pos, kw, e, 0)
        except BadCall:
            self.raise_('TypeError')
            return t.undef()
        env = {}
        for n in names:
            env[n] = vals[n]
        va = f.node.args.vararg
        if va is not None:
            env[va.arg] = vals.get('*' + va.arg, self.fresh_list(t.seq((), 'tuple')))
        self.type_params(f, env)
        selfname = names[0] if f.kind in ('method', 'property', 'setter') and names else None
        return self.run_body(f.node, env, f, f.module, f.cls, selfname, e)

    def type_params(self, f, env):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(x.arg)
            if v is None or v.op in ('const', 'ite', 'poly') or is_alloc(v):
                continue
            if f.cls is not None and x.arg == 'self':
                self.w.tcls.setdefault(v, f.cls.qual)
            elif x.annotation is not None and self.w.cls_of(v) is None:
                self.w.annotate(v, x.annotation, f)

    def opaque(self, name, funcs, pos, kw, e):
        """A call that stays symbolic: its result and the state it changes are functions of what it reads."""
        f = funcs[0]
        self.called.add(f.qual)
        spec = self.w.canonical(f)
        kwargs = {}
        if any(x.op == 'star' for x in pos) or '**' in kw:
            args = list(pos)
            kwargs = kw
        else:
            extra = f.params()[len(spec.params()):]
            if len(spec.params()) > len(f.params()):
                raise Undecided('signature of %s changed' % f.qual, e)
            try:
                names, vals = self.bind_args(f, pos, kw, e, 0)
            except BadCall:
                self.raise_('TypeError')
                return t.undef()
            for n in extra:
                d = self.default_arg(f, n)
                if d is None or self.w.default_value(self, f, d) is not vals[n]:
                    raise Undecided('signature of %s changed' % f.qual, e)
            args = [vals[n] for n in names if n not in extra]
        eff = self.w.effects_of(name, spec)
        key = self.w.call_key(name, spec)
        av = []
        for i, a in enumerate(args):
            av.append(self.read_arg(a, i, eff))
        av += [mk('kw', k, self.value(v)) for k, v in sorted(kwargs.items())]
        exc = self.w.spec.checker(name, spec)
        if exc is not None:
            c = self.lifted_call('exc', (key,), av, 'bool')
            self.branch(t.lift(lambda x: t.truth(x), c),
                        lambda: self.raise_(exc, t.ONE if exc == 'SystemExit' else None), lambda: None)
            return t.NONE
        ret = self.lifted_call('ret', (key,), av, self.w.ret_type(spec))
        self.w.note_ret(ret, spec)
        if self.w.never_none(spec):
            t.NEVER_NONE.add(key)
        blobs = {}
        for (i, fl) in sorted(eff.writes, key=lambda x: (x[0], x[1] or '')):
            if i >= len(args):
                continue
            p = args[i]
            if p.op in ('const', 'poly'):
                continue
            bl = [x for x in t.leaves(p) if is_blob(x)]
            if bl:
                for x in bl:
                    if (i, x) in blobs:
                        continue
                    blobs[(i, x)] = 1
                    c = t.TRUE if p is x else t.mapleaves(lambda y: t.TRUE if y is x else t.FALSE, p)
                    old = self.reify(x)
                    new = self.after(key, 'p%d' % i, av, self.st.cont[x])
                    for q in [q for q in self.st.fld if q[0] is x]:
                        del self.st.fld[q]
                    self.st.cont[x] = ITE(c, new, old)
                p = t.mapleaves(lambda y: t.NONE if is_blob(y) else y, p)
                if p is t.NONE:
                    continue
            if fl is None:
                self.changed_whole(p, key, 'p%d' % i, av)
            elif fl in self.w.final_fields() and not any(is_alloc(x) and len(x.a) > 2 for x in t.leaves(p)):
                # the field is never rebound: what it refers to is changed
                for x in t.leaves(p):
                    c = t.TRUE if p is x else t.mapleaves(lambda y: t.TRUE if y is x else t.FALSE, p)
                    cur0 = self._load(self.st, x, fl, e)
                    self.changed_whole(t.mapleaves(lambda y: cur0 if y is t.TRUE else t.NONE, c), key,
                                       'p%d.%s' % (i, fl), av)
            else:
                place = 'p%d.%s' % (i, fl)
                for x in t.leaves(p):
                    c = t.TRUE if p is x else t.mapleaves(lambda y: t.TRUE if y is x else t.FALSE, p)
                    cur0 = self._load(self.st, x, fl, e)
                    cur = self.reify(cur0)
                    new = self.after(key, place, av, cur)
                    self.w.inherit(new, cur0)
                    self.clobber_field(x, fl)
                    self.st.fld[(x, fl)] = ITE(c, new, cur)
        return ret

    def changed_whole(self, p, key, place, av):
        """The call key changes what p refers to."""
        self.clobber(p)
        for x in t.leaves(p):
            if is_alloc(x):
                c = t.TRUE if p is x else t.mapleaves(lambda y: t.TRUE if y is x else t.FALSE, p)
                for (o, g) in [q for q in self.st.fld if q[0] is x]:
                    cur = self.st.fld[(o, g)]
                    self.st.fld[(o, g)] = ITE(c, self.after(key, place + '.' + g, av, cur), cur)
        self.mutate(p, lambda old: self.after(key, place, av, old))

    def default_arg(self, f, name):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        return dict(zip(names[len(names) - len(a.defaults):], a.defaults)).get(name)

    def after(self, key, place, av, old):
        r = self.lifted_call('after', (key, place), av, old.ty if old.op != 'ite' else None)
        for x in t.leaves(r):
            self.w.inherit(x, old)
        return r

    def lifted_call(self, op, head, av, ty):
        return t.lift(lambda *xs: raw(op, head + tuple(xs), ty), *av) if av else raw(op, head, ty)

    def clobber(self, p):
        """Forget what is known below p."""
        st = self.st
        hole = raw('hole', ())
        for q in t.leaves(p):
            for (o, f) in [k for k in st.fld if self.relative(k[0], q, hole) is not None]:
                if not is_alloc(o):
                    del st.fld[(o, f)]
            for o in [k for k in st.cont if k is not q and self.relative(k, q, hole) is not None]:
                del st.cont[o]

    def clobber_field(self, p, f):
        st = self.st
        base = raw('field', (p, f))
        hole = raw('hole', ())
        for (o, g) in [k for k in st.fld if self.relative(k[0], base, hole) is not None]:
            del st.fld[(o, g)]
        for o in [k for k in st.cont if self.relative(k, base, hole) is not None]:
            del st.cont[o]

    def read_arg(self, a, i, eff):
        """What the callee can see of argument i."""
        fields = {fl for (j, fl) in eff.reads | eff.writes if j == i}
        if a.op == 'ite':
            return t.mapleaves(lambda x: self.read_arg(x, i, eff), a)
        if a.op in ('const', 'poly'):
            return self.reify(a)
        if a.op == 'newobj':
            r = self.reify(a)
            if None in fields:
                return r

            def part(x):
                if x.op != 'obj':
                    return x
                return self.w.mark(raw('obj', (x.a[0], tuple((f, v) for f, v in x.a[1] if f in fields))), x.a[0])
            return t.mapleaves(part, r)
        if a.op == 'newlist':
            return self.reify(a)
        if a.op == 'closure':
            return self.lam(a)
        r = self.reify(a)
        if r.op == 'st' and None not in fields:
            # only the fields it touches
            cells = tuple((d, v) for d, v in r.a[1] if self.root_field(d) in fields)
            base = r.a[0]
            return raw('st', (base, cells)) if cells else base
        if r.op == 'ite' and None not in fields:
            def f(x):
                if x.op == 'st':
                    cells = tuple((d, v) for d, v in x.a[1] if self.root_field(d) in fields)
                    return raw('st', (x.a[0], cells)) if cells else x.a[0]
                return x
            return t.mapleaves(f, r)
        return r

    def root_field(self, d):
        while d.op in ('field', 'idx'):
            if d.a[0].op == 'hole':
                return d.a[1] if d.op == 'field' else None
            d = d.a[0]
        return None

    def lam(self, fn):
        """A function value as a term: its body over bound parameters."""
        node = fn.a[1].node
        vs = [t.fresh() for _ in node.args.posonlyargs + node.args.args]
        g, exits, ctx = self.g, self.exits, self.ctx
        self.exits = []
        self.ctx = AND(ctx, g)
        self.g = t.TRUE
        st = self.st
        self.st = st.copy()
        try:
            v = self.reify(self.apply(fn, vs, {}, node))
            outs = [x for x in self.exits if x.kind == 'raise']
            for x in outs:
                v = ITE(x.g, x.val, v)
        finally:
            self.exits, self.g, self.ctx, self.st = exits, g, ctx, st
        return t.close('lam', vs, (), (v,), (), None)

    # ------------------------------------------------------------------ construction
    def construct(self, qual, pos, kw, e):
        c = self.w.cls(qual)
        if c is None:
            return self.external(qual, pos, kw, e)
        root = self.w.external_root(c)
        if root in self.STREAM_EXT and self.w.prog.lookup(c, '__init__') is None:
            p = self.new_object(qual)
            args = [self.value(x) for x in pos]
            self.st.cont[p] = args[0] if args else const(b'' if self.STREAM_EXT[root] == 'bytes' else '')
            self.st.fld[(p, '$pos')] = t.ZERO
            return p
        if self.w.is_enum(c):
            return self.enum_call(c, pos, e)
        init = self.w.prog.lookup(c, '__init__')
        ext = self.w.external_base(c)
        if ext or not self.policy.construct_inline(self, c) or any(x.op == 'star' for x in pos):
            f = init if isinstance(init, Func) else None
            if f is None or any(x.op == 'star' for x in pos) or '**' in kw:
                args = [self.value(x) for x in pos] + [mk('kw', k, self.value(v)) for k, v in sorted(kw.items())]
                r = self.lifted_call('new', (qual,), args, None)
                return self.blob(qual, r)
            cf = self.w.canonical(f)
            if cf.params_all() != f.params_all():
                raise Undecided('signature of %s changed' % f.qual, e)
            try:
                names, vals = self.bind_args(cf, [t.NONE] + list(pos), kw, e, 0)
            except BadCall:
                self.raise_('TypeError')
                return t.undef()
            eff = self.w.effects_of('__init__', self.w.canonical(f))
            av = [self.read_arg(vals[n], i + 1, eff) for i, n in enumerate(names[1:])]
            r = self.blob(qual, self.lifted_call('new', (qual,), av, None))
            for (i, fl) in sorted(eff.writes, key=lambda x: (x[0], x[1] or '')):
                if i == 0 or i >= len(names):
                    continue
                p = vals[names[i]]
                if p.op in ('const', 'poly'):
                    continue
                key = self.w.call_key('__init__', self.w.canonical(f))
                if fl is None:
                    self.clobber(p)
                    self.mutate(p, lambda old: self.after(key, 'p%d' % i, av, old))
                else:
                    for x in t.leaves(p):
                        cur = self._load(self.st, x, fl, e)
                        self.st.fld[(x, fl)] = self.after(key, 'p%d.%s' % (i, fl), av, cur)
            # two constructions are two objects
            return r
        p = self.new_object(qual)
        # the Cython default values
        if isinstance(init, Func):
            self.inlined.add(init.qual)
            try:
                names, vals = self.bind_args(init, [p] + list(pos), kw, e, 0)
            except BadCall:
                self.raise_('TypeError')
                return t.undef()
            env = {n: vals[n] for n in names}
            self.type_params(init, env)
            self.run_body(init.node, env, init, init.module, init.cls, names[0], e)
        return p

    def blob(self, qual, content):
        """A new object whose fields are only known as a whole."""
        p = self.new_object(qual, 'blob')
        self.st.cont[p] = content
        return p

    def enum_call(self, c, pos, e):
        return mk('enumval', c.qual, self.value(pos[0]))

    def enum_item(self, o, i, e):
        def f(i):
            if i.op == 'const':
                return raw('glob', (o.a[0] + '.' + str(t.cval(i)),))
            return raw('enumitem', (o.a[0], i))
        c = self.w.cls(o.a[0])
        if self.handlers:
            self.maybe_raise('KeyError', NOT(t.atom(raw('truthy', (mk('enumhas', o.a[0], i, ty='bool'),)))))
        return t.lift(f, i)

    # ------------------------------------------------------------------ methods
    def call_attr(self, e, f):
        base = f.value
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == 'super':
            fr = self.frames[-1]
            o = self.st.env[fr.selfname] if fr.selfname else sym('cls')
            for b in self.w.prog.mro(fr.cls)[1:]:
                m = b.methods.get(f.attr)
                if m is not None:
                    pos, kw = self.args_of(e)
                    return self.invoke(m, [o] + pos, kw, e, recv=o)
            pos, kw = self.args_of(e)
            if f.attr == '__init__':
                return t.NONE
            return mk('superext', f.attr, *[self.value(x) for x in pos])
        o = self.expr(base)
        if self.g is t.FALSE:
            return t.undef()
        if o.op in ('modref', 'extref'):
            r = self.attr(o, f.attr, f)
            return self.call_value(r, e)
        if o.op == 'classref':
            m = self.w.prog.lookup(self.w.cls(o.a[0]), f.attr)
            if isinstance(m, Func):
                pos, kw = self.args_of(e)
                if m.kind == 'classmethod':
                    pos = [o] + pos
                return self.invoke(m, pos, kw, e)
            return self.call_value(self.attr(o, f.attr, f), e)
        if f.attr in LOGNAMES and self.is_logger(o, base):
            self.args_of_quiet(e)
            return t.NONE
        pos, kw = self.args_of(e)
        if self.g is t.FALSE:
            return t.undef()
        return self.call_method(o, f.attr, pos, kw, e)

    def is_logger(self, o, base):
        if self.frames[-1].module.name.endswith('command_line') or self.frames[0].module.name.endswith('command_line'):
            return False
        s = ast.unparse(base)
        if 'logger' in s or 'logging' in s:
            return True
        return any(x.op == 'ext' and x.a[0] == 'logging.getLogger' for x in t.leaves(o))

    def args_of_quiet(self, e):
        """Arguments of a logging call: only evaluated for their effects on known state (none is expected)."""

    def call_method(self, o, name, pos, kw, e):
        if o.op == 'ite':
            same = self.w.common_cls(o)
            ls = t.leaves(o)
            if any(x is t.NONE or x.op == 'undef' for x in ls) or same is None or any(is_alloc(x) for x in ls):
                if len(ls) <= 6:
                    def go(x):
                        if x.op != 'ite':
                            if x is t.NONE:
                                self.raise_('AttributeError')
                                return t.undef()
                            return self.call_method(x, name, pos, kw, e)
                        return self.branch(t.atom(x.a[0]), lambda: go(x.a[1]), lambda: go(x.a[2]))
                    return go(o)
        if name == 'is_absolute' and o.op == 'ext' and o.a[0] == 'pathlib.Path' and len(o.a) == 2 and not pos:
            return self.external('os.path.isabs', [o.a[1]], {}, e)
        if o.op == 'superref':
            o = o.a[1]
        if o.op == 'bound':
            pass
        cn = self.w.cls_of(o) if o.op != 'ite' else self.w.common_cls(o)
        d = self.deref(o)
        if cn is not None:
            k = self.w.cls(cn)
            m = self.w.prog.lookup(k, name) if k is not None else None
            if isinstance(m, Func):
                if m.kind == 'property':
                    return self.call_leaf(self.invoke(m, [o], {}, e), pos, kw, e)
                args = pos if m.kind == 'staticmethod' else [raw('classref', (cn,))] + pos if m.kind == 'classmethod' else [o] + pos
                if self.w.overridden(k, name) and not is_alloc(o) and not (o.op == 'new'):
                    return self.opaque(name, [m], args, kw, e)
                return self.invoke(m, args, kw, e, recv=o)
            if isinstance(m, Class):
                return self.construct(m.qual, pos, kw, e)
            fv = self.st.fld.get((o, name)) if o.op != 'ite' else None
            if fv is not None:
                return self.call_leaf(fv, pos, kw, e)
            if k is not None and (cn, name) in self.w.fieldnames and not self.w.external_base(k):
                return self.call_leaf(self.load(o, name, e), pos, kw, e)
        else:
            builtin_like = self.builtin_receiver(d)
            if not builtin_like:
                ms = self.w.methods_named(name, len(pos) + len(kw), o)
                if ms and not (name in BUILTIN_MUT or name in PURE or name in ('get', 'index', 'format', 'join', 'copy',
                                                                               'read', 'write', 'close', 'seek')):
                    if len(ms) == 1 and not self.w.overridden(ms[0].cls, name):
                        m = ms[0]
                        args = pos if m.kind == 'staticmethod' else [o] + pos
                        if m.kind != 'staticmethod' and o.op != 'ite' and m.cls is not None:
                            self.w.tcls.setdefault(o, m.cls.qual)
                        return self.invoke(m, args, kw, e, recv=o)
                    args = pos if ms[0].kind == 'staticmethod' else [o] + pos
                    return self.opaque(name, ms, args, kw, e)
        return self.builtin_method(o, d, name, pos, kw, e)

    def builtin_receiver(self, d):
        return all(x.ty in ('str', 'bytes', 'list', 'dict', 'set', 'tuple', 'path', 'int', 'nat') or x.op in ('seq', 'dict', 'setof')
                   for x in t.leaves(d))

    def builtin_method(self, o, d, name, pos, kw, e):
        v = [self.value(x) if x.op != 'closure' else x for x in pos]
        if not kw and name in self.STREAM:
            r = self.stream_method(o, name, v, e)
            if r is not None:
                return r
        if name in SELFRET and not pos:
            if any(x.ty in ('list', 'set', 'dict') for x in t.leaves(d)):
                return self.fresh_list(d)
            return d
        if name == 'append' and len(pos) == 1:
            x = pos[0]
            self.mutate(o, lambda c: t.concat([c, t.seq([x])], 'list'))
            return t.NONE
        if name == 'extend' and len(pos) == 1:
            x = self.seqval(pos[0])
            self.mutate(o, lambda c: t.concat([c, x], 'list'))
            return t.NONE
        if name == 'insert' and len(pos) == 2:
            i, x = v[0], pos[1]
            self.mutate(o, lambda c: t.concat([t.slice_(c, t.ZERO, i), t.seq([x]), t.slice_(c, i, t.NONE)], 'list'))
            return t.NONE
        if name == 'clear' and not pos:
            self.mutate(o, lambda c: t.lift(lambda y: t.empty(y.ty if y.ty in ('set', 'dict') else 'list'), c))
            return t.NONE
        if name == 'pop':
            if not pos:
                r = t.lift(lambda c: t.idx(c, const(-1)), d)
                self.mutate(o, lambda c: t.slice_(c, t.ZERO, sub(length(c), t.ONE)))
                return r
            if len(pos) == 1 and (t.isint(v[0])):
                r = self.elem(o, d, v[0] if not (t.is_const(v[0]) and t.cval(v[0]) < 0) else add(length(d), v[0]))
                i = v[0]
                self.mutate(o, lambda c: self.del_index(c, i))
                return r
            r = mk('m', 'pop', self.snapshot(d), *v)
            self.mutate(o, lambda c: mk('delitem', c, v[0], ty=c.ty))
            return r
        if name == 'remove' and len(pos) == 1:
            self.mutate(o, lambda c: mk('removed', c, v[0], ty=c.ty if c.op != 'ite' else None))
            return t.NONE
        if name == 'reverse' and not pos:
            self.mutate(o, lambda c: self.deref(self.reversed_list(c)))
            return t.NONE
        if name == 'sort':
            self.mutate(o, lambda c: self.sorted_term(c, kw))
            return t.NONE
        if name == 'add' and len(pos) == 1:
            self.mutate(o, lambda c: t.lift(lambda y: self.set_add(y, v[0]), c))
            return t.NONE
        if name == 'discard' and len(pos) == 1:
            self.mutate(o, lambda c: mk('removed', c, v[0], ty='set'))
            return t.NONE
        if name == 'update' and not pos and kw and '**' not in kw and d.op == 'dict':
            for k, x in kw.items():
                self.mutate(o, lambda c: t.lift(lambda y: t.upd(y, const(k), self.value(x)), c))
            return t.NONE
        if name == 'update' and len(pos) == 1 and not kw:
            z = self.snapshot(self.seqval(pos[0])) if all(x.ty == 'list' for x in t.leaves(v[0])) else v[0]
            self.mutate(o, lambda c: t.lift(lambda y, z: self.dict_update(y, z), c, z))
            return t.NONE
        if name == 'setdefault':
            i, dv = v[0], pos[1] if len(pos) > 1 else t.NONE
            present = t.IN(i, d)

            def miss():
                self.mutate(o, lambda y: t.lift(lambda z: t.upd(z, i, dv), y))
                if is_alloc(dv):
                    self.st.par[dv] = (o, i)
                return dv
            return self.branch(present, lambda: self.elem(o, self.deref(o), i), miss)
        if name == 'get' and 1 <= len(pos) <= 2 and not kw:
            isdict = any(x.ty in ('dict', 'defaultdict') or x.op == 'dict' for x in t.leaves(d)) or d.ty is None
            if isdict and not (d.op == 'new'):
                dv = pos[1] if len(pos) == 2 else t.NONE
                return t.lift(lambda d: dv if d.op in ('dict', 'seq') and not d.a else ITE(t.IN(v[0], d), self.elem(o, d, v[0]), dv), d)
        if name == 'index' and len(pos) == 1:
            if self.handlers:
                self.maybe_raise('ValueError', NOT(t.IN(v[0], d)))
            return t.lift(self.fold_method, mk('m', 'index', self.snapshot(d), v[0], ty='nat'))
        if name == 'join' and len(pos) == 1:
            x = self.seqval(pos[0])
            return t.join(self.value(d), self.snapshot(x))
        if name == 'format':
            return self.format(d, v, {k: self.value(x) for k, x in kw.items()}, e)
        if name in ('intersection', 'difference', 'isdisjoint', 'union') and len(pos) == 1:
            s = d if d.ty == 'set' else d
            z = v[0]
            z = self.mkset(z) if any(x.ty == 'list' for x in t.leaves(z)) else z
            if name == 'difference':
                return t.lift(lambda a, b: mk('setminus', a, b, ty='set'), d, z)
            if name == 'union':
                return t.lift(lambda a, b: self.bitop(ast.BitOr(), a, b), d, z)
            r = t.lift(lambda a, b: self.bitop(ast.BitAnd(), a, b), d, z)
            return NOT(t.truth(r)) if name == 'isdisjoint' else r
        if name in ('encode', 'decode'):
            enc = v[0] if v else kw.get('encoding', const('utf-8'))
            if enc.op == 'const':
                s = t.cval(enc).lower().replace('_', '-')
                enc = const({'utf8': 'utf-8', 'utf-16le': 'utf-16-le', 'utf16le': 'utf-16-le'}.get(s, s))
            rest = list(v[1:]) + [mk('kw', k, self.value(x)) for k, x in sorted(kw.items()) if k != 'encoding']
            return mk('m', name, self.value(d), enc, *rest, ty='bytes' if name == 'encode' else 'str')
        if name == 'items' and not pos:
            return mk('m', 'items', self.snapshot(d), ty='list')
        if name == 'keys' and not pos:
            return mk('m', 'keys', self.snapshot(d), ty='list')
        if name == 'values' and not pos:
            def vals(dd):
                k = t.fresh('nat')
                ks = raw('keys', (dd,), 'list')
                return t.mk_bigcat(k, length(ks), t.seq([idx(dd, idx(ks, k))]), 'list')
            return t.lift(vals, self.snapshot(d))
        if name == 'to_bytes':
            args, rest = self.norm_args('int.to_bytes', [self.value(d)] + v, {k: self.value(x) for k, x in kw.items()})
            return mk('m', 'to_bytes', *args, *[mk('kw', k, x) for k, x in sorted(rest.items())], ty='bytes')
        if name in PURE:
            if name in ('match', 'fullmatch', 'search', 'sub'):
                pat = self.value(d)
                return self.external('re.' + name, [d] + pos, kw, e)
            args = list(v) + [mk('kw', k, self.value(x)) for k, x in sorted(kw.items())]
            args = [self.lam(x) if x.op == 'closure' else x for x in args]
            r = mk('m', name, self.snapshot(d), *args, ty=PURE[name])
            return self.fold_method(r) if r.op == 'm' else t.mapleaves(lambda x: self.fold_method(x), r)
        if name in ('readlines',) and not pos:
            return mk('m', 'readlines', self.snapshot(d), ty='list')
        if name in ('close', 'flush') and not v and all(x.op == 'ext' and x.a[0] in ('open', 'mmap.mmap') for x in t.leaves(o)):
            return t.NONE
        if name in LOGNAMES and 'logger' in ast.unparse(e.func if isinstance(e, ast.Call) else e):
            pass
        if name in ('add_argument', 'add_parser', 'add_subparsers', 'add_argument_group'):
            # texts shown in the help are no behaviour
            kw = {k: x for k, x in kw.items() if k not in ('help', 'metavar', 'description')}
            if name == 'add_argument_group':
                v = []
        # an unknown method: its result depends on the receiver's state, which it may change
        args = [self.lam(x) if x.op == 'closure' else x for x in v] + \
            [mk('kw', k, self.value(x)) for k, x in sorted(kw.items())]
        cur = self.snapshot(d)
        ty = {'read': 'bytes', 'read_byte': 'byte', 'readline': 'str', 'tell': 'nat', 'size': 'nat'}.get(name)
        if name == 'read' and any(self.w.text_stream(x) for x in t.leaves(o)):
            ty = 'str'
        r = mk('ret', name, cur, *args, ty=ty)
        self.mutate(o, lambda c: t.lift(lambda y, *xs: self.w.inherit(raw('after', (name, 'o', y) + xs, y.ty), y),
                                        self.snapshot(c), *args))
        return r

    def set_add(self, c, x):
        if c.op == 'seq' and x.op in ('const', 'glob') and c.ty == 'set':
            return raw('seq', tuple(sorted(set(c.a) | {x}, key=lambda y: y.id)), 'set')
        if c.op == 'setof':
            return t.lift(lambda y: raw('setof', (y,), 'set'), t.concat([c.a[0], t.seq([x])], 'list'))
        if c.op == 'seq' and c.ty == 'set' and not c.a:
            return t.lift(lambda y: raw('setof', (y,), 'set'), t.seq([x], 'list'))
        return mk('setadd', c, x, ty='set')

    def dict_update(self, c, d):
        if d.op == 'dict':
            for k, v in d.a:
                c = t.upd(c, k, v)
            return c
        if d.op == 'seq' and d.ty in ('dict', 'set') and not d.a:
            return c
        if c.ty in ('dict', 'defaultdict') and d.op == 'seq' and all(x.op == 'seq' and len(x.a) == 2 for x in d.a):
            for x in d.a:
                c = t.upd(c, x.a[0], x.a[1])
            return c
        if c.ty in ('dict', 'defaultdict') and d.ty == 'list':
            k, s = t.fresh('nat'), t.fresh(c.ty)
            x = t.idx(d, k)
            return t.mk_rec(k, [s], [c], [t.upd(s, t.idx(x, t.ZERO), t.idx(x, t.ONE))], t.count_of(d), 0)
        return raw('update', (c, d), c.ty)

    def sorted_term(self, c, kw):
        args = []
        for k, v in sorted(kw.items()):
            x = self.lam(v) if v.op == 'closure' else self.value(v)
            args.append(mk('kw', k, x))
        c = self.snapshot(self.seqval(c))
        if c.op == 'sorted' and [k for k in kw] == ['key'] and len(c.a) == 2 and c.a[1].a[0] == 'key':
            r = twokeys(args[0].a[1], c.a[1].a[1])
            if r is not None:
                return mk('sorted', c.a[0], mk('kw', 'key', r), ty='list')
        return mk('sorted', c, *args, ty='list')

    def fold_method(self, r):
        if r.op != 'm':
            return r
        name, xs = r.a[0], r.a[1:]
        if all(isinstance(x, T) and x.op == 'const' for x in xs):
            try:
                v = getattr(t.cval(xs[0]), name)(*[t.cval(x) for x in xs[1:]])
                if isinstance(v, (str, int, bool, bytes)):
                    return const(v)
                if isinstance(v, list) and all(isinstance(y, str) for y in v):
                    return t.seq([const(y) for y in v])
            except Exception:
                pass
        if name == 'index' and len(xs) == 2 and xs[0].op == 'concat' and xs[0].a[-1].op == 'seq' and \
                len(xs[0].a[-1].a) == 1 and xs[0].a[-1].a[0] is xs[1]:
            rest = t.concat(xs[0].a[:-1], xs[0].ty)
            return ITE(t.IN(xs[1], rest), mk('m', 'index', rest, xs[1], ty='nat'), t.length(rest))
        if name in t.STRIPS and len(xs) == 1 and xs[0].op == 'm' and xs[0].a[0] in t.STRIPS and len(xs[0].a) == 2:
            if xs[0].a[0] in (name, 'strip'):
                return xs[0]
            return mk('m', 'strip', xs[0].a[1], ty='str')
        if r.ty == 'bool':
            return t.truth(r)
        return r

    def format(self, d, v, kw, e):
        if d.op != 'const':
            return mk('m', 'format', d, *v, ty='str')
        import string
        try:
            parts = list(string.Formatter().parse(t.cval(d)))
        except ValueError:
            raise Undecided('format string', e)
        out, auto = [const('')], 0
        for lit, field, spec, conv in parts:
            out.append(const(lit))
            if field is None:
                continue
            if field == '':
                x = v[auto] if auto < len(v) else t.undef()
                auto += 1
            elif field.isdigit():
                x = v[int(field)] if int(field) < len(v) else t.undef()
            elif field in kw:
                x = kw[field]
            else:
                raise Undecided('format field', e)
            if spec or conv:
                out.append(mk('fmtspec', x, const(spec or ''), ty='str'))
            else:
                out.append(self.tostr(x))
        return t.concat(out, 'str')


def twokeys(first, second):
    """The key that orders like sorting by the second key and then, stably, by the first."""
    if first.op != 'lam' or second.op != 'lam':
        return None
    vs, (a,) = t.open_binder(first)
    ws, (b,) = t.open_binder(second)
    if len(vs) != 1 or len(ws) != 1:
        return None
    b = t.subst(b, {ws[0]: vs[0]})

    def parts(x):
        return list(x.a) if x.op == 'seq' and x.ty == 'tuple' else [x]
    if any(x.op == 'ite' or x.ty == 'tuple' and x.op != 'seq' for x in (a, b)):
        return None
    return t.mk_lam(vs, t.seq(parts(a) + parts(b), 'tuple'))


def is_blob(x):
    return x.op == 'newobj' and len(x.a) > 2


def is_generator(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False
