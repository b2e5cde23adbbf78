"""Gated value-flow summaries of functions.

Every function is abstracted once, statement by statement, over its syntax tree: the abstract value of a variable
is a term (see terms.py), a condition is a decision diagram, a join merges by condition, a loop is closed into
search / comprehension / recurrence terms.  No path is enumerated, nothing is executed and nothing is solved.

The summary of a function is a set of facets: the outcome (returned value or raised class under which condition)
and the final state of everything reachable from its parameters and from the module level.
"""
import ast
from . import terms as t
from .terms import T, const, sym, glob, raw, mk, ITE, AND, OR, NOT, EQ, LT, add, sub, ge0, truth, idx, length, lift
from .frontend import Func, Class, Module, Unsupported

MAXDEPTH = 12


class Undecided(Exception):
    """The function uses something the summariser has no model for."""

    def __init__(self, why, node=None):
        line = getattr(node, 'lineno', None)
        super().__init__('%s%s' % (why, ' (line %d)' % line if line else ''))
        self.why = why


class St:
    __slots__ = ('env', 'cont', 'fld', 'par', 'live')

    def __init__(self):
        self.env, self.cont, self.fld, self.par, self.live = {}, {}, {}, {}, frozenset()

    def copy(self):
        s = St()
        s.env, s.cont, s.fld, s.par = dict(self.env), dict(self.cont), dict(self.fld), dict(self.par)
        s.live = self.live
        return s


class Exit:
    __slots__ = ('kind', 'g', 'st', 'val', 'env')

    def __init__(self, kind, g, st, val=None):
        self.kind, self.g, self.st, self.val = kind, g, st, val


class Frame:
    def __init__(self, func, module, cls, depth):
        self.func, self.module, self.cls, self.depth = func, module, cls, depth
        self.selfname = None
        self.localfuncs = {}


_uid = [0]


def newptr(op, *info, ty=None):
    _uid[0] += 1
    return raw(op, (_uid[0],) + info, ty)


def is_alloc(x):
    return x.op in ('newlist', 'newobj')


IMMUT = ('const', 'poly', 'glob', 'len', 'closure')


class Base:
    """State handling."""

    def __init__(self, world, policy):
        self.w = world              # World: program + tables
        self.policy = policy
        self.st = St()
        self.g = t.TRUE
        self.ctx = t.TRUE
        self.exits = []
        self.frames = []
        self.notes = set()
        self.inlined = set()
        self.called = set()
        self.loops = 0
        self.handlers = []          # enclosing try bodies with handlers

    def new_object(self, cn, *info):
        p = self.w.mark(newptr('newobj', cn, *info), cn)
        self.st.live = self.st.live | {p}
        return p

    # ------------------------------------------------------------------ reading
    def deref(self, v, st=None):
        st = st or self.st

        def f(x):
            return st.cont.get(x, x)
        if v.op == 'ite':
            return t.mapleaves(f, v)
        return f(v)

    def load(self, o, name, node=None):
        st = self.st
        v = t.lift(lambda x: self._load(st, x, name, node), o)
        return v

    def _load(self, st, o, name, node):
        r = st.fld.get((o, name))
        if r is not None:
            return r
        if o.op == 'newobj' and len(o.a) == 2:
            c = self.w.cls(o.a[1])
            if c is not None:
                v = self.w.class_attr(self, c, name)
                if v is not None:
                    return v
                cf = self.w.cfields(c)
                if name in cf:
                    ty = cf[name]
                    return t.ZERO if ty in ('int', 'long', 'unsigned int', 'bint', 'long long', 'short') else t.NONE
            return t.undef()
        base = st.cont.get(o, o)
        if base.op == 'ite':
            return t.lift(lambda b: self._field(o, b, name), base)
        return self._field(o, base, name)

    def _field(self, o, base, name):
        ty = None
        cn = self.w.cls_of(o) or self.w.cls_of(base)
        if cn is not None:
            ci = self.w.field_const(self, cn, name)
            if ci is not None:
                return ci
            ty, fc, ec = self.w.field_type(cn, name)
            r = t.mkfield(base, name, ty)
            for x in t.leaves(r):
                if x.op == 'field':
                    if fc:
                        self.w.tcls.setdefault(x, fc)
                    if ec:
                        self.w.ecls.setdefault(x, ec)
            return r
        return t.mkfield(base, name, ty)

    # ------------------------------------------------------------------ writing
    def store(self, o, name, v):
        st = self.st
        if o.op != 'ite':
            st.fld[(o, name)] = v
            return
        for x in t.leaves(o):
            c = t.mapleaves(lambda y: t.TRUE if y is x else t.FALSE, o)
            old = self._load(st, x, name, None)
            st.fld[(x, name)] = ITE(c, v, old)

    def mutate(self, p, fn):
        """Replace the content of what p refers to: fn(old content) -> new content."""
        if p.op == 'ite':
            for x in t.leaves(p):
                c = t.mapleaves(lambda y: t.TRUE if y is x else t.FALSE, p)
                self._mutate(x, lambda old: ITE(c, fn(old), old))
        else:
            self._mutate(p, fn)

    def _mutate(self, p, fn):
        if p.op in ('const', 'undef', 'poly'):
            return
        old = self.st.cont.get(p, p)
        new = fn(old)
        st = self.st
        if new is old:
            return
        st.cont[p] = new
        q = st.par.get(p)
        if q is not None:
            cont, i = q
            self._mutate(cont, lambda c: t.lift(lambda y: t.upd(y, i, new if new.op != 'ite' else new), c))

    # ------------------------------------------------------------------ values leaving their scope
    def snapshot(self, c, st=None, mark=None, stack=(), own=None):
        """The content c with every reference in it replaced by what it refers to.

        A place that is (part of) a content stands for what it held when the content was taken; own: the place
        c is the content of now."""
        st = st or self.st
        if c.op == 'ite':
            return t.mapleaves(lambda x: self.snapshot(x, st, mark, stack, own), c)
        if c is own:
            return c
        if c.op == 'concat':
            xs = [self.snapshot(x, st, mark, stack, own) for x in c.a]
            if any(x is not y for x, y in zip(xs, c.a)):
                return t.concat(xs, c.ty)
            return c
        if c.op == 'upd':
            a, b = self.snapshot(c.a[0], st, mark, stack, own), self.reify(c.a[2], st, mark, stack)
            if a is not c.a[0] or b is not c.a[2]:
                return t.upd(a, c.a[1], b)
            return c
        if c in st.cont and c.op not in ('newlist', 'newobj'):
            cells = self.cells_of(c, st, stack) if mark is None else ()
            if cells:
                return t.lift(lambda b, *xs: t.mkst(b, tuple((d, x) for (d, _), x in zip(cells, xs))),
                              c, *[x for d, x in cells])
            return c
        return self.reify(c, st, mark, stack)

    def reify(self, v, st=None, mark=None, stack=()):
        """v with every reference replaced by what it refers to (only allocations after mark if given)."""
        st = st or self.st
        if v.op == 'ite':
            return t.mapleaves(lambda x: self.reify(x, st, mark, stack), v)
        if v.op in ('const', 'poly', 'bv', 'undef', 'hole'):
            return v
        if v in stack:
            return raw('cyc', (len(stack) - stack.index(v),))
        if v.op == 'newlist':
            if mark is not None and v.a[0] <= mark:
                return v
            return self.snapshot(st.cont[v], st, mark, stack + (v,))
        if v.op == 'newobj':
            if mark is not None and v.a[0] <= mark:
                return v
            fs = sorted((f, x) for (o, f), x in st.fld.items() if o is v)
            s2 = stack + (v,)
            if len(v.a) > 2:
                base = self.snapshot(st.cont[v], st, mark, s2)
                if not fs:
                    return base
                hole = raw('hole', ())
                return t.lift(lambda b, *xs: self.w.mark(t.mkst(b, tuple((t.mkfield(hole, f), x) for (f, _), x in zip(fs, xs))), v.a[1]),
                              base, *[self.reify(x, st, mark, s2) for f, x in fs])
            vals = [self.reify(x, st, mark, s2) for f, x in fs]
            names = [f for f, x in fs]
            cn = v.a[1]
            if v in st.cont:
                names.append('*')
                vals.append(self.snapshot(st.cont[v], st, mark, s2) if st.cont[v] is not v else v)
            return t.lift(lambda *xs: self.w.mark(raw('obj', (cn, tuple(zip(names, xs)))), cn), *vals) if vals else \
                self.w.mark(raw('obj', (cn, ())), cn)
        if v.op == 'seq':
            if any(x.op not in ('const', 'poly') for x in v.a):
                xs = [self.reify(x, st, mark, stack) for x in v.a]
                if any(x is not y for x, y in zip(xs, v.a)):
                    return t.seq(xs, v.ty)
            return v
        if v.op in ('concat', 'upd'):
            return self.snapshot(v, st, mark, stack)
        if v.op == 'dict':
            xs = [(k, self.reify(x, st, mark, stack)) for k, x in v.a]
            return t.lift(lambda *ys: raw('dict', tuple((k, y) for (k, _), y in zip(xs, ys)), 'dict'), *[x for k, x in xs]) \
                if xs else v
        if mark is not None:
            return v
        c = st.cont.get(v)
        if c is not None and c is not v:
            base = self.snapshot(c, st, mark, stack + (v,), v)
        else:
            base = v
        cells = self.cells_of(v, st, stack)
        if cells:
            return t.lift(lambda b, *xs: t.mkst(b, tuple((d, x) for (d, _), x in zip(cells, xs))),
                          base, *[x for d, x in cells])
        return base

    def cells_of(self, o, st, stack=()):
        """[(place relative to o, value)] of the changed places below o."""
        out = {}
        hole = raw('hole', ())
        for (p, f), x in st.fld.items():
            d = self.relative(p, o, hole)
            if d is None:
                continue
            val = t.boolval(self.reify(x, st, None, stack + (o,)))
            if p is o and st.cont.get(o, o) is o and val is t.boolval(t.mkfield(o, f)):
                continue
            out[t.mkfield(d, f)] = val
        for p, c in st.cont.items():
            if p is o or p.op == 'idx' or c is p:
                continue
            d = self.relative(p, o, hole)
            if d is None or d in out:
                continue
            if d.op == 'field' and (p.a[0], p.a[1]) in st.fld:
                continue
            out[d] = self.reify(p, st, None, stack + (o,)) if p not in stack else c
        return sorted(out.items(), key=lambda kv: t.show(kv[0]))

    def relative(self, p, o, hole, depth=0):
        if p is o:
            return hole
        if depth > 6:
            return None
        if p.op == 'field':
            d = self.relative(p.a[0], o, hole, depth + 1)
            return None if d is None else t.mkfield(d, p.a[1])
        if p.op == 'idx':
            d = self.relative(p.a[0], o, hole, depth + 1)
            return None if d is None else raw('idx', (d, p.a[1]))
        return None

    # ------------------------------------------------------------------ joins
    def merge(self, c, s1, g1, s2, g2):
        if g1 is t.FALSE:
            return s2
        if g2 is t.FALSE:
            return s1
        r = St()
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is b:
                r.env[k] = a
            elif isinstance(a, T) or isinstance(b, T):
                r.env[k] = ITE(c, a if a is not None else t.undef(), b if b is not None else t.undef())
        for k in set(s1.cont) | set(s2.cont):
            a, b = s1.cont.get(k), s2.cont.get(k)
            if a is b:
                r.cont[k] = a
            elif is_alloc(k) and (a is None or b is None):
                r.cont[k] = a if b is None else b
            else:
                r.cont[k] = ITE(c, a if a is not None else k, b if b is not None else k)
        for k in set(s1.fld) | set(s2.fld):
            a, b = s1.fld.get(k), s2.fld.get(k)
            if a is b:
                r.fld[k] = a
            elif is_alloc(k[0]) and (a is None or b is None) and k[0] not in (s2 if b is None else s1).live:
                r.fld[k] = a if b is None else b
            else:
                if a is None:
                    a = self._load(s1, k[0], k[1], None)
                if b is None:
                    b = self._load(s2, k[0], k[1], None)
                r.fld[k] = ITE(c, a, b)
        r.par = dict(s1.par)
        r.par.update(s2.par)
        r.live = s1.live | s2.live
        return r

    def merge_list(self, items):
        """[(guard, state, value or None)] -> (guard, state, value); values are canonical where the guard holds."""
        items = [x for x in items if x[0] is not t.FALSE]
        if not items:
            return t.FALSE, None, None
        g, st, v = items[-1]
        for g1, s1, v1 in reversed(items[:-1]):
            st = self.merge(g1, s1, g1, st, g)
            if v is not None:
                v = ITE(g1, v1, v)
            g = OR(g1, g)
        if len(items) > 1:
            st = self.constrained(st, g)
            if v is not None:
                v = t.constrain(v, AND(self.ctx, g))
        return g, st, v

    def constrained(self, st, g, restrict=False):
        if g.op != 'ite':
            return st
        r = St()
        r.par = st.par
        r.live = st.live
        for d, e in ((st.env, r.env), (st.cont, r.cont), (st.fld, r.fld)):
            for k, v in d.items():
                e[k] = t.constrain(v, g, restrict) if isinstance(v, T) and v.op == 'ite' else v
        return r

    def branch(self, c, f1, f2):
        """Evaluate f1 where c, f2 otherwise; returns the merged value."""
        c = t.constrain(c, AND(self.ctx, self.g), True)
        if c is t.TRUE:
            return f1()
        if c is t.FALSE:
            return f2()
        g0, base = self.g, self.st
        self.st = self.constrained(base.copy(), c, True)
        self.g = AND(g0, c)
        v1 = f1() if self.g is not t.FALSE else None
        s1, g1 = self.st, self.g
        self.st = self.constrained(base.copy(), NOT(c), True)
        self.g = AND(g0, NOT(c))
        v2 = f2() if self.g is not t.FALSE else None
        s2, g2 = self.st, self.g
        self.st = self.merge(c, s1, g1, s2, g2)
        self.g = OR(g1, g2)
        if g1 is t.FALSE or v1 is None:
            return v2 if v2 is not None else v1
        if g2 is t.FALSE or v2 is None:
            return v1
        return ITE(c, v1, v2)

    def raise_(self, cls, val=None):
        leaf = raw('raise', (cls,)) if val is None else raw('raise', (cls, val))
        self.exits.append(Exit('raise', self.g, self.st.copy(), leaf))
        self.g = t.FALSE

    def maybe_raise(self, cls, cond):
        """An exception point inside a try body that handles it."""
        for hs in reversed(self.handlers):
            if any(h in EXC_UP.get(cls, (cls, 'Exception', 'BaseException')) for h in hs):
                break
        else:
            return
        c = t.constrain(cond, AND(self.ctx, self.g), True)
        if c is t.FALSE:
            return
        self.exits.append(Exit('raise', AND(self.g, c), self.st.copy(), raw('raise', (cls,))))
        self.g = AND(self.g, NOT(c))


EXC_UP = {
    'KeyError': ('KeyError', 'LookupError', 'Exception', 'BaseException'),
    'IndexError': ('IndexError', 'LookupError', 'Exception', 'BaseException'),
    'ValueError': ('ValueError', 'Exception', 'BaseException'),
    'AttributeError': ('AttributeError', 'Exception', 'BaseException'),
    'ModuleNotFoundError': ('ModuleNotFoundError', 'ImportError', 'Exception', 'BaseException'),
    'NotImplementedError': ('NotImplementedError', 'RuntimeError', 'Exception', 'BaseException'),
    'IOError': ('IOError', 'OSError', 'EnvironmentError', 'Exception', 'BaseException'),
    'OSError': ('IOError', 'OSError', 'EnvironmentError', 'Exception', 'BaseException'),
    'NameError': ('NameError', 'Exception', 'BaseException'),
    'SystemExit': ('SystemExit', 'BaseException'),
}
