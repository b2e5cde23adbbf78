"""Summaries of functions as facets."""
import ast
import sys
from . import terms as t
from .terms import T, raw, sym, ITE, AND, OR, NOT
from .eval import Undecided, Exit, Frame, is_alloc, newptr
from .builtins_ import Builtins
from .calls import is_generator
from .frontend import Func, Class
from .world import World, PARAM_CLASS, PARAM_ELEM, PARAM_TY

sys.setrecursionlimit(20000)


# numbers every caller passes as non-negative (checked where they are made: lookup results, ids behind a sign test)
NATURAL = {('build_word_id', 'word_id'), ('get_word_candidate_length', 'index'),
           ('get_code_points_offset_length', 'index'), ('get_char_category_continuous_length', 'offset')}

# what holds whenever a function is called (by the reviewed callers, over the reviewed parameter names)
GIVEN = {'sudachipy.utf8inputtext.UTF8InputText.get_word_candidate_length': 'len({self}.bytes) - {index} - 1',
         'sudachipy.utf8inputtext.UTF8InputText.get_code_points_offset_length': 'len({self}.bytes) - {index} - 1',
         'sudachipy.utf8inputtextbuilder.UTF8InputTextBuilder.get_char_category_continuous_length':
             'len({char_categories}) - {offset} - 1'}

# what holds of every object once it is made (its constructor is compared in full, and nothing takes elements away)
HOLDS = {'sudachipy.dictionarylib.lexiconset.LexiconSet': 'len({self}.lexicons) - 1'}


class Policy:
    """Which calls are replaced by the body of what they call."""

    def __init__(self, level, world, force=frozenset()):
        self.level = level              # 'mod', 'priv', 'all'
        self.w = world
        self.force = force              # functions replaced by their bodies at any level
        self._trivial = {}

    def inline(self, ev, f):
        w = self.w
        if is_generator(f.node) and not w.known(f):
            return True
        if not w.known(f) or f.qual in w.absent:
            return True
        if f.cls is not None and f.name not in ('__init__',) and w.overridden(f.cls, f.name) and \
                not self.static_recv(ev, f):
            return False
        if self.trivial(w.canonical(f)) or f.qual in self.force:
            return True
        if self.level == 'mod':
            return False
        if self.level == 'priv':
            return f.name.startswith('_') and not f.name.startswith('__init')or f.kind == 'closure'
        return True

    def static_recv(self, ev, f):
        return False

    def trivial(self, f):
        """Accessors: one simple statement."""
        q = f.qual + ('.setter' if f.kind == 'setter' else '')
        if q not in self._trivial:
            self._trivial[q] = self._is_trivial(f)
        return self._trivial[q]

    def _is_trivial(self, f):
        if len(f.node.decorator_list) and f.kind not in ('property', 'setter', 'staticmethod', 'classmethod'):
            return False
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) > 2:
            return False
        for s in body:
            if isinstance(s, ast.Return):
                if s.value is None:
                    continue
                e = s.value
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute):
                e = s.value
            else:
                return False
            for n in ast.walk(e):
                if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda, ast.Call,
                                  ast.JoinedStr, ast.IfExp, ast.BoolOp)):
                    return False
        return True

    def construct_inline(self, ev, c):
        k = self.w.spec.prog.classes.get(c.qual)
        if k is None:
            return True
        key = 'class ' + c.qual
        if key not in self._trivial:
            self._trivial[key] = self._simple_class(k)
        return self._trivial[key] or (self.level == 'all' and not self.w.external_base(k))

    def _simple_class(self, k):
        init = self.w.spec.prog.lookup(k, '__init__')
        if not isinstance(init, Func):
            return not self.w.spec.external_base(k)
        for n in ast.walk(init.node):
            if isinstance(n, (ast.For, ast.While, ast.With, ast.Try, ast.ListComp, ast.GeneratorExp)):
                return False
            if isinstance(n, ast.Call):
                d = ast.unparse(n.func)
                if d.split('.')[0] not in ('len', 'list', 'int', 'str', 'dict', 'set', 'super', 'tuple'):
                    return False
        return len(init.node.body) <= 16


class Summary:
    def __init__(self, facets, ev, seconds=0.0):
        self.facets = facets
        self.inlined, self.called, self.loops = ev.inlined, ev.called, ev.loops


def root_params(world, f, ev):
    """Symbols for the parameters, by position; types come from the reviewed signature."""
    spec = world.canonical(f)
    sp, tp = spec.params_all(), f.params_all()
    env = {}
    a = f.node.args
    for i, name in enumerate(tp):
        if i >= len(sp):
            # a parameter the reviewed signature does not have: callers that rely on that signature omit it
            env[name] = world.default_value(ev, f, default_of(f, name))
            continue
        base = sp[i]
        ann = spec.annotation(base)
        owner = spec
        ty = None
        cn = ec = None
        if i == 0 and f.kind in ('method', 'property', 'setter'):
            cn = f.cls.qual
        elif i == 0 and f.kind == 'classmethod':
            env[name] = raw('classref', (f.cls.qual,))
            continue
        else:
            cn, ec, ty = world.spec.ann_type(ann, owner.module, owner.cls)
            if cn is None and ty is None and ec is None:
                cn = PARAM_CLASS.get(base)
                ec = PARAM_ELEM.get(base)
                ty = PARAM_TY.get(base)
                if ec:
                    ty = 'list'
        if ty in ('float',) or optional(spec, base):
            ty = None
        if ty == 'int' and (spec.qual.rsplit('.', 1)[-1], base) in NATURAL:
            ty = 'nat'
        p = sym('p%d' % i, ty)
        if cn:
            world.tcls[p] = cn
        if ec:
            world.ecls[p] = ec
        env[name] = p
    if a.vararg is not None:
        env[a.vararg.arg] = sym('p*', 'list')
    if a.kwarg is not None:
        env[a.kwarg.arg] = sym('p**', 'dict')
    return env


def default_of(f, name):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return ds.get(name)


def optional(f, name):
    """Is None the default of the parameter?"""
    d = default_of(f, name)
    return isinstance(d, ast.Constant) and d.value is None


def evaluator(world):
    return Builtins(world, Policy('mod', world))


def make_world(prog, spec=None):
    w = World(prog, spec)
    w.evaluator = evaluator
    return w


def check_closed(v, what):
    seen = set()
    for x in t.walk(v):
        if x.op in ('fresh', 'newlist', 'closure', 'newobj'):
            raise Undecided('%s left in %s' % (x.op, what))


def summarise(world, f, level='mod', force=frozenset()):
    """Facets of one function: name -> term."""
    world.tcls, world.ecls = {}, {}
    pol = Policy(level, world, force)
    ev = Builtins(world, pol)
    env = root_params(world, f, ev)
    fr = Frame(f, f.module, f.cls, 0)
    names = f.params_all()
    fr.selfname = names[0] if f.kind in ('method', 'property', 'setter') and names else None
    ev.frames.append(fr)
    params = [(n, v) for n, v in env.items() if v.op == 'sym']
    ev.st.env.update(env)
    acc = None
    if is_generator(f.node):
        acc = ev.fresh_list(t.empty('list'))
        ev.st.env['$yield'] = acc
    given = []
    if world.canonical(f).qual in GIVEN:
        src = GIVEN[world.canonical(f).qual].format(**dict(zip(world.canonical(f).params_all(), names)))
        given.append(ev.value(ev.expr(ast.parse(src, mode='eval').body)))
    if f.cls is not None and f.kind == 'method' and f.cls.qual in HOLDS and f.name != '__init__' and names:
        src = HOLDS[f.cls.qual].format(self=names[0])
        given.append(ev.value(ev.expr(ast.parse(src, mode='eval').body)))
    t.assume(given)
    ev.block(f.node.body)
    if ev.g is not t.FALSE:
        ev.exits.append(Exit('return', ev.g, ev.st, t.NONE))
    facets = {}
    out = None
    rets = []
    for e in ev.exits:
        if e.kind == 'return':
            v = acc if acc is not None else e.val
            v = returned(ev, v, e.st, params)
            leaf = t.lift(lambda x: raw('returns', (x,)), v)
            rets.append((e.g, e.st, None))
        elif e.kind == 'raise':
            leaf = e.val
            if e.val.a[0] == 'SystemExit':
                rets.append((e.g, e.st, None))
        else:
            raise Undecided('loop exit outside a loop')
        out = leaf if out is None else ITE(e.g, leaf, out)
    facets['outcome'] = out if out is not None else raw('never', ())
    g, st, _ = ev.merge_list(rets)
    if st is not None:
        places = {}
        roots = [v for n, v in params]
        for (o, fl) in st.fld:
            r = root_of(o)
            if r.op == 'glob' and r not in roots:
                roots.append(r)
        for o in st.cont:
            r = root_of(o)
            if (r.op == 'glob' or (r.op == 'sym' and r.a[0].startswith('$'))) and r not in roots:
                roots.append(r)
        for r in roots:
            if r.a[0] != 'sys.stderr':
                changed(ev, r, st, places)
        for r in objects(st):
            v = ev.reify(r, st)
            if v is not r:
                places['of #%d %s' % (r.id, t.show(r)[:80])] = v
        for k, v in places.items():
            v = t.constrain(v, g)
            facets['state ' + k] = v
    for k, v in facets.items():
        check_closed(v, k)
    s = Summary(facets, ev)
    return s


OUTSIDE = ('ext', 'ret', 'new', 'apply', 'after', 'extref', 'superext', 'extnew')


def objects(st):
    """Objects that are neither parameters, module-level nor made here as plain data, and that are changed."""
    out = []
    for o in list(st.cont) + [o for o, f in st.fld]:
        r = root_of(o)
        if r.op in OUTSIDE and r not in out:
            out.append(r)
    return sorted(out, key=lambda r: r.id)


def returned(ev, v, st, params):
    """The returned value; a parameter returned as such stays a reference."""
    def f(x):
        if x.op in ('sym',):
            return x
        return ev.reify(x, st)
    return t.mapleaves(f, v) if v.op == 'ite' else f(v)


def root_of(o):
    while o.op in ('field', 'idx'):
        o = o.a[0]
    return o


def changed(ev, r, st, places):
    hole = raw('hole', ())
    base = r.a[0] if isinstance(r.a[0], str) else t.show(r)
    c = st.cont.get(r)
    if c is not None and c is not r:
        v = ev.reify(r, st)
        if v.op == 'st':
            v = v.a[0]
        elif v.op == 'ite':
            v = t.mapleaves(lambda x: x.a[0] if x.op == 'st' else x, v)
        if v is not r:
            places[base] = v
    for d, v in ev.cells_of(r, st):
        places[base + t.show(d).replace('#hole', '')] = v
