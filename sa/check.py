"""Obligations: what must hold of the current tree for a property, and the decision of each."""
import ast
import fnmatch
import os
from . import props, terms as t
from .compare import Comparer, Result
from .frontend import Func, Class

TRIVIAL_DECORATORS = {'property', 'staticmethod', 'classmethod', 'abstractmethod', 'setter', 'overload', 'override',
                      'final', 'wraps', 'inline', 'boundscheck', 'wraparound', 'locals', 'returns', 'cfunc', 'ccall'}
CACHING = {'lru_cache', 'cache', 'cached_property', 'singledispatch', 'memoize'}


class Ob:
    """One obligation and its decision: 'ok', 'bad' or 'undecided'."""

    def __init__(self, rule, key, verdict, detail='', path='', line=0, where='', data=None):
        self.rule, self.key, self.verdict, self.detail = rule, key, verdict, detail
        self.path, self.line, self.where = path, line, where
        self.data = data or {}

    def ident(self):
        return '%s %s' % (self.rule, self.key)

    def __repr__(self):
        return '%s %s: %s %s' % (self.verdict, self.ident(), self.where, self.detail)


def private(qual):
    n = qual.rsplit('.', 1)[1]
    return n.startswith('_') and not (n.startswith('__') and n.endswith('__'))


class Checker:
    def __init__(self, spec_root, repo_root):
        self.c = Comparer(spec_root, repo_root)
        self.sp, self.tp = self.c.sp, self.c.tp
        self._fn = {}
        self._one = {}
        self._mentions = None
        self.busy = set()
        self.stats = {'facets': 0, 'inlined': set(), 'called': set(), 'loops': 0, 'comparisons': 0}

    # ------------------------------------------------------------------ helpers
    def one(self, qual, level):
        k = (qual, level)
        if k not in self._one:
            tf = self.locate(qual)
            if tf is None:
                self._one[k] = Result('undecided', why='not in the tree', level=level)
            else:
                self._one[k] = self.c.one(qual, level, tf)
                self._note(self._one[k])
        return self._one[k]

    def _note(self, r):
        self.stats['comparisons'] += 1
        self.stats['facets'] += r.nfacets
        self.stats['loops'] += r.loops if isinstance(r.loops, int) else len(r.loops)
        self.stats['inlined'] |= set(r.inlined)
        self.stats['called'] |= set(x if isinstance(x, str) else str(x) for x in r.called)

    def locate(self, qual):
        """The function of the current tree that stands for a reviewed one."""
        f = self.tp.funcs.get(qual)
        if f is not None:
            return f
        head, name = qual.rsplit('.', 1)
        setter = name == 'setter'
        if setter:
            head, name = head.rsplit('.', 1)
            name += '.setter'
        c = self.tp.classes.get(head)
        if c is not None:
            m = self.tp.lookup(c, name)
            if isinstance(m, Func):
                return m
            return None
        r = self.tp.resolve(qual)
        return r if isinstance(r, Func) else None

    def mentions(self):
        """name -> reviewed functions whose body mentions it."""
        if self._mentions is None:
            out = {}
            for q, f in self.sp.funcs.items():
                names = set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute):
                        names.add(n.attr)
                    elif isinstance(n, ast.Name):
                        names.add(n.id)
                for x in names:
                    out.setdefault(x, []).append(q)
            self._mentions = out
        return self._mentions

    def callers(self, qual):
        name = qual.rsplit('.', 1)[1]
        if name == '__init__':
            name = qual.rsplit('.', 2)[1]
        return [q for q in self.mentions().get(name, ()) if q != qual and not props.match(props.DIAGNOSTIC, props.short(q))]

    # ------------------------------------------------------------------ functions
    def function(self, qual):
        """Obligation: the function does what the reviewed one does."""
        if qual not in self._fn:
            if qual in self.busy:
                return Ob('summary', props.short(qual), 'undecided', 'recursion')
            self.busy.add(qual)
            try:
                self._fn[qual] = self._function(qual)
            finally:
                self.busy.discard(qual)
        return self._fn[qual]

    def _function(self, qual):
        key = props.short(qual)
        tf = self.locate(qual)
        if tf is None:
            return self.missing(qual)
        where = dict(path=tf.path, line=tf.lineno, where='%s:%d %s' % (tf.path, tf.lineno, tf.qual))
        first = None
        for level in ('mod', 'priv'):
            r = self.one(qual, level)
            if r.verdict == 'equal':
                return Ob('summary', key, 'ok', 'equal at %s, %d facets' % (level, r.nfacets), data={'level': level}, **where)
            if level == 'mod' and r.verdict == 'differ' and self.handed_back(r, tf):
                return Ob('summary', key, 'ok', 'gives back a new list where the reviewed one changed its argument, and every '
                          'caller puts it in place of the argument', **where)
            if first is None or first.verdict == 'undecided':
                first = r
        r = first
        if private(qual):
            v, why = self.in_context(qual)
            if v == 'ok':
                return Ob('summary', key, 'ok', why, **where)
            if v == 'bad' or r.verdict == 'differ':
                return Ob('summary', key, 'bad', self.describe(r) + '; ' + why, **where)
            return Ob('summary', key, 'undecided', r.why + '; ' + why, **where)
        if r.verdict == 'differ':
            return Ob('summary', key, 'bad', self.describe(r), **where)
        return Ob('summary', key, 'undecided', r.why, **where)

    def handed_back(self, r, tf):
        """A list is made anew instead of changed in place, which no call site can tell."""
        if set(r.facets) - {'outcome'} == set() or len(r.facets) != 2:
            return False
        (x, y), k = r.shown.get('outcome', (None, None)), next(k for k in r.facets if k != 'outcome')
        before, after = r.shown.get(k, (None, None))
        if x is None or y is None or before is None or after is not None or x.op != 'returns' or y.op != 'returns' or \
                not k.startswith('state p') or t.show(x.a[0]) != k[6:] or y.a[0] is not before:
            return False
        i = int(k[7:]) if k[7:].isdigit() else None
        if i is None:
            return False
        sites = 0
        for f in self.tp.funcs.values():
            back = {id(n.value): n.targets[0] for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and \
                        (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) == tf.name:
                    j = i - (1 if tf.kind in ('method', 'classmethod') else 0)
                    if id(n) not in back or not 0 <= j < len(n.args) or not isinstance(n.args[j], ast.Attribute) or \
                            ast.dump(n.args[j].value) != ast.dump(getattr(back[id(n)], 'value', n)) or \
                            n.args[j].attr != getattr(back[id(n)], 'attr', None):
                        return False
                    sites += 1
        return sites > 0

    def in_context(self, qual, of=None, seen=None):
        """A private function judged by the functions that use it, with its body in place.

        A caller only counts when the body really was put in place: one that merely passes the function on as a value,
        or calls it where its body cannot be put, says nothing about what the function does.
        """
        of = of or qual
        seen = seen if seen is not None else set()
        seen.add(qual)
        f = self.locate(of)
        cs = self.callers(qual)
        good, bad, unk = [], [], []
        for q in cs:
            if q in seen:
                continue
            r = self.one(q, 'priv')
            if r.verdict == 'equal' and (f is None or f.qual in r.inlined):
                good.append(q)
            elif r.verdict == 'equal':
                bad.append(q)
            elif private(q):
                v, why = self.in_context(q, of, seen)
                if v == 'bad' and r.verdict != 'differ' or v not in ('ok', 'bad') and r.verdict != 'differ':
                    v = 'undecided'
                elif v != 'ok':
                    v = 'bad'
                (good if v == 'ok' else bad if v == 'bad' else unk).append(q)
            elif r.verdict == 'differ':
                bad.append(q)
            else:
                unk.append(q)
        names = lambda l: ', '.join(props.short(x) for x in l[:4])
        if bad:
            return 'bad', 'its callers differ too or only pass it on: ' + names(bad)
        if unk:
            return 'undecided', 'callers not decided: ' + names(unk)
        if good:
            return 'ok', 'changed, but every caller is equal with its body in place: ' + names(good)
        return 'undecided', 'no caller'

    def missing(self, qual):
        key = props.short(qual)
        v, why = self.in_context(qual)
        head = qual.rsplit('.', 1)[0]
        path = head.replace('.', '/')
        if v == 'ok':
            return Ob('summary', key, 'ok', 'removed; ' + why, where=path)
        if v == 'bad':
            return Ob('summary', key, 'bad', 'removed; ' + why, where=path)
        if why == 'no caller' and not private(qual):
            # a public function, or an override whose inherited form is gone too
            return Ob('summary', key, 'bad', 'removed, and part of the interface', where=path)
        return Ob('summary', key, 'undecided', 'removed; ' + why, where=path)

    def describe(self, r):
        out = []
        for k in r.facets[:3]:
            x, y = r.shown.get(k, (None, None))
            out.append('%s: reviewed %s | now %s' % (k, cut(x, y), cut(y, x)))
        return 'differs (%s level) in %s' % (r.level, '; '.join(out))

    # ------------------------------------------------------------------ overriding methods
    def overrides(self, qual):
        """Methods the current tree adds in subclasses of the method's class: they must do what the inherited one did."""
        f = self.sp.funcs[qual]
        if f.cls is None or f.name == '__init__' or self.c.sw.is_abstract(f):
            return []
        out = []
        for c in self.sp.subclasses(f.cls):
            if c is f.cls:
                continue
            if self.sp.lookup(c, f.name) is not f:
                continue
            tc = self.tp.classes.get(c.qual)
            if tc is None:
                continue
            g = self.tp.lookup(tc, f.name)
            if not isinstance(g, Func) or g.qual == qual:
                continue
            key = props.short(c.qual) + '.' + f.name
            where = dict(path=g.path, line=g.lineno, where='%s:%d %s' % (g.path, g.lineno, g.qual))
            res = [self.c.one(qual, level, g) for level in ('mod', 'priv')]
            for r in res:
                self._note(r)
            if any(r.verdict == 'equal' for r in res):
                out.append(Ob('override', key, 'ok', 'new override does what the inherited method does', **where))
            elif any(r.verdict == 'differ' for r in res):
                r = [r for r in res if r.verdict == 'differ'][0]
                out.append(Ob('override', key, 'bad', 'new override of %s %s' % (props.short(qual), self.describe(r)), **where))
            else:
                out.append(Ob('override', key, 'undecided', res[0].why, **where))
        return out

    # ------------------------------------------------------------------ interface
    def interface(self, qual):
        """Parameter defaults and decorators."""
        f = self.sp.funcs[qual]
        g = self.tp.funcs.get(qual)
        if g is None:
            return []
        out = []
        where = dict(path=g.path, line=g.lineno, where='%s:%d %s' % (g.path, g.lineno, g.qual))
        key = props.short(qual)
        da, db = defaults(f), defaults(g)
        bad = []
        for i, d in da.items():
            if d is None and db.get(i) is None:
                continue
            t.reset()
            self.c.sw.reset()
            self.c.tw.reset()
            if i not in db:
                if i < len(g.params_all()):
                    bad.append('parameter %d has no default any more' % i)
                continue
            if db[i] is not None and d is None:
                continue
            if db[i] is None:
                bad.append('parameter %d has no default any more' % i)
                continue
            x = self.c.sw.eval_const(d, f.module, f.cls)
            y = self.c.tw.eval_const(db[i], g.module, g.cls)
            if x is not None and y is not None and x is not y:
                bad.append('default of parameter %d: reviewed %s, now %s' % (i, ast.unparse(d), ast.unparse(db[i])))
        if da:
            out.append(Ob('defaults', key, 'bad' if bad else 'ok', '; '.join(bad), **where))
        old = {deco(d) for d in f.node.decorator_list}
        for d in g.node.decorator_list:
            n = deco(d)
            if n in old or n in TRIVIAL_DECORATORS:
                continue
            if n in CACHING:
                why = self.cacheable(g)
                out.append(Ob('memo', key, 'bad' if why else 'ok', why or 'a pure function of its arguments', **where))
            else:
                out.append(Ob('decorator', key, 'undecided', 'decorated with ' + n, **where))
        return out

    def cacheable(self, g):
        """Why the result of a function must not be cached, or ''."""
        reads = set()
        todo, seen = [g], set()
        while todo:
            f = todo.pop()
            if f.qual in seen:
                continue
            seen.add(f.qual)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    if isinstance(n.ctx, ast.Load):
                        reads.add(n.attr)
                    for h in self.tp.by_method.get(n.attr, ()):
                        todo.append(h)
                elif isinstance(n, ast.Name):
                    h = f.module.funcs.get(n.id)
                    if h is not None:
                        todo.append(h)
        for k in self.tp.classes.values():
            for m in k.methods.values():
                if m.name == '__init__':
                    continue
                for n in ast.walk(m.node):
                    x = None
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        x = n.attr
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute):
                        x = n.value.attr
                    if x in reads:
                        return 'its result depends on %s, which %s changes (%s:%d)' % (x, m.qual, m.path, n.lineno)
        ann = g.node.returns
        s = ast.unparse(ann) if ann is not None else ''
        if s.strip("'\"") in ('int', 'str', 'bool', 'bytes', 'float'):
            return ''
        for n in ast.walk(g.node):
            if isinstance(n, ast.Return) and n.value is not None:
                v = n.value
                if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                    return 'every caller shares the mutable object it returns'
                if isinstance(v, ast.Call):
                    d = ast.unparse(v.func).split('.')[-1]
                    if d in ('list', 'dict', 'set', 'sorted') or any(c.name == d for c in self.tp.classes.values()):
                        return 'every caller shares the mutable object it returns'
        return ''

    # ------------------------------------------------------------------ constants
    CONSTS = [
        ('config.DEFAULT_*', 'C32'), ('config._Settings.*', 'C32'), ('latticenode.*', 'C14 C15'),
        ('dictionarylib.dictionaryversion.*', 'C21'), ('*.CategoryType.*', 'C05 C06 C27 C28'),
        ('*.DictionaryBuilder.is_user_dictionary', 'C26 C21'), ('*.Grammar.INHIBITED_CONNECTION', 'C08'),
        ('*.WordParameterList.*', 'C23 C24'), ('*.NumericParser.*', 'C09 C29'), ('*.JoinNumericPlugin.*', 'C29'),
        ('tokenizer.Tokenizer.SplitMode', 'C13 C34'),
    ]

    def constants(self, prop):
        out = []
        for pat, ps in self.CONSTS:
            if prop not in ps.split():
                continue
            for key, sv, tv, f in self.const_values(pat):
                where = dict(path=f[0], line=f[1], where='%s:%d %s' % (f[0], f[1], key))
                if sv is None or tv is None:
                    continue
                out.append(Ob('constant', key, 'ok' if sv is tv else 'bad',
                              '' if sv is tv else 'reviewed %s, now %s' % (t.show(sv)[:80], t.show(tv)[:80]), **where))
            out += self.enums(pat)
        return out

    def const_values(self, pat):
        t.reset()
        self.c.sw.reset()
        self.c.tw.reset()
        for m in self.sp.modules.values():
            n = self.tp.modules.get(m.name)
            if n is None:
                continue
            names = [k for k in m.consts if fnmatch.fnmatchcase(props.short(m.name + '.' + k), pat)]
            if names:
                e, f = self.c.sw.module_env(m), self.c.tw.module_env(n)
                for k in names:
                    yield props.short(m.name + '.' + k), e.get(k), f.get(k), (n.path, getattr(n.consts.get(k), 'lineno', 0))
        for q, k in self.sp.classes.items():
            c = self.tp.classes.get(q)
            if c is None:
                continue
            for n in k.consts:
                key = props.short(q) + '.' + n
                if n.startswith('__') or not fnmatch.fnmatchcase(key, pat):
                    continue
                if self.c.sw.is_enum(k):
                    continue
                if n not in c.consts:
                    continue
                v = self.c.sw.eval_class_const(k, n)
                w = self.c.tw.eval_class_const(c, n)
                if v is not w and self.set_by_init(q, n):
                    continue
                yield key, v, w, (c.module.path, getattr(c.consts[n], 'lineno', 0))

    def set_by_init(self, q, n):
        """Does every new object get its own value, whatever the class says?"""
        init = self.sp.lookup(self.sp.classes[q], '__init__')
        if not isinstance(init, Func):
            return False
        return any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Store)
                   for x in ast.walk(init.node))

    def enums(self, pat):
        """Members of enumerations: the reviewed values, and no two alike."""
        out = []
        for q, k in self.sp.classes.items():
            if not self.c.sw.is_enum(k) or not any(fnmatch.fnmatchcase(props.short(q) + '.' + n, pat) for n in k.consts):
                continue
            c = self.tp.classes.get(q)
            if c is None:
                continue
            t.reset()
            self.c.sw.reset()
            self.c.tw.reset()
            vals = {}
            for n, e in c.consts.items():
                if n.startswith('_'):
                    continue
                v = self.c.tw.eval_const(e, c.module, c)
                auto = 'auto' in ast.unparse(e)
                key = '%s.%s' % (props.short(q), n)
                where = dict(path=c.module.path, line=e.lineno, where='%s:%d %s' % (c.module.path, e.lineno, key))
                s = k.consts.get(n)
                x = self.c.sw.eval_const(s, k.module, k) if s is not None else None
                sauto = s is not None and 'auto' in ast.unparse(s)
                bad = ''
                if not auto and v is not None and v.op == 'const':
                    if v in vals:
                        bad = 'has the value of %s' % vals[v]
                    vals[v] = n
                if not bad and s is not None and not auto and not sauto and x is not None and v is not None and x is not v:
                    bad = 'reviewed %s, now %s' % (t.show(x), t.show(v))
                out.append(Ob('enum', key, 'bad' if bad else 'ok', bad, **where))
            for n in k.consts:
                if n not in c.consts and not n.startswith('_'):
                    out.append(Ob('enum', '%s.%s' % (props.short(q), n), 'bad', 'removed', where=c.module.path))
        return out

    # ------------------------------------------------------------------ a property
    def closure(self, quals):
        """Reviewed functions reachable from these by the names they mention."""
        byname = {}
        for q, f in self.sp.funcs.items():
            byname.setdefault(f.name if f.name != '__init__' else q.rsplit('.', 2)[1], []).append(q)
        seen, todo = set(quals), list(quals)
        while todo:
            q = todo.pop()
            for n in ast.walk(self.sp.funcs[q].node):
                x = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                for r in byname.get(x, ()):
                    if r not in seen:
                        seen.add(r)
                        todo.append(r)
        return sorted(q for q in seen if not props.match(props.DIAGNOSTIC, props.short(q)))

    def obligations(self, prop, tier='quick'):
        from . import rules
        quals = props.functions(prop, self.sp.funcs)
        obs = []
        for q in quals:
            obs.append(self.function(q))
            obs += self.overrides(q)
            obs += self.interface(q)
        obs += self.constants(prop)
        for r in props.RULES.get(prop, ()):
            obs += getattr(rules, r)(self)
        if tier == 'thorough':
            for q in self.closure(quals):
                if q not in quals:
                    obs.append(self.function(q))
                    obs += self.interface(q)
        return obs


def cut(x, other=None, n=160):
    if x is None:
        return '(nothing)'
    s = t.show(x)
    o = t.show(other) if other is not None else ''
    i = 0
    while i < len(s) and i < len(o) and s[i] == o[i]:
        i += 1
    i = max(0, i - 60)
    return ('…' if i else '') + s[i:i + n] + ('…' if i + n < len(s) else '')


def deco(d):
    return ast.unparse(d).split('(')[0].split('.')[-1]


def defaults(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    k = len(names) - len(a.defaults)
    out = {}
    for i, d in enumerate(a.defaults):
        out[k + i] = d
    for i, d in enumerate(a.kw_defaults):
        if d is not None:
            out[len(names) + i] = d
    return out
