"""Hash-consed value terms with canonical forms.

A term stands for the value a program point computes from the function's inputs.  Equal normal forms mean
equal values: integers are linear polynomials, conditions are ordered decision diagrams over atoms, a value
that depends on a condition is a decision diagram with values at its leaves, and loops are closed forms,
comprehensions, sums, searches (``mu``: the first iteration at which the loop is left) or recurrences.
Nothing is executed and no solver is called; two terms are compared by identity.
"""
import struct
import time
from math import gcd

LIMIT = 4000000


DEADLINE = [None]        # time.monotonic() after which summaries are given up


class TooBig(Exception):
    pass


class T:
    __slots__ = ('op', 'a', 'id', 'ty', 'fr', 'bvs', 'hb', 'line', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_memo_ite = {}
_memo_cof = {}
_memo_mk = {}
_memo_con = {}
EMPTY = frozenset()
_fresh = [0]
NEVER_NONE = set()        # names of functions whose result is never None


_REC_NN = {}


def reset():
    """Forget every term (between unrelated comparisons, to bound memory)."""
    global TRUE, FALSE, NONE, ZERO, ONE
    _tab.clear()
    _memo_ite.clear()
    _memo_cof.clear()
    _memo_mk.clear()
    _memo_con.clear()
    _REC_NN.clear()
    TRUE, FALSE, NONE = const(True), const(False), const(None)
    ZERO, ONE = const(0), const(1)


def _kids(op, a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _kids(op, x)


BINDERS = {'mu', 'rec', 'bigcat', 'bigsum', 'lam'}
ATOMS = {'ge', 'eq', 'isnone', 'truthy', 'nonblank', 'in', 'lt', 'isinst', 'exc', 'same'}


def raw(op, a, ty=None):
    if op in ('band', 'bor', 'bxor'):
        a = tuple(sorted(a, key=lambda x: (x.op != 'const', x.id)))
    key = (op, a, ty) if op in ('sym', 'fresh', 'bv') or (op == 'seq' and (ty == 'set' or (ty == 'dict' and not a))) else (op, a)
    t = _tab.get(key)
    if t is not None:
        return t
    if len(_tab) > LIMIT:
        raise TooBig()
    if not len(_tab) & 1023 and DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
        raise TooBig()
    t = T()
    t.op, t.a, t.ty, t.id = op, a, ty, len(_tab) + 1
    t.line = None
    if op == 'fresh':
        t.fr, t.bvs, t.hb = frozenset((t,)), EMPTY, 0
    elif op == 'bv':
        t.fr, t.bvs, t.hb = EMPTY, frozenset((a[0],)), 0
    elif op in BINDERS:
        h, extra, outs, bodies = a
        fr, bvs, hb = set(), set(), h
        for x in outs:
            fr |= x.fr
            bvs |= x.bvs
            hb = max(hb, x.hb)
        for x in bodies:
            fr |= x.fr
            bvs |= x.bvs - {h}
            hb = max(hb, x.hb)
        t.fr, t.bvs, t.hb = frozenset(fr), frozenset(bvs), hb
    else:
        fr, bvs, hb = EMPTY, EMPTY, 0
        for x in _kids(op, a):
            if x.fr:
                fr = fr | x.fr
            if x.bvs:
                bvs = bvs | x.bvs
            if x.hb > hb:
                hb = x.hb
        t.fr, t.bvs, t.hb = fr, bvs, hb
    _tab[key] = t
    return t


def const(v):
    if isinstance(v, bool):
        return raw('const', ('bool', v), 'bool')
    n = type(v).__name__
    ty = {'int': 'int', 'str': 'str', 'bytes': 'bytes', 'NoneType': 'none', 'float': 'float'}.get(n, n)
    return raw('const', (n, v), ty)


def is_const(t, *types):
    return t.op == 'const' and (not types or t.a[0] in types)


def cval(t):
    return t.a[1]


def sym(name, ty=None):
    return raw('sym', (name,), ty)


def glob(name):
    return raw('glob', (name,))


def fresh(ty=None):
    _fresh[0] += 1
    return raw('fresh', (_fresh[0],), ty)


TRUE = FALSE = NONE = ZERO = ONE = None
reset()


# ------------------------------------------------------------------------------------------ decision diagrams
def akey(a):
    op = a.op
    if op == 'ge':
        L = a.a[0]
        if L.op == 'len':
            return (L.a[0].id, 0, a.a[1])
        return (L.id, 0, a.a[1])
    if op == 'isnone':
        return (a.a[0].id, 1, 0)
    if op == 'truthy':
        return (a.a[0].id, 2, 0)
    if op == 'eq' and a.a[1].op in ('const', 'glob'):
        return (a.a[0].id, 3, a.a[1].id)
    if op == 'nonblank':
        return (a.a[0].id, 4, 0)
    return (a.id, 9, 0)


def implied(a, v, b):
    """Truth of atom b given atom a has value v; both of one group."""
    ao, bo = a.op, b.op
    if ao == 'ge' and bo == 'ge':
        if a.a[0] is not b.a[0]:
            return None
        ca, cb = a.a[1], b.a[1]
        if v:
            return True if cb >= ca else None
        return False if cb <= ca else None
    if ao == 'isnone':
        if v and (bo in ('truthy', 'eq', 'nonblank')):
            return False
        if v and bo == 'ge' and b.a[1] < 0:
            return False
        return None
    if ao == 'truthy':
        if bo == 'isnone' and v:
            return False
        if bo == 'eq':
            c = b.a[1]
            if c.op == 'const' and bool(cval(c)) != v:
                return False
            if c.op == 'glob' and not v:
                return False
        return None
    if ao == 'eq':
        if not v:
            return None
        c = a.a[1]
        if bo == 'eq':
            return a is b
        if bo == 'isnone':
            return False
        if bo == 'nonblank' and c.op == 'const' and isinstance(cval(c), str):
            return bool(cval(c).strip())
        if bo == 'truthy':
            return bool(cval(c)) if c.op == 'const' else True
        if bo == 'ge':
            if c.op == 'const' and isinstance(cval(c), (str, bytes)):
                return len(cval(c)) + b.a[1] >= 0
            if c.op == 'glob' and b.a[1] == -1:
                return True
        return None
    if ao == 'ge' and not v and a.a[1] == -1 and bo == 'nonblank':
        return False
    if ao == 'ge' and v and a.a[1] < 0:          # len(x) >= something positive
        if bo == 'isnone':
            return False
        if bo == 'eq' and b.a[1].op == 'const' and isinstance(cval(b.a[1]), (str, bytes)):
            if len(cval(b.a[1])) + a.a[1] < 0:
                return False
    if ao == 'ge' and not v and bo == 'eq' and b.a[1].op == 'const' and isinstance(cval(b.a[1]), (str, bytes)):
        if len(cval(b.a[1])) + a.a[1] >= 0:
            return False
    return None


def cof(t, a, v):
    """t under the assumption that atom a has truth value v."""
    if t.op != 'ite':
        return t
    key = (t.id, a.id, v)
    r = _memo_cof.get(key)
    if r is not None:
        return r
    b = t.a[0]
    if b is a:
        r = t.a[1] if v else t.a[2]
        r = cof(r, a, v)
    else:
        ka, kb = akey(a), akey(b)
        if kb[0] == ka[0]:
            i = implied(a, v, b)
            if i is True:
                r = cof(t.a[1], a, v)
            elif i is False:
                r = cof(t.a[2], a, v)
            else:
                r = node(b, cof(t.a[1], a, v), cof(t.a[2], a, v))
        elif kb[0] > ka[0]:
            r = t
        else:
            r = node(b, cof(t.a[1], a, v), cof(t.a[2], a, v))
    _memo_cof[key] = r
    return r


def _on(x, l, v):
    """The leaf of x where the linear form l is v, or None."""
    while x.op == 'ite':
        a = x.a[0]
        if a.op != 'ge' or a.a[0] is not l:
            return None
        x = x.a[1] if v + a.a[1] >= 0 else x.a[2]
    return x


def _shift(a, t, e):
    """'L+c >= 0 ? t : e' with t - e a multiple of L+c+1 is 'L+c+1 >= 0 ? t : e' (they agree on the boundary)."""
    if a.op != 'ge':
        return a
    if t.op == 'upd' and t.a[0] is e:
        return _shift(a, t.a[2], idx(e, t.a[1]))
    if e.op == 'upd' and e.a[0] is t:
        return _shift(a, idx(t, e.a[1]), e.a[2])
    t, e = _on(t, a.a[0], -a.a[1] - 1), _on(e, a.a[0], -a.a[1] - 1)
    if t is None or e is None or t.ty in ('str', 'bool', 'list', 'none') or \
            e.ty in ('str', 'bool', 'list', 'none') or (t.op != 'poly' and e.op != 'poly' and not (t.op == 'const' or e.op == 'const')
                                                        and a.a[0].op != 'poly'):
        return a
    for x in (t, e):
        if x.op in ('seq', 'obj', 'newobj', 'ret', 'raise', 'undef', 'glob', 'dict', 'concat', 'st', 'upd') or \
                (x.op == 'const' and not (isinstance(cval(x), int) and not isinstance(cval(x), bool))):
            return a
    c, m = _poly(t)
    c2, m2 = _poly(e)
    d = dict(m)
    for k, v in m2.items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    lm = _poly(a.a[0])[1]
    if not d or set(d) != set(lm):
        return a
    k0 = next(iter(lm))
    if d[k0] % lm[k0]:
        return a
    al = d[k0] // lm[k0]
    if any(d[k] != al * lm[k] for k in lm):
        return a
    if c - c2 == al * (a.a[1] + 1):
        return raw('ge', (a.a[0], a.a[1] + 1))
    return a


def same_call(a, t, e):
    """The same call: what one passes is None there."""
    def same(x, y):
        return x is y or x == y or (x is NONE and y is a.a[0]) or (isinstance(x, T) and isinstance(y, T) and calls(x, y))

    def calls(x, y):
        return x.op == y.op and x.op in ('new', 'ret') and len(x.a) == len(y.a) and all(map(same, x.a, y.a))
    return calls(t, e)


def node(a, t, e):
    if t is e:
        return t
    if a.op == 'isnone' and same_call(a, t, e):
        return e
    a = _shift(a, t, e)
    t = cof(t, a, True)
    e = cof(e, a, False)
    if t is e:
        return t
    if cof(e, a, True) is t:
        return e
    if cof(t, a, False) is e:
        return t
    ka = akey(a)
    for x in (t, e):
        if x.op == 'ite' and akey(x.a[0]) < ka:
            # keep the order
            return ITE(raw('ite', (a, TRUE, FALSE)), t, e)
    return raw('ite', (a, t, e), t.ty if t.ty == e.ty else None)


def atom(a):
    return raw('ite', (a, TRUE, FALSE), 'bool')


def ITE(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    assert f.op == 'ite', f
    key = (f.id, g.id, h.id)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    a = f.a[0]
    ka = akey(a)
    for x in (g, h):
        if x.op == 'ite':
            k = akey(x.a[0])
            if k < ka:
                a, ka = x.a[0], k
    if a is f.a[0]:
        ft, fe = f.a[1], f.a[2]
        ft, fe = cof(ft, a, True), cof(fe, a, False)
    else:
        ft, fe = cof(f, a, True), cof(f, a, False)
    t = ITE(ft, cof(g, a, True), cof(h, a, True))
    e = ITE(fe, cof(g, a, False), cof(h, a, False))
    # (a is the least atom, so no re-ordering is needed in node)
    if t is e:
        r = t
    elif cof(e, a, True) is t:
        r = e
    elif cof(t, a, False) is e:
        r = t
    elif a.op == 'isnone' and same_call(a, t, e):
        r = e
    elif a.op == 'ge' and same_at_bound(a, t, e):
        r = e
    elif a.op == 'ge' and same_at_bound(a, e, t, False):
        r = t
    else:
        r = raw('ite', (_shift(a, t, e), t, e), t.ty if t.ty == e.ty else None)
    _memo_ite[key] = r
    return r


def NOT(f):
    return ITE(f, FALSE, TRUE)


def AND(*fs):
    r = TRUE
    for f in fs:
        r = ITE(r, f, FALSE)
    return r


def OR(*fs):
    r = FALSE
    for f in fs:
        r = ITE(r, TRUE, f)
    return r


_memo_con = {}


def constrain(f, c, restrict=False):
    """f where c holds (a canonical value where it does not); restrict: cheaper, not canonical."""
    if c.op != 'ite' or f.op != 'ite':
        return f
    key = (f.id, c.id, restrict)
    r = _memo_con.get(key)
    if r is not None:
        return r
    a, ka = f.a[0], akey(f.a[0])
    k2 = akey(c.a[0])
    if k2 < ka:
        a = c.a[0]
    c1, c0 = cof(c, a, True), cof(c, a, False)
    if c1 is FALSE:
        r = constrain(cof(f, a, False), c0, restrict)
    elif c0 is FALSE:
        r = constrain(cof(f, a, True), c1, restrict)
    elif restrict and k2 < ka:
        r = constrain(f, OR(c1, c0), restrict)
    else:
        r = node(a, constrain(cof(f, a, True), c1, restrict), constrain(cof(f, a, False), c0, restrict))
    _memo_con[key] = r
    return r


def lift(fn, *args):
    """fn applied leaf by leaf over decision-diagram arguments."""
    for x in args:
        if x.op == 'ite':
            break
    else:
        return fn(*args)
    memo = {}

    def go(xs):
        a = None
        ka = None
        for x in xs:
            if x.op == 'ite':
                k = akey(x.a[0])
                if ka is None or k < ka:
                    a, ka = x.a[0], k
        if a is None:
            return fn(*xs)
        key = tuple(x.id for x in xs)
        r = memo.get(key)
        if r is None:
            if len(memo) > 3000:
                raise TooBig()
            r = ITE(atom(a), go(tuple(cof(x, a, True) for x in xs)), go(tuple(cof(x, a, False) for x in xs)))
            memo[key] = r
        return r
    return go(tuple(args))


def leaves(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st += [x.a[1], x.a[2]]
        else:
            out.append(x)
    return out


def dd_atoms(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.op != 'ite' or x.id in seen:
            continue
        seen.add(x.id)
        if x.a[0] not in out:
            out.append(x.a[0])
        st += [x.a[1], x.a[2]]
    return out


def mapleaves(fn, t):
    return lift(fn, t)


# ------------------------------------------------------------------------------------------ integers
def _poly(t):
    """(const, {mono: coef}) of an integer term."""
    if t.op == 'poly':
        return t.a[0], dict(t.a[1])
    if t.op == 'const':
        v = t.a[1]
        if isinstance(v, (bool, int)):
            return int(v), {}
    return 0, {(t,): 1}


def mkpoly(c, m):
    m = {k: v for k, v in m.items() if v}
    if not m:
        return const(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1 and len(k) == 1:
            return k[0]
    return raw('poly', (c, tuple(sorted(m.items(), key=lambda kv: tuple(x.id for x in kv[0])))), 'int')


def add(*ts):
    def f(*xs):
        c, m = 0, {}
        for x in xs:
            c1, m1 = _poly(x)
            c += c1
            for k, v in m1.items():
                m[k] = m.get(k, 0) + v
        return mkpoly(c, m)
    return lift(f, *ts)


def scale(t, n):
    def f(x):
        c, m = _poly(x)
        return mkpoly(c * n, {k: v * n for k, v in m.items()})
    return lift(f, t)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    def f(x, y):
        c1, m1 = _poly(x)
        c2, m2 = _poly(y)
        c, m = c1 * c2, {}
        for k, v in m1.items():
            m[k] = m.get(k, 0) + v * c2
        for k, v in m2.items():
            m[k] = m.get(k, 0) + v * c1
        for k, v in m1.items():
            for k2, v2 in m2.items():
                kk = tuple(sorted(k + k2, key=lambda x: x.id))
                m[kk] = m.get(kk, 0) + v * v2
        return mkpoly(c, m)
    return lift(f, a, b)


NONNEG_OPS = {'len', 'mu', 'ord', 'mod', 'band', 'utf8len', 'fill'}




def rec_nonneg(t):
    """A recurrence over numbers that starts and stays at 0 or above (its variables together)."""
    if t.id not in _REC_NN:
        _REC_NN[t.id] = False
        h, extra, outs, bodies = t.a
        vs, bodies = open_binder(t)
        ok = {j for j in range(len(bodies)) if vs[j + 1].ty == 'int' and nonneg(outs[j])}
        while True:
            mp = {vs[j + 1]: fresh('nat') for j in ok}
            bad = {j for j in ok if not nonneg(subst(bodies[j], mp))}
            if not bad:
                break
            ok -= bad
        _REC_NN[t.id] = extra[-1] in ok
    return _REC_NN[t.id]


def atom_nonneg(t):
    return t.op in NONNEG_OPS or t.ty in ('nat', 'byte') or (t.op == 'bigsum' and all(nonneg(x) for x in leaves(t.a[3][0]))) or \
        (t.op == 'fdiv' and is_const(t.a[1], 'int') and cval(t.a[1]) > 0 and nonneg(t.a[0])) or \
        (t.op == 'rec' and t.ty == 'int' and rec_nonneg(t)) or (t.op == 'field' and t.a[1] == '$pos')


def nonneg(t):
    if t.op == 'ite':
        return all(nonneg(x) for x in leaves(t))
    c, m = _poly(t) if t.op != 'const' or isinstance(t.a[1], (int, bool)) else (-1, {})
    return c >= 0 and all(v > 0 and all(atom_nonneg(x) for x in k) for k, v in m.items())


def upper(t):
    """A number the non-negative t never exceeds, or None."""
    if t.op == 'ite':
        u = [upper(x) for x in leaves(t)]
        return None if None in u else max(u)
    if t.op == 'const':
        return cval(t) if is_const(t, 'int') and cval(t) >= 0 else None
    if t.op == 'poly':
        c, m = _poly(t)
        if c < 0:
            return None
        for k, v in m.items():
            u = 1
            for x in k:
                w = upper(x)
                if w is None:
                    return None
                u *= w
            if v < 0:
                return None
            c += v * u
        return c
    if t.ty == 'byte':
        return 255
    if t.op == 'ord':
        return 0x10FFFF
    if t.op == 'mod' and is_const(t.a[1], 'int'):
        return cval(t.a[1]) - 1
    if t.op == 'fdiv' and is_const(t.a[1], 'int') and cval(t.a[1]) > 0:
        u = upper(t.a[0])
        return None if u is None else u // cval(t.a[1])
    return None


def lowbits(t):
    """A power of two that divides t (None when only 1 does)."""
    if t.op == 'ite':
        u = [lowbits(x) for x in leaves(t)]
        return None if None in u else min(u)
    c, m = _poly(t) if t.op != 'const' or isinstance(cval(t), int) else (1, {})
    g = c
    for v in m.values():
        g = gcd(g, abs(v))
    g = g & -g
    return g if g > 1 else None


def _mubounds(t):
    """Upper bounds n (with n >= 0) of a search term."""
    h, extra, outs, bodies = t.a
    out = []
    X = bodies[0]
    for a in dd_atoms(X):
        if a.op != 'ge':
            continue
        c, m = a.a[1], _poly(a.a[0])[1]
        # a: k*coef + rest + c >= 0
        ks = [k for k in m if any(x.op == 'bv' and x.a[0] == h for x in k)]
        if len(ks) != 1 or len(ks[0]) != 1:
            continue
        co = m[ks[0]]
        rest = mkpoly(c, {k: v for k, v in m.items() if k != ks[0]})
        if h in rest.bvs:
            continue
        if co == 1 and cof(X, a, True) is TRUE:          # leaves when k >= -rest
            out.append(scale(rest, -1))
        elif co == -1 and cof(X, a, False) is TRUE:      # leaves when -k + rest < 0: k >= rest + 1
            out.append(add(rest, ONE))
    return out


ASSUMED = []


def assume(polys):
    """Numbers known not to be negative for the function being summarised."""
    if list(polys) != ASSUMED:
        ASSUMED[:] = polys
        _memo_ite.clear()
        _memo_con.clear()


def bound_nonneg(n):
    return nonneg(n) or any(nonneg(sub(n, a)) for a in ASSUMED)


def same_at_bound(a, t, e, sense=True):
    """Where the condition says that a search went as far as it can, t is what e is there."""
    p = mkpoly(a.a[1], _poly(a.a[0])[1])
    if not sense:
        p = add(scale(p, -1), const(-1))
    for k, v in _poly(p)[1].items():
        if v == 1 and len(k) == 1 and k[0].op == 'mu':
            for n in _mubounds(k[0]):
                if sub(k[0], n) is p and bound_nonneg(n) and _put(e, k[0], n) is t:
                    return True
    return False


def _put(x, old, new):
    memo = {}

    def go(x):
        if x is old:
            return new
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r
    return go(x)


def ge0(p):
    """The condition p >= 0."""
    return lift(_ge0, p)


def blank_split(x):
    return x.op == 'm' and x.a[0] == 'split' and len(x.a) == 2


def _ge0(p, depth=0):
    c, m = _poly(p)
    if not m:
        return TRUE if c >= 0 else FALSE
    if c >= 0 and all(v > 0 and all(atom_nonneg(x) for x in k) for k, v in m.items()):
        return TRUE
    if c < 0 and all(v < 0 and all(atom_nonneg(x) for x in k) for k, v in m.items()):
        return FALSE
    if c < 0 and len(m) == 1:
        (k, v), = m.items()
        if len(k) == 1 and v == 1 and c == -1 and k[0].op == 'len' and k[0].a[0].op == 'm' and \
                k[0].a[0].a[0] in STRIPS and len(k[0].a[0].a) == 2:
            return nonblank(k[0].a[0].a[1])
        if len(k) == 1 and v == 1 and c == -1 and k[0].op == 'len':
            x = k[0].a[0]
            if blank_split(x):
                return nonblank(x.a[1])
            if x.op == 'idx' and blank_split(x.a[0]):
                return TRUE                # the pieces between blanks are not empty
    u = upper(mkpoly(0, m))
    if u is not None and u + c < 0:
        return FALSE
    u = upper(mkpoly(0, {k: -v for k, v in m.items()}))
    if u is not None and c - u >= 0:
        return TRUE
    for a in ASSUMED:
        if nonneg(sub(p, a)):
            return TRUE
        if nonneg(sub(const(-1), add(p, a))):
            return FALSE
    if depth < 3:
        for k, v in m.items():
            if v == -1 and len(k) == 1 and k[0].op == 'm' and k[0].a[0] == 'index':
                rest = sub(p, sub(add(length(k[0].a[1]), const(-1)), k[0]))
                if rest.op != 'ite' and nonneg(rest):
                    return TRUE
            if v == -1 and len(k) == 1 and k[0].op == 'mu':
                for n in _mubounds(k[0]):
                    if not nonneg(n):
                        continue
                    # n - K >= 0 known; p = (n - K) + rest
                    rest = sub(p, sub(n, k[0]))
                    if rest.op != 'ite' and nonneg(rest):
                        return TRUE
            if v == 1 and len(k) == 1 and k[0].op == 'mu':
                for n in _mubounds(k[0]):
                    if not nonneg(n):
                        continue
                    # K - n <= 0; p = (K - n) + rest with rest < 0
                    rest = sub(p, sub(k[0], n))
                    if rest.op != 'ite' and nonneg(scale(add(rest, ONE), -1)):
                        return FALSE
            # bigsum / rem bounds
            if len(k) == 1 and k[0].op == 'mod' and is_const(k[0].a[1], 'int') and v == -1 and len(m) == 1:
                if c - (cval(k[0].a[1]) - 1) >= 0:
                    return TRUE
            if len(k) == 1 and k[0].op == 'mod' and is_const(k[0].a[1], 'int') and v == 1 and len(m) == 1:
                if c + (cval(k[0].a[1]) - 1) < 0:
                    return FALSE
    g = 0
    for v in m.values():
        g = gcd(g, abs(v))
    if g > 1:
        c = c // g
        m = {k: v // g for k, v in m.items()}
    lead = min(m, key=lambda k: tuple(x.id for x in k))
    neg = m[lead] < 0
    if neg:
        c, m = -c - 1, {k: -v for k, v in m.items()}
    L = mkpoly(0, m)
    r = atom(raw('ge', (L, c)))
    return NOT(r) if neg else r


def eq0(p):
    return AND(ge0(p), ge0(scale(p, -1)))


def max0(n):
    return n if nonneg(n) else ITE(ge0(n), n, ZERO)


INTY = ('int', 'nat', 'byte', 'bool')


def isint(t):
    return t.ty in INTY or t.op == 'poly' or (t.op == 'ite' and all(isint(x) for x in leaves(t)))


SEQTY = ('list', 'tuple', 'str', 'bytes', 'set', 'dict')


def nonblank(x):
    """Has a character that is not white space."""
    def f(x):
        while x.op == 'm' and x.a[0] in STRIPS and len(x.a) == 2:
            x = x.a[1]
        if is_const(x, 'str'):
            return TRUE if cval(x).strip() else FALSE
        return atom(raw('nonblank', (x,)))
    return lift(f, x)


STRIPS = ('strip', 'rstrip', 'lstrip')


# these return None or something that is never empty
NONE_OR_OBJECT = {'importlib.util.find_spec', 're.match', 're.fullmatch', 're.search'}


def truth(t):
    return lift(_truth, t)


def _truth(t):
    if t.op == 'const':
        return TRUE if cval(t) else FALSE
    if t.ty == 'bool':
        if t.op == 'm' and t.a[0] == 'isspace' and len(t.a) == 2:
            return AND(ge0(add(length(t.a[1]), const(-1))), NOT(nonblank(t.a[1])))
        return atom(raw('truthy', (t,)))
    if isint(t):
        return NOT(eq0(t))
    if t.op in ('obj', 'newobj', 'glob', 'lam', 'closure', 'new', 'classref', 'funcref', 'modref', 'bound'):
        return TRUE
    if t.op == 'undef':
        return atom(raw('truthy', (t,)))
    if t.op == 'ext' and t.a[0] in NONE_OR_OBJECT:
        return NOT(atom(raw('isnone', (t,))))
    if t.op == 'seq':
        return TRUE if t.a else FALSE
    return ge0(add(length(t), const(-1)))


def boolval(x):
    """A value whose opaque boolean parts are decision diagrams."""
    if x.op == 'ite':
        if any(y.ty == 'bool' and y.op != 'const' for y in leaves(x)):
            return mapleaves(boolval, x)
        return x
    if x.ty == 'bool' and x.op != 'const':
        return truth(x)
    return x


def EQ(a, b):
    return lift(_eq, a, b)


def set_elements(x):
    """The elements of a set display, or None."""
    if x.op == 'setof' and x.a[0].op == 'seq':
        return x.a[0].a or None
    return (x.a or None) if x.op == 'seq' and x.ty == 'set' else None


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        if isinstance(cval(a), (int, float, bool)) and isinstance(cval(b), (int, float, bool)):
            return TRUE if cval(a) == cval(b) else FALSE
        return TRUE if (a.a == b.a) else FALSE
    if b is NONE or a is NONE:
        x = a if b is NONE else b
        if x.ty in ('int', 'nat', 'byte', 'str', 'bytes', 'list', 'tuple', 'bool', 'dict', 'set') or \
                x.op in ('obj', 'newobj', 'glob', 'seq', 'poly', 'concat', 'new', 'lam', 'closure', 'classref', 'funcref', 'modref',
                         'extref', 'bound') or x.op == 'ret' and x.a[0] in NEVER_NONE or \
                x.op == 'field' and x.a[0].op == 'ret' and isinstance(x.a[1], str) and '.' + x.a[1] in NEVER_NONE:
            return FALSE
        return atom(raw('isnone', (x,)))
    if isint(a) or isint(b):
        x, y = a, b
        if (isint(a) or a.ty is None) and (isint(b) or b.ty is None):
            if a.ty == 'bool' and b.ty == 'bool':
                pass
            else:
                return eq0(sub(a, b))
        return FALSE
    if a.op in ('const', 'glob') and b.op not in ('const', 'glob'):
        a, b = b, a
    if a.op == 'glob' and b.op == 'glob':
        if a.a[0].rsplit('.', 1)[0] == b.a[0].rsplit('.', 1)[0]:
            return FALSE
    if (a.op == 'glob' and b.op == 'const') or (a.op == 'const' and b.op == 'glob'):
        return FALSE
    if b.op == 'const' and isinstance(cval(b), (str, bytes)) and len(cval(b)) == 0:
        return NOT(ge0(add(length(a), const(-1))))
    u, w = set_elements(a), set_elements(b)
    if u is not None and w is not None and (len(u) == 1 or len(w) == 1) and len(u) + len(w) <= 9:
        # equal to a set of one element: every element is that one
        return AND(*[EQ(x, y) for x in u for y in w])
    if a.op == 'seq' and b.op == 'seq' and a.ty == b.ty:
        if len(a.a) != len(b.a):
            return FALSE
        return AND(*[EQ(x, y) for x, y in zip(a.a, b.a)])
    if b.op in ('const', 'glob'):
        return atom(raw('eq', (a, b)))
    if a.id > b.id:
        a, b = b, a
    return atom(raw('eq', (a, b)))


def LT(a, b):
    """a < b"""
    def f(x, y):
        if x.op == 'const' and y.op == 'const':
            try:
                return TRUE if cval(x) < cval(y) else FALSE
            except TypeError:
                pass
        if x.op == 'const' and cval(x) == float('inf'):
            return FALSE
        if x.ty in ('str', 'bytes', 'tuple', 'list', 'float') or y.ty in ('str', 'bytes', 'tuple', 'list', 'float') \
                or x.ty in ('set',):
            return atom(raw('lt', (x, y)))
        return ge0(add(y, scale(x, -1), const(-1)))
    return lift(f, a, b)


# ------------------------------------------------------------------------------------------ generic terms
def mk(op, *args, ty=None):
    """Uninterpreted operation; conditions in its arguments are lifted out."""
    idx = [i for i, x in enumerate(args) if isinstance(x, T)]
    ts = [args[i] for i in idx]
    if not any(x.op == 'ite' for x in ts):
        return raw(op, args, ty)

    def f(*xs):
        ar = list(args)
        for i, x in zip(idx, xs):
            ar[i] = x
        return raw(op, tuple(ar), ty)
    return lift(f, *ts)


def undef():
    return raw('undef', ())


# ------------------------------------------------------------------------------------------ sequences
def seq(items, ty='list'):
    """A literal; a condition inside an element stays inside (elements are not lifted) except for tuples."""
    items = tuple(items)
    if ty == 'tuple' or len(items) <= 2:
        if any(x.op == 'ite' for x in items):
            return lift(lambda *xs: raw('seq', tuple(xs), ty), *items) if ty != 'tuple' else \
                lift(lambda *xs: raw('seq', tuple(xs), ty), *items)
    else:
        if any(x.op == 'ite' for x in items):
            return lift(lambda *xs: raw('seq', tuple(xs), ty), *items)
    return raw('seq', items, ty)


def empty(ty):
    if ty == 'str':
        return const('')
    if ty == 'bytes':
        return const(b'')
    return raw('seq', (), ty)


def concat(parts, ty='list'):
    def f(*ps):
        out = []
        for p in ps:
            sub_ = p.a if p.op == 'concat' and p.ty == ty else (p,)
            for q in sub_:
                if q.op == 'seq' and not q.a:
                    continue
                if q.op == 'const' and isinstance(cval(q), (str, bytes)):
                    if not cval(q):
                        continue
                    if out and out[-1].op == 'const':
                        out[-1] = const(cval(out[-1]) + cval(q))
                        continue
                elif ty == 'str' and q.ty is None and q.op not in ('str',):
                    q = raw('str', (q,), 'str')
                if q.op == 'seq' and out and out[-1].op == 'bigcat' and ty == 'list' and out[-1].a[3][0].op == 'seq' and \
                        len(out[-1].a[3][0].a) == 1 and nonneg(out[-1].a[2][0]):
                    # a comprehension that goes on for some more elements
                    vs, bodies = open_binder(out[-1])
                    n, j = out[-1].a[2][0], 0
                    while j < len(q.a) and subst(bodies[0].a[0], {vs[0]: n}) is q.a[j]:
                        n, j = add(n, ONE), j + 1
                    if j:
                        out[-1] = mk_bigcat(vs[0], n, bodies[0], ty)
                        if j == len(q.a):
                            continue
                        q = raw('seq', q.a[j:], ty)
                if q.op == 'seq' and out and out[-1].op == 'seq':
                    out[-1] = raw('seq', out[-1].a + q.a, ty)
                    continue
                out.append(q)
        if not out:
            return empty(ty)
        if len(out) == 1:
            return out[0]
        return raw('concat', tuple(out), ty)
    return lift(f, *parts)


def length(t):
    return lift(_length, t)


def _array_format(t):
    """(n, c) when t is struct.unpack of n numbers of the one native kind c."""
    if t.op == 'ext' and t.a[0] == 'struct.unpack' and len(t.a) == 3 and t.a[1].op == 'concat' and len(t.a[1].a) == 2:
        n, c = t.a[1].a
        if n.op == 'str' and c.op == 'const' and cval(c) in ('h', 'H', 'i', 'I', 'q', 'Q') and nonneg(n.a[0]):
            return n.a[0], cval(c)
    return None


def _length(t):
    if _array_format(t):
        return _array_format(t)[0]
    if t.op == 'const' and isinstance(cval(t), (str, bytes)):
        return const(len(cval(t)))
    if t.op == 'seq':
        if t.ty in ('set', 'dict'):
            return raw('len', (t,), 'int') if t.a else ZERO
        return const(len(t.a))
    if t.op == 'concat':
        return add(*[length(p) for p in t.a])
    if t.op == 'upd' and t.ty != 'dict':
        return length(t.a[0])
    if t.op == 'bigcat':
        h, extra, outs, bodies = t.a
        b = bodies[0]
        ls = [_length(x) for x in leaves(b)]
        if all(x.op == 'const' for x in ls) and len(set(ls)) == 1 and t.ty == 'list':
            return mul(max0(outs[0]), ls[0])
        if t.ty == 'list' and all(h not in x.bvs for x in ls):
            pass
    if t.op == 'slice' and t.a[2] is NONE and is_const(t.a[1], 'int') and cval(t.a[1]) >= 0:
        return max0(sub(length(t.a[0]), t.a[1]))
    if t.op == 'repeat':
        return mul(length(t.a[0]), max0(t.a[1]))
    if t.op == 'idx' and t.a[0].ty == 'str':
        return ONE
    if t.op == 'ret' and (t.a[0], len(t.a)) in AS_LONG_AS:
        return length(t.a[AS_LONG_AS[t.a[0], len(t.a)]])
    return raw('len', (t,), 'int')


# methods (with their number of arguments) of the reviewed program whose result is as long as an argument
AS_LONG_AS = {('get_char_category_types', 3): 2}


def count_of(t):
    """Number of iterations over t, possibly negative for none."""
    if t.op == 'bigcat' and t.ty == 'list':
        b = t.a[3][0]
        if b.op == 'seq' and len(b.a) == 1:
            return t.a[2][0]
    if t.op == 'slice' and t.a[2] is NONE and is_const(t.a[1], 'int') and cval(t.a[1]) >= 0:
        return sub(count_of(t.a[0]), t.a[1])
    return length(t)


def idx(x, i, ty=None):
    return lift(lambda x, i: _idx(x, i, ty), x, i)


def _idx(x, i, ty=None):
    if x.op == 'enummembers':
        return mk('enumitem', x.a[0], i)
    if is_const(i, 'int') and cval(i) < 0 and x.ty != 'dict':
        if x.op == 'seq' and -cval(i) <= len(x.a):
            return x.a[cval(i)]
        return idx(x, add(length(x), i))
    if x.op == 'seq' and is_const(i, 'int') and x.ty in ('list', 'tuple'):
        if 0 <= cval(i) < len(x.a):
            return x.a[cval(i)]
    if x.op == 'dict' and i.op == 'const':
        for k, v in x.a:
            if k is i:
                return v
    if x.op == 'dict' and i.op != 'const' and 0 < len(x.a) <= 8 and \
            all(k.op == 'const' and v.op in ('const', 'glob', 'classref', 'funcref', 'extref') for k, v in x.a):
        r = undef()
        for k, v in x.a:
            r = ITE(EQ(i, k), v, r)
        return r
    if _array_format(x):
        n, c = _array_format(x)
        if nonneg(i):
            b, at = x.a[2], scale(i, struct.calcsize(c))
            if b.op == 'slice' and nonneg(b.a[1]):
                b, at = b.a[0], add(b.a[1], at)
            return mk('ext', 'int.from_bytes', slice_(b, at, add(at, const(struct.calcsize(c)))), const('little'),
                      *([TRUE] if c.islower() else []), ty='int')
    if x.op == 'ext' and x.a[0] in ('struct.unpack', 'struct.unpack_from') and i is ZERO and len(x.a) in (3, 4) and \
            x.a[1].op == 'const' and x.a[-1].op != 'kw' and \
            str(cval(x.a[1])) in ('<h', '<H', '<i', '<I', '<l', '<L', '<q', '<Q'):
        b = x.a[2]
        if x.a[0] == 'struct.unpack_from':
            at = x.a[3] if len(x.a) == 4 else ZERO
            b = slice_(b, at, add(at, const({'h': 2, 'i': 4, 'l': 4, 'q': 8}[cval(x.a[1])[1].lower()])))
        elif len(x.a) == 4:
            return raw('idx', (x, i))
        return mk('ext', 'int.from_bytes', b, const('little'), *([TRUE] if cval(x.a[1])[1].islower() else []), ty='int')
    if x.op == 'concat' and x.ty in ('list', 'tuple'):
        p = x.a[0]
        if p.op == 'seq' and is_const(i, 'int') and cval(i) < len(p.a):
            return p.a[cval(i)]
        q = x.a[-1]
        if q.op == 'seq' and len(x.a) >= 2:
            d = sub(i, sub(length(x), const(len(q.a))))
            if is_const(d, 'int') and 0 <= cval(d) < len(q.a):
                return q.a[cval(d)]
    if x.op == 'bigcat' and x.ty == 'list':
        b = x.a[3][0]
        if all(y.op == 'seq' and len(y.a) == 1 for y in leaves(b)):
            vs, bodies = open_binder(x)
            return subst(lift(lambda y: y.a[0], bodies[0]), {vs[0]: i})
    if x.op == 'upd':
        j = x.a[1]
        if j is i:
            return x.a[2]
        if j.op == 'const' and i.op == 'const':
            return idx(x.a[0], i)
        if isint(i) or isint(j) or i.op == 'poly' or j.op == 'poly':
            d = sub(i, j)
            if d.op == 'const':
                return x.a[2] if cval(d) == 0 else idx(x.a[0], i)
    if x.op == 'slice' and x.a[2] is NONE and nonneg(x.a[1]) and nonneg(i):
        return idx(x.a[0], add(x.a[1], i))
    if x.op == 'const' and i.op == 'const' and isinstance(cval(x), (str, bytes)):
        try:
            return const(cval(x)[cval(i)])
        except (IndexError, TypeError):
            pass
    if x.ty == 'str':
        ty = 'str'
    elif x.ty == 'bytes':
        ty = 'byte'
    elif x.op == 'idx' and x.a[0].op == 'ret' and x.a[0].a[0].rsplit('.', 1)[-1] == 'lookup' and i.op == 'const':
        ty = 'nat'          # (word id, length) pairs
    return raw('idx', (x, i), ty)


def slice_(x, a, b, ty=None):
    def f(x, a, b):
        if a is NONE:
            a = ZERO
        if is_const(a, 'int') and cval(a) < 0:
            if x.op != 'const':
                a = add(length(x), a)
                if a.op == 'ite':
                    return slice_(x, a, b, ty)
        if b.op == 'const' and isinstance(cval(b), int) and cval(b) < 0 and x.op != 'const':
            b = add(length(x), b)
            if b.op == 'ite':
                return slice_(x, a, b, ty)
        if b is length(x):
            b = NONE
        if a is ZERO and b is NONE:
            return x
        if a is b and a is not NONE and x.ty in ('list', 'str', 'bytes') and nonneg(a):
            return empty(x.ty)
        if x.op == 'const' and a.op == 'const' and b.op == 'const' and isinstance(cval(x), (str, bytes)):
            return const(cval(x)[cval(a):cval(b)])
        if x.op == 'seq' and is_const(a, 'int') and (b is NONE or is_const(b, 'int')) and x.ty in ('list', 'tuple'):
            return raw('seq', x.a[cval(a):cval(b)], x.ty)
        if x.op == 'bigcat' and x.ty == 'list' and is_const(a, 'int') and cval(a) > 0 and b is NONE:
            body = x.a[3][0]
            if body.op == 'seq' and len(body.a) == 1:
                vs, bodies = open_binder(x)
                return mk_bigcat(vs[0], sub(x.a[2][0], a), subst(bodies[0], {vs[0]: add(vs[0], a)}), 'list')
        if x.op == 'slice' and x.a[2] is NONE and nonneg(a) and nonneg(x.a[1]):
            nb = NONE if b is NONE else add(b, x.a[1])
            if b is NONE or nonneg(b):
                return raw('slice', (x.a[0], add(a, x.a[1]), nb), x.ty or ty)
        return raw('slice', (x, a, b), x.ty or ty)
    return lift(f, x, a, b)


def upd(x, i, v):
    def f(x, i, v):
        if x.op == 'seq' and is_const(i, 'int') and x.ty == 'list' and -len(x.a) <= cval(i) < len(x.a):
            l = list(x.a)
            l[cval(i)] = v
            return raw('seq', tuple(l), 'list')
        if v.op == 'idx' and v.a[0] is x and v.a[1] is i:
            return x                       # what is there already
        base = x
        # overwrite an earlier update of the same place; sort constant keys
        ups = []
        while base.op == 'upd' and base.a[1].op in ('const', 'glob') and i.op in ('const', 'glob'):
            ups.append((base.a[1], base.a[2]))
            base = base.a[0]
        if i.op in ('const', 'glob') and (ups or base.op == 'dict' or (base.op == 'seq' and not base.a and base.ty == 'dict')):
            d = dict(base.a) if base.op == 'dict' else {}
            if base.op == 'dict' or base.op == 'seq':
                for k, w in reversed(ups):
                    d[k] = w
                d[i] = v
                return raw('dict', tuple(sorted(d.items(), key=lambda kv: kv[0].id)), 'dict')
            for k, w in reversed(ups):
                d[k] = w
            d[i] = v
            r = base
            for k, w in sorted(d.items(), key=lambda kv: kv[0].id):
                r = raw('upd', (r, k, w), x.ty)
            return r
        if x.op == 'upd' and x.a[1] is i:
            return upd(x.a[0], i, v)
        if x.op == 'idx' and False:
            return x
        return raw('upd', (x, i, v), x.ty)
    return lift(f, x, i, v)


def join(sep, x):
    def f(sep, x):
        if sep.op == 'const' and cval(sep) == '':
            if x.op == 'seq':
                return concat(x.a, 'str')
            if x.op == 'concat':
                return concat([join(sep, p) for p in x.a], 'str')
            if x.op == 'bigcat' and x.ty == 'list':
                vs, bodies = open_binder(x)
                return mk_bigcat(vs[0], x.a[2][0], join(sep, bodies[0]), 'str')
        if x.op == 'seq' and x.a:
            out = [x.a[0]]
            for y in x.a[1:]:
                out += [sep, y]
            return concat(out, 'str')
        return raw('join', (sep, x), 'str')
    return lift(f, sep, x)


# ------------------------------------------------------------------------------------------ binders
def _replace_bv(t, h, vs, memo):
    """Raw replacement of bound variables of binder height h by fresh ones."""
    if h not in t.bvs:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'bv':
        r = vs[t.a[1]]
    else:
        r = rebuild(t, lambda x: _replace_bv(x, h, vs, memo))
    memo[t.id] = r
    return r


def open_binder(t):
    h, extra, outs, bodies = t.a
    vs = [fresh(ty) for ty in extra[0]]
    memo = {}
    return vs, [_replace_bv(b, h, vs, memo) for b in bodies]


def close(op, vs, outs, bodies, extra=(), ty=None):
    """Binder term over fresh variables vs; extra is raw data of the term."""
    tys = tuple(v.ty for v in vs)
    h = 1
    for b in bodies:
        h = max(h, b.hb + 1)
    for _ in range(6):
        m = {v: raw('bv', (h, j), v.ty) for j, v in enumerate(vs)}
        memo = {}
        nb = tuple(_subst(b, m, memo) for b in bodies)
        h2 = 1
        for b in nb:
            h2 = max(h2, b.hb + 1)
        if h2 == h:
            break
        h = h2
    return raw(op, (h, (tys,) + tuple(extra), tuple(outs), nb), ty)


def subst(t, m):
    return _subst(t, m, {})


def _subst(t, m, memo):
    if not t.fr:
        if not any(k.op != 'fresh' for k in m):
            return t
    elif not any(k.op != 'fresh' for k in m) and not any(k in t.fr for k in m):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    r = rebuild(t, lambda x: _subst(x, m, memo))
    memo[t.id] = r
    return r


def _map(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map(y, f) for y in x)
    return x


def rebuild(t, f):
    """t with f applied to its immediate subterms, through the normalising constructors."""
    op = t.op
    if op in ('const', 'sym', 'glob', 'fresh', 'bv', 'undef', 'newobj', 'newlist', 'closure'):
        return t
    if op == 'poly':
        r = const(t.a[0])
        ps = [r]
        for k, v in t.a[1]:
            p = const(v)
            for x in k:
                p = mul(p, f(x))
            ps.append(p)
        return add(*ps)
    if op == 'ite':
        a = t.a[0]
        return ITE(rebuild_atom(a, f), f(t.a[1]), f(t.a[2]))
    if op in BINDERS:
        vs, bodies = open_binder(t)
        outs = [f(x) for x in t.a[2]]
        bodies = [f(b) for b in bodies]
        return mk_binder(op, vs, outs, bodies, t.a[1][1:], t.ty)
    if op == 'len':
        return length(f(t.a[0]))
    if op == 'idx':
        return idx(f(t.a[0]), f(t.a[1]))
    if op == 'slice':
        return slice_(f(t.a[0]), f(t.a[1]), f(t.a[2]), t.ty)
    if op == 'upd':
        return upd(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if op == 'seq':
        return seq([f(x) for x in t.a], t.ty)
    if op == 'concat':
        return concat([f(x) for x in t.a], t.ty)
    if op == 'join':
        return join(f(t.a[0]), f(t.a[1]))
    if op == 'field':
        return mkfield(f(t.a[0]), t.a[1], t.ty)
    if op in ('mod', 'fdiv'):
        return (mod_ if op == 'mod' else fdiv)(f(t.a[0]), f(t.a[1]))
    if op == 'st':
        flat, put = _flatten(t.a)
        return lift(lambda *xs: mkst(*put(xs)), *[f(x) for x in flat])
    if op == 'obj' or any(isinstance(x, tuple) for x in t.a):
        flat, put = _flatten(t.a)
        return lift(lambda *xs: raw(op, put(xs), t.ty), *[f(x) for x in flat]) if flat else t
    return mk(op, *[f(x) if isinstance(x, T) else x for x in t.a], ty=t.ty)


def congruent(t, memo=None):
    """t with what an equality says used in its true branch; tests whose branches then agree are dropped."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            memo[x] = r = step(rebuild(x, go))
        return r

    def step(x):
        if x.op != 'ite':
            return x
        for k in sorted({y for a in dd_atoms(x) for y in walk(a) if y.op == 'mu' and not y.bvs}, key=lambda y: y.id):
            # where a search ends its condition holds
            vs, bodies = open_binder(k)
            x = constrain(x, subst(bodies[0], {vs[0]: k}))
            if x.op != 'ite':
                return x
        a = x.a[0]
        if a.op == 'isnone':
            m = {a.a[0]: NONE}
        elif a.op == 'eq' and (a.a[1].op == 'const' or {a.a[0].ty, a.a[1].ty} <= {'str', 'int', 'nat'}
                               or any(y.op == 'm' and y.a[0] in ('lower', 'upper', 'strip') for y in a.a)):
            y, z = a.a
            if z.op != 'const' and occurs(y, z):
                m = {z: y}
            elif z.op == 'const' or occurs(z, y) or y.id > z.id:
                m = {y: z}
            else:
                m = {z: y}
        else:
            return x
        yes, no = subst(x.a[1], m), x.a[2]
        if yes is no or yes is subst(no, m):
            return no
        return ITE(atom(a), yes, no)
    return go(t)


def occurs(x, y):
    return any(z is x for z in walk(y))


def _flatten(a):
    flat = []

    def walk(x):
        if isinstance(x, T):
            flat.append(x)
            return ('#', len(flat) - 1)
        if isinstance(x, tuple):
            return ('t', tuple(walk(y) for y in x))
        return ('c', x)
    shape = walk(a)

    def put(xs):
        def w(s):
            if s[0] == '#':
                return xs[s[1]]
            if s[0] == 't':
                return tuple(w(y) for y in s[1])
            return s[1]
        return w(shape)
    return flat, put


def rebuild_atom(a, f):
    op = a.op
    if op == 'ge':
        return ge0(add(f(a.a[0]), const(a.a[1])))
    if op == 'eq':
        return EQ(f(a.a[0]), f(a.a[1]))
    if op == 'isnone':
        return EQ(f(a.a[0]), NONE)
    if op == 'truthy':
        return truth(f(a.a[0]))
    if op == 'nonblank':
        return nonblank(f(a.a[0]))
    if op == 'lt':
        return LT(f(a.a[0]), f(a.a[1]))
    if op == 'in':
        return IN(f(a.a[0]), f(a.a[1]))
    xs = [x for x in a.a if isinstance(x, T)]

    def g(*ys):
        it = iter(ys)
        return atom(raw(op, tuple(next(it) if isinstance(x, T) else x for x in a.a)))
    return lift(g, *[f(x) for x in xs])


def IN(x, c):
    def f(x, c):
        if c.op == 'seq' and (not c.a or all(y.op in ('const', 'glob') for y in c.a)):
            return OR(*[EQ(x, y) for y in c.a])
        if c.op == 'dict':
            if all(k.op in ('const', 'glob') for k, v in c.a):
                return OR(*[EQ(x, k) for k, v in c.a])
        if c.op == 'const' and x.op == 'const' and isinstance(cval(c), str) and isinstance(cval(x), str):
            return TRUE if cval(x) in cval(c) else FALSE
        if c.op == 'seq' and c.ty in ('list', 'tuple', 'set'):
            return OR(*[EQ(x, y) for y in c.a])
        if c.op == 'enummembers':
            return truth(mk('enumhas', c.a[0], x, ty='bool'))
        return atom(raw('in', (x, c)))
    return lift(f, x, c)


def mkfield(o, name, ty=None):
    def f(o):
        if o.op == 'obj':
            for n, v in o.a[1]:
                if n == name:
                    return v
        if o.op == 'st':
            for d, v in o.a[1]:
                if d.op == 'field' and d.a[1] == name and d.a[0].op == 'hole':
                    return v
        if o.op == 'rec' and follows(o) == name:
            # the next object of the chain the recurrence follows
            h, tys, (a, n), u = o.a
            return lift(lambda n: raw('rec', (h, tys, (a, add(n, ONE)), u), o.ty), max0(n))
        return raw('field', (o, name), ty)
    return lift(f, o)


def mkst(b, cells):
    """b with the places below it that were changed."""
    hole = raw('hole', ())
    out = tuple((d, x) for d, x in cells
                if not (x.op == 'field' and d.op == 'field' and x.a[1] == d.a[1] and x is _put(d, hole, b)))
    return raw('st', (b, out)) if out else b


def follows(r):
    """The field a recurrence of one variable follows at every step, or None."""
    if len(r.a[2]) == 2 and len(r.a[3]) == 1:
        u = r.a[3][0]
        if u.op == 'field' and u.a[0].op == 'bv' and u.a[0].a == (r.a[0], 1):
            return u.a[1]
    return None


def fdiv(a, b):
    def f(a, b):
        if a.op == 'const' and b.op == 'const' and cval(b) != 0:
            return const(cval(a) // cval(b))
        if is_const(b, 'int') and cval(b) == 1:
            return a
        if is_const(b, 'int') and cval(b) > 1:
            # split off multiples
            n = cval(b)
            c, m = _poly(a)
            q, r = {}, {}
            for k, v in m.items():
                if v % n == 0:
                    q[k] = v // n
                else:
                    r[k] = v
            if q or c // n:
                rest = mkpoly(c % n, r)
                base = fdiv(rest, b) if r else ZERO
                return add(mkpoly(c // n, q), base)
            if a.op == 'fdiv' and is_const(a.a[1], 'int') and cval(a.a[1]) > 0:
                return fdiv(a.a[0], const(cval(a.a[1]) * n))
            if a.op == 'mod' and is_const(a.a[1], 'int') and cval(a.a[1]) <= n:
                return ZERO
            u = upper(a)
            if u is not None and u < 2 * n:
                return ITE(ge0(add(a, const(-n))), ONE, ZERO)
        return raw('fdiv', (a, b), 'nat' if atom_nonneg(a) and nonneg(b) else 'int')
    return lift(f, a, b)


def mod_(a, b):
    def f(a, b):
        if a.op == 'const' and b.op == 'const' and isinstance(cval(a), int) and cval(b) != 0:
            return const(cval(a) % cval(b))
        if is_const(b, 'int') and cval(b) > 0:
            n = cval(b)
            c, m = _poly(a)
            m2 = {k: v % n for k, v in m.items()}
            p = mkpoly(c % n, m2)
            if p.op == 'const':
                return const(cval(p) % n)
            if p.op == 'mod' and is_const(p.a[1], 'int') and cval(p.a[1]) <= n:
                return p
            a = p
            u = upper(a)
            if u is not None and u < 2 * n:
                return ITE(ge0(add(a, const(-n))), add(a, const(-n)), a)
        return raw('mod', (a, b), 'nat' if is_const(b, 'int') else 'int')
    return lift(f, a, b)


# ---- binder constructors (vs are fresh variables occurring in the bodies)
def _hoist(vs, body, fn):
    """Unswitch: atoms of body that do not depend on the binder's variables go outside."""
    for a in dd_atoms(body):
        if not any(v in a.fr for v in vs):
            return ITE(atom(a), fn(cof(body, a, True)), fn(cof(body, a, False)))
    return None


def mk_binder(op, vs, outs, bodies, extra, ty):
    if op == 'mu':
        return mk_mu(vs[0], bodies[0])
    if op == 'bigcat':
        return mk_bigcat(vs[0], outs[0], bodies[0], ty)
    if op == 'bigsum':
        return mk_bigsum(vs[0], outs[0], bodies[0])
    if op == 'lam':
        return close('lam', vs, outs, bodies, extra, ty)
    if op == 'rec':
        return mk_rec(vs[0], vs[1:], outs[:-1], bodies, outs[-1], extra[0])
    raise AssertionError(op)


def k_range_atom(X, k):
    """If X is exactly 'k >= n' return n."""
    if X.op == 'ite' and X.a[0].op == 'ge':
        a = X.a[0]
        c, m = a.a[1], _poly(a.a[0])[1]
        if (k,) in m and abs(m[(k,)]) == 1:
            co = m[(k,)]
            rest = mkpoly(c, {q: v for q, v in m.items() if q != (k,)})
            if k in rest.fr:
                return None
            if co == 1 and X.a[1] is TRUE and X.a[2] is FALSE:
                return scale(rest, -1)
            if co == -1 and X.a[1] is FALSE and X.a[2] is TRUE:
                return add(rest, ONE)
    return None


def mk_mu(k, X, depth=0):
    if X.op != 'ite':
        if X is TRUE:
            return ZERO
        return raw('never', (), 'nat')
    r = _hoist([k], X, lambda b: mk_mu(k, b))
    if r is not None:
        return r
    n = k_range_atom(X, k)
    if n is not None:
        return max0(n)
    if subst(X, {k: ZERO}) is TRUE:
        return ZERO
    for a in dd_atoms(X):
        if a.op == 'ge':
            # a search that ends when k reaches n never gets past it
            n = k_range_atom(atom(a), k)
            pos = True
            if n is None:
                n = k_range_atom(NOT(atom(a)), k)
                pos = False
            if n is None or n.op == 'ite' or not nonneg(n) or subst(X, {k: n}) is not TRUE:
                continue
            Y = OR(ge0(sub(k, n)), cof(constrain(X, ge0(sub(n, k))), a, not pos))
            if Y is not X and depth < 4:
                return mk_mu(k, Y, depth + 1)
    for a in dd_atoms(X):
        if a.op == 'eq':
            n = k_range_atom(cof(X, a, False), k)
            if n is None or cof(X, a, True) is not TRUE:
                continue
            for e, x in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if e.op == 'idx' and e.a[1] is k and k not in e.a[0].fr and k not in x.fr and \
                        e.a[0].ty in ('list', None) and count_of(e.a[0]) is n:
                    return ITE(IN(x, e.a[0]), raw('m', ('index', e.a[0], x), 'nat'), n)
    return close('mu', [k], (), (X,), (), 'nat')


def mk_bigcat(k, n, body, ty):
    if n.op == 'ite':
        return lift(lambda m: mk_bigcat(k, m, body, ty), n)
    if is_const(n, 'int'):
        if cval(n) <= 0:
            return empty(ty)
        if cval(n) <= 16:
            return concat([subst(body, {k: const(i)}) for i in range(cval(n))], ty)
    r = _hoist([k], body, lambda b: mk_bigcat(k, n, b, ty))
    if r is not None:
        return r
    if all((b.op == 'seq' and not b.a) or (b.op == 'const' and not cval(b)) for b in leaves(body)):
        return empty(ty)
    if ty == 'list' and body.op == 'ite' and any(a.op == 'ge' and a.a[0] is k and -2 <= a.a[1] < 0 for a in dd_atoms(body)):
        # the first element apart
        rest = mk_bigcat(k, sub(n, ONE), subst(body, {k: add(k, ONE)}), ty)
        return ITE(ge0(sub(n, ONE)), concat([subst(body, {k: ZERO}), rest], ty), empty(ty))
    # over a concatenation: one part after the other
    for x in walk(body) if k in body.fr else ():
        if x.op == 'idx' and x.a[1] is k and x.a[0].op == 'concat' and x.a[0].ty == 'list' and k not in x.a[0].fr and \
                count_of(x.a[0]) is n:
            v = fresh(x.ty)
            whole = _put(body, x, v)
            out, off = [], ZERO
            for p in x.a[0].a:
                m = length(p)
                out.append(mk_bigcat(k, m, subst(whole, {k: add(k, off), v: idx(p, k)}), ty))
                off = add(off, m)
            return concat(out, ty)
    # identity copy
    if body.op == 'seq' and len(body.a) == 1 and ty == 'list' and body.a[0].op == 'idx' and body.a[0].a[1] is k:
        x = body.a[0].a[0]
        if k not in x.fr and count_of(x) is n and x.ty in ('list', None) and x.op != 'const':
            return x
    if ty in ('str', 'bytes') and body.op == 'const':
        return ITE(ge0(sub(n, ONE)), raw('repeat', (body, n), ty), empty(ty))
    if ty == 'str':
        b = body
        if b.op == 'str' and b.a[0].op == 'idx':
            b = b.a[0]
        if b.op == 'idx' and b.a[1] is k and k not in b.a[0].fr and count_of(b.a[0]) is n and b.a[0].ty == 'str':
            return b.a[0]
    return close('bigcat', [k], (n,), (body,), (), ty)


def mk_bigsum(k, n, body):
    if n.op == 'ite':
        return lift(lambda m: mk_bigsum(k, m, body), n)
    if is_const(n, 'int'):
        if cval(n) <= 0:
            return ZERO
        if cval(n) <= 16:
            return add(ZERO, *[subst(body, {k: const(i)}) for i in range(cval(n))])
    r = _hoist([k], body, lambda b: mk_bigsum(k, n, b))
    if r is not None:
        return r
    if k not in body.fr:
        return mul(max0(n), body)
    if body.op == 'ite' and body.a[0].op == 'ge' and body.a[1].op == 'const' and body.a[2].op == 'const':
        # one of two numbers, by whether the character lies outside the basic plane
        L, c = body.a[0].a
        if c == -0x10000 and L.op == 'ord' and L.a[0].op == 'idx' and L.a[0].a[1] is k and k not in L.a[0].a[0].fr and \
                L.a[0].a[0].ty in ('str', None) and length(L.a[0].a[0]) is n:
            p, q = cval(body.a[1]), cval(body.a[2])
            units = fdiv(length(raw('m', ('encode', L.a[0].a[0], const('utf-16-le')), 'bytes')), const(2))
            return add(scale(n, q), scale(add(units, scale(n, -1)), p - q))
    if body.op == 'poly':
        # linear: invariant part and factors out
        c, m = _poly(body)
        inv = {q: v for q, v in m.items() if not any(k in x.fr for x in q)}
        var = {q: v for q, v in m.items() if q not in inv}
        if inv or c or len(var) > 1 or any(v != 1 for v in var.values()):
            out = [mul(max0(n), mkpoly(c, inv))]
            for q, v in var.items():
                out.append(scale(mk_bigsum(k, n, mkpoly(0, {q: 1})), v))
            return add(*out)
    return close('bigsum', [k], (n,), (body,), (), 'int')


def _contains(t, v):
    return v in t.fr


def split_append(u, s, ty, where=0):
    """If every leaf of u is s followed (where=0) or preceded (-1) by something without s, that as a decision diagram."""
    bad = []

    def f(x):
        if x is s:
            return empty(ty)
        if x.op == 'concat' and x.a[where] is s:
            rest = x.a[:-1] if where else x.a[1:]
            if not any(s in p.fr for p in rest):
                return concat(rest, ty)
        bad.append(x)
        return x
    r = mapleaves(f, u)
    if bad or s in r.fr:
        return None
    return r


def strip_str(t):
    return t.a[0] if t.op == 'str' else t


def _derived(k, ss, inits, ups):
    """A variable that always is the same function of another one: (its index, that function, the steps without it)."""
    for i, x in enumerate(inits):
        if x.op in ('const', 'ite', 'poly') or ups[i] is ss[i]:
            continue
        for j, y in enumerate(inits):
            if j == i or y.op == 'ite' or y is x or not any(z is x for z in walk(y)):
                continue
            f = _put(y, x, ss[i])
            if ss[i] not in f.fr or any(z is x for z in walk(f)):
                continue
            m = {ss[j]: f}
            new = [subst(u, m) for u in ups]
            if new[j] is subst(f, {ss[i]: new[i]}):
                return j, f, new
    return None


def mk_rec(k, ss, inits, ups, n, i):
    """Value of variable i after n iterations of the simultaneous recurrence."""
    if n.op == 'ite':
        return lift(lambda m: mk_rec(k, ss, inits, ups, m, i), n)
    if any(s.ty == 'bool' for s in ss):
        inits = [boolval(x) if s.ty == 'bool' else x for s, x in zip(ss, inits)]
        ups = [boolval(x) if s.ty == 'bool' else x for s, x in zip(ss, ups)]
    # only the variables the i-th depends on
    need = [i]
    for j in need:
        for m_, s in enumerate(ss):
            if s in ups[j].fr and m_ not in need:
                need.append(m_)
    if len(need) < len(ss):
        need.sort()
        ss2 = [ss[j] for j in need]
        return mk_rec(k, ss2, [inits[j] for j in need], [ups[j] for j in need], n, need.index(i))
    if is_const(n, 'int'):
        if cval(n) <= 0:
            return inits[i]
        if cval(n) <= 16:
            cur = list(inits)
            for it in range(cval(n)):
                m = {k: const(it)}
                m.update({s: c for s, c in zip(ss, cur)})
                cur = [subst(u, m) for u in ups]
            return cur[i]
    if len(ss) > 1:
        r = _derived(k, ss, inits, ups)
        if r is not None:
            j, y, ups = r
            others = [x for x in range(len(ss)) if x != j]
            rest = lambda x: mk_rec(k, [ss[o] for o in others], [inits[o] for o in others], [ups[o] for o in others], n,
                                    others.index(x))
            if i != j:
                return rest(i)
            return subst(y, {ss[o]: rest(o) for o in others if ss[o] in y.fr})
    # sub-components: variables of the component that do not depend on i
    if len(ss) > 1:
        comp = _sccs(ss, ups)
        mine = next(c for c in comp if i in c)
        if len(mine) < len(ss):
            # lower variables become closed terms in k
            m = {}
            for j in range(len(ss)):
                if j not in mine:
                    m[ss[j]] = mk_rec(k, ss, inits, ups, k, j)
            # (k is free in those: it is this recurrence's own index)
            mine = sorted(mine)
            return mk_rec(k, [ss[j] for j in mine], [inits[j] for j in mine],
                          [subst(ups[j], m) for j in mine], n, mine.index(i))
        return _rec_multi(k, ss, inits, ups, n, i)
    s, init, u = ss[0], inits[0], ups[0]
    if u is s:
        return init
    if s.ty == 'bool' and u is truth(s):
        return init
    if s not in u.fr:
        # value of the previous iteration
        last = subst(u, {k: sub(n, ONE)})
        return ITE(ge0(sub(n, ONE)), last, init)
    r = _hoist([k, s], u, lambda b: mk_rec(k, ss, inits, [b], n, i))
    if r is not None:
        return r
    if s.ty in ('int', 'nat') or isint(u) or s.ty is None:
        if all(x.op == 'poly' or x is s for x in leaves(u)) or isint(s):
            d = None
            try:
                d = sub(u, s)
            except TooBig:
                d = None
            if d is not None and s not in d.fr:
                if d.op != 'ite' and k not in d.fr:
                    return add(init, mul(d, max0(n)))
                return add(init, mk_bigsum(k, n, d))
    if s.ty in ('list', 'str', 'bytes', 'tuple'):
        p = split_append(u, s, s.ty)
        if p is not None:
            return concat([init, mk_bigcat(k, n, p, s.ty)], s.ty)
        p = split_append(u, s, s.ty, -1) if n.op != 'ite' else None
        if p is not None:
            j = fresh('nat')
            return concat([mk_bigcat(j, n, subst(p, {k: sub(sub(n, ONE), j)}), s.ty), init], s.ty)
    if s.ty == 'bool' and all(x in (TRUE, FALSE) for x in leaves(u)):
        sa = raw('truthy', (s,))
        u1, u0 = cof(u, sa, True), cof(u, sa, False)
        if s not in u1.fr and s not in u0.fr:
            if u1 is TRUE:       # some iteration satisfied u0
                K = mk_mu(k, OR(ge0(sub(k, n)), u0)) if k not in n.fr else _mu_upto(k, n, u0)
                return OR(truth(init), NOT(ge0(sub(K, n))))
            if u0 is FALSE:      # every iteration satisfied u1
                c = NOT(u1)
                K = mk_mu(k, OR(ge0(sub(k, n)), c)) if k not in n.fr else _mu_upto(k, n, c)
                return AND(truth(init), ge0(sub(K, n)))
    if init is NONE:
        # 'none yet': the first iteration apart, the others with a value
        none = atom(raw('isnone', (s,)))
        if none.op == 'ite' and none.a[0] in dd_atoms(u):
            rest = cof(u, none.a[0], False)
            first = subst(u, {k: ZERO, s: NONE})
            if any(x.op == 'field' and x.a[0] is s for x in walk(rest)) and \
                    all(x.op not in ('const', 'ite') for x in leaves(first)) and s not in first.fr:
                r = mk_rec(k, [s], [first], [subst(rest, {k: add(k, ONE)})], sub(n, ONE), 0)
                return ITE(ge0(sub(n, ONE)), r, NONE)
    if all(x is s or (x.op == 'upd' and x.a[0] is s and x.a[1] is k) for x in leaves(u)):
        # changed at the loop's index only: the element there is still the initial one
        u = subst(u, {idx(s, k): idx(init, k)})
        if s.ty == 'list' and k not in n.fr and count_of(init) is n and \
                all(x is s or s not in x.a[2].fr for x in leaves(u)):
            # every element replaced: a new list
            b = mapleaves(lambda x: seq([idx(init, k)]) if x is s else seq([x.a[2]]), u)
            if s not in b.fr:
                return mk_bigcat(k, n, b, 'list')
    elif u.op == 'upd' and u.a[0] is s and s not in u.a[1].fr and k not in n.fr:
        # from the end downwards: the same elements from the beginning upwards
        c = add(u.a[1], k)
        if k not in c.fr and c.op != 'ite' and nonneg(sub(c, sub(n, ONE))):
            v = subst(u.a[2], {idx(s, u.a[1]): idx(init, u.a[1])})
            if s not in v.fr:
                return mk_rec(k, ss, inits, [subst(upd(s, u.a[1], v), {k: sub(sub(n, ONE), k)})], n, i)
    if u.op == 'written' and u.a[0] is s and s not in u.a[1].fr and s not in u.a[2].fr and k not in init.fr and \
            u.a[2].ty in ('str', 'bytes') and k not in length(u.a[2]).fr:
        # one piece written after the other
        c, d = u.a[1:]
        at = subst(c, {k: ZERO})
        if c is add(at, mul(k, length(d))) and nonneg(length(d)):
            w = lambda n: raw('written', (init, at, mk_bigcat(k, n, d, d.ty)), s.ty)
            return ITE(ge0(sub(n, ONE)), w(n), init)
    if u.op == 'field' and u.a[0] is s and k not in u.fr:
        # a chain is followed from its first object on
        a, n = init, max0(n)
        while a.op == 'field' and a.a[1] == u.a[1]:
            a, n = a.a[0], add(n, ONE)
        if n.op == 'ite':
            return lift(lambda m: close('rec', [k, s], (a, m), (u,), (0,), s.ty), n)
        return close('rec', [k, s], (a, n), (u,), (0,), s.ty)
    return close('rec', [k, s], (init, n), (u,), (0,), s.ty)


def _mu_upto(k, n, c):
    """First j with j >= n or c(j), where n itself mentions k."""
    j = fresh('nat')
    return mk_mu(j, OR(ge0(sub(j, n)), subst(c, {k: j})))


def _sccs(ss, ups):
    n = len(ss)
    dep = [[j for j in range(n) if ss[j] in ups[i].fr] for i in range(n)]
    reach = []
    for i in range(n):
        seen, st = set(), [i]
        while st:
            x = st.pop()
            for y in dep[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        reach.append(seen)
    out, done = [], set()
    for i in range(n):
        if i in done:
            continue
        c = {i} | {j for j in reach[i] if i in reach[j]}
        done |= c
        out.append(c)
    return out


def _rec_multi(k, ss, inits, ups, n, i):
    """Mutually dependent variables, named canonically by colour refinement."""
    m_ = len(ss)
    cols = [0] * m_
    for rnd in range(m_ + 1):
        names = {}
        new = []
        csyms = {ss[j]: sym('#col%d' % cols[j], ss[j].ty) for j in range(m_)}
        kk = {k: sym('#k', 'nat')}
        for j in range(m_):
            mp = dict(csyms)
            mp.update(kk)
            new.append((cols[j], inits[j].id, subst(ups[j], mp).id))
        ranks = {c: r for r, c in enumerate(sorted(set(new)))}
        nc = [ranks[c] for c in new]
        if nc == cols:
            break
        cols = nc
    order = sorted(range(m_), key=lambda j: cols[j])
    ss2 = [ss[j] for j in order]
    return close('rec', [k] + ss2, tuple(inits[j] for j in order) + (n,), tuple(ups[j] for j in order),
                 (order.index(i),), ss[i].ty)


def mk_lam(vs, body):
    return close('lam', list(vs), (), (body,), (), None)


# ------------------------------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 12:
        return '…'
    op, a = t.op, t.a
    if op == 'const':
        return repr(a[1])
    if op in ('sym', 'glob'):
        return a[0]
    if op == 'fresh':
        return '~%d' % a[0]
    if op == 'bv':
        return ('k%d' % a[0]) if a[1] == 0 else 's%d_%d' % a[:2]
    if op == 'poly':
        out = []
        for m, c in a[1]:
            s = '*'.join(show(x, d + 1) for x in m)
            out.append(s if c == 1 else '-' + s if c == -1 else '%d*%s' % (c, s))
        if a[0]:
            out.append(str(a[0]))
        return '(' + ' + '.join(out) + ')'
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return '[%s]' % show(a[0], d + 1)
        if a[1] is FALSE and a[2] is TRUE:
            return '[not %s]' % show(a[0], d + 1)
        return '(if %s then %s else %s)' % (show(a[0], d + 1), show(a[1], d + 1), show(a[2], d + 1))
    if op == 'ge':
        return '%s >= %d' % (show(a[0], d + 1), -a[1])
    if op == 'eq':
        return '%s == %s' % (show(a[0], d + 1), show(a[1], d + 1))
    if op == 'field':
        return '%s.%s' % (show(a[0], d + 1), a[1])
    if op == 'idx':
        return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if op in BINDERS:
        h, extra, outs, bodies = a
        return '%s%d%s(%s | %s)' % (op, h, extra[1:] or '', ', '.join(show(x, d + 1) for x in outs),
                                   '; '.join(show(x, d + 1) for x in bodies))

    def s(x):
        if isinstance(x, T):
            return show(x, d + 1)
        if isinstance(x, tuple):
            return '(' + ', '.join(s(y) for y in x) + ')'
        return str(x)
    if op == 'seq':
        return ('[%s]' if t.ty == 'list' else '(%s)') % ', '.join(s(x) for x in a)
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))


def walk(t, seen=None):
    """Every distinct subterm."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(_kids(x.op, x.a))


def size(t):
    return sum(1 for _ in walk(t))
