"""Development aid: behaviour-preserving rewrites and small faults applied to the syntax trees in memory.

  selftest.py refactor [pattern]   rewrites: anything but 'equal' is listed
  selftest.py mutate [pattern]     faults: anything but 'differ' is listed
Nothing here is used by the checks.
"""
import ast
import copy
import os
import random
import sys
import time
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.compare import Comparer, Result        # noqa: E402
from sa import terms as t                      # noqa: E402
from sa.frontend import Func                   # noqa: E402
from sa.calls import is_generator              # noqa: E402


def local_names(fn):
    ps = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        ps.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        ps.add(fn.args.kwarg.arg)
    st = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return ps, st - ps


# ---------------------------------------------------------------- rewrites: fn -> list of changed copies
def r_rename(fn):
    ps, ls = local_names(fn)
    if not ls or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
        return []
    f = copy.deepcopy(fn)
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id in ls:
            n.id = 'zz_' + n.id
        if isinstance(n, ast.ExceptHandler) and n.name:
            pass
    return [f]


def each(fn, pred, change, limit=3, seed=0):
    """One copy per (sampled) node satisfying pred, changed by change(node, parent list etc)."""
    idxs = [i for i, n in enumerate(ast.walk(fn)) if pred(n)]
    random.Random(seed).shuffle(idxs)
    out = []
    for i in idxs[:limit]:
        f = copy.deepcopy(fn)
        n = [x for x in ast.walk(f)][i]
        if change(n) is not False:
            ast.fix_missing_locations(f)
            out.append(f)
    return out


def r_flip_if(fn):
    def ch(n):
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse, n.body
    return each(fn, lambda n: isinstance(n, ast.If) and n.orelse, ch)


def r_flip_if_empty(fn):
    def ch(n):
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = [ast.Pass()], n.body
    return each(fn, lambda n: isinstance(n, ast.If) and not n.orelse, ch)


def blocks(f):
    for n in ast.walk(f):
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.ClassDef):
                yield n, k, b


def each_block(fn, pred, change, limit=3, seed=0):
    cands = [(i, j) for i, (n, k, b) in enumerate(blocks(fn)) for j in range(len(b)) if pred(b, j)]
    random.Random(seed).shuffle(cands)
    out = []
    for i, j in cands[:limit]:
        f = copy.deepcopy(fn)
        b = list(blocks(f))[i][2]
        if change(b, j) is not False:
            ast.fix_missing_locations(f)
            out.append(f)
    return out


TERM = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def r_else_after_return(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], TERM) and j + 1 < len(b)

    def ch(b, j):
        b[j].orelse = b[j + 1:]
        del b[j + 1:]
    return each_block(fn, pred, ch)


def r_unelse(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], TERM)

    def ch(b, j):
        o = b[j].orelse
        b[j].orelse = []
        b[j + 1:j + 1] = o
    return each_block(fn, pred, ch)


def has_cont(body):
    from sa.stmts import has_own
    return has_own(body, (ast.Continue,))


def r_range_while(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
            isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) <= 2 and \
            not has_cont(s.body) and not s.orelse

    def ch(b, j):
        s = b[j]
        lo, hi = (ast.Constant(0), s.iter.args[0]) if len(s.iter.args) == 1 else s.iter.args
        b[j:j + 1] = ast.parse('zi = %s\nzn = %s' % (ast.unparse(lo), ast.unparse(hi))).body + [
            ast.While(ast.parse('zi < zn', mode='eval').body, ast.parse('%s = zi' % s.target.id).body + s.body +
                      ast.parse('zi += 1').body, [])]
    return each_block(fn, pred, ch)


def r_for_index(fn):
    """for x in <name or attribute>: -> indexed loop (lists only: the caller filters)."""
    def pred(b, j):
        s = b[j]
        return isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)) and not s.orelse and \
            not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'remove', 'pop') and
                    ast.unparse(x.func.value) == ast.unparse(s.iter) for x in ast.walk(s))

    def ch(b, j):
        s = b[j]
        it = ast.unparse(s.iter)
        b[j] = ast.For(ast.Name('zi', ast.Store()), ast.parse('range(len(%s))' % it, mode='eval').body,
                       ast.parse('%s = %s[zi]' % (ast.unparse(s.target), it)).body + s.body, [])
    return each_block(fn, pred, ch)


def r_enumerate(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, ast.For) and not s.orelse

    def ch(b, j):
        s = b[j]
        b[j] = ast.For(ast.parse('zi, zx = 0', mode='exec').body[0].targets[0],
                       ast.parse('enumerate(%s)' % ast.unparse(s.iter), mode='eval').body,
                       ast.parse('%s = zx' % ast.unparse(s.target)).body + s.body, [])
    return each_block(fn, pred, ch)


def r_comp_loop(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1

    def ch(b, j):
        s = b[j]
        c = s.value
        g = c.generators[0]
        body = ast.parse('zacc.append(%s)' % ast.unparse(c.elt)).body
        for i in reversed(g.ifs):
            body = [ast.If(i, body, [])]
        s.value = ast.Name('zacc', ast.Load())
        b[j:j] = ast.parse('zacc = []').body + [ast.For(g.target, g.iter, body, [])]
    return each_block(fn, pred, ch)


def r_return_temp(fn):
    def pred(b, j):
        return isinstance(b[j], ast.Return) and b[j].value is not None and not isinstance(b[j].value, (ast.Constant, ast.Name))

    def ch(b, j):
        v = b[j].value
        b[j].value = ast.Name('zr', ast.Load())
        b[j:j] = [ast.Assign([ast.Name('zr', ast.Store())], v)]
    return each_block(fn, pred, ch)


def r_swap_compare(fn):
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def ch(n):
        n.left, n.comparators = n.comparators[0], [n.left]
        n.ops = [sw[type(n.ops[0])]()]
    return each(fn, lambda n: isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in sw, ch)


def r_not_compare(fn):
    ng = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
          ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    class V(ast.NodeTransformer):
        def __init__(self, k):
            self.k = k

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in ng:
                self.k -= 1
                if self.k == 0:
                    return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ng[type(n.ops[0])]()], n.comparators))
            return n
    out = []
    for k in (1, 2, 3):
        f = copy.deepcopy(fn)
        v = V(k)
        v.visit(f)
        if v.k <= 0:
            out.append(ast.fix_missing_locations(f))
    return out


def r_demorgan(fn):
    class V(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), x) for x in n.values]))

        def visit_If(self, n):
            n.body = [self.visit(x) for x in n.body]
            n.orelse = [self.visit(x) for x in n.orelse]
            if isinstance(n.test, ast.BoolOp):
                n.test = V.visit_BoolOp(self, n.test)
                self.hit = True
            return n

        def generic_visit(self, n):
            if isinstance(n, (ast.Assign, ast.Return, ast.Call, ast.Expr)):
                return n
            return super().generic_visit(n)
    f = copy.deepcopy(fn)
    v = V()
    v.hit = False
    v.visit(f)
    return [ast.fix_missing_locations(f)] if v.hit else []


def r_nested_if(fn):
    def ch(n):
        vs = n.test.values
        n.test = vs[0]
        n.body = [ast.If(ast.BoolOp(ast.And(), vs[1:]) if len(vs) > 2 else vs[1], n.body, [])]
    return each(fn, lambda n: isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and
                isinstance(n.test.op, ast.And), ch)


def r_or_elif(fn):
    def ch(n):
        vs = n.test.values
        n.test = vs[0]
        n.orelse = [ast.If(ast.BoolOp(ast.Or(), vs[1:]) if len(vs) > 2 else vs[1], copy.deepcopy(n.body), n.orelse)]
    return each(fn, lambda n: isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or), ch)


def r_while_true(fn):
    def ch(n):
        n.body = [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body
        n.test = ast.Constant(True)
    return each(fn, lambda n: isinstance(n, ast.While) and not n.orelse and not (isinstance(n.test, ast.Constant)), ch)


def r_test_temp(fn):
    def pred(b, j):
        return isinstance(b[j], ast.If) and not isinstance(b[j].test, ast.Name)

    def ch(b, j):
        v = b[j].test
        b[j].test = ast.Name('zt', ast.Load())
        b[j:j] = [ast.Assign([ast.Name('zt', ast.Store())], v)]
    return each_block(fn, pred, ch)


def r_arg_temp(fn):
    """The first argument of a statement-level call goes to a temporary."""
    def pred(b, j):
        s = b[j]
        return isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and s.value.args and \
            not isinstance(s.value.args[0], (ast.Constant, ast.Name, ast.Starred, ast.GeneratorExp, ast.Lambda)) and \
            isinstance(s.value.func, (ast.Attribute, ast.Name)) and not any(
                isinstance(x, ast.Call) for x in ast.walk(s.value.func))

    def ch(b, j):
        v = b[j].value.args[0]
        b[j].value.args[0] = ast.Name('za', ast.Load())
        b[j:j] = [ast.Assign([ast.Name('za', ast.Store())], v)]
    return each_block(fn, pred, ch)


def r_noop(fn):
    f = copy.deepcopy(fn)
    f.body.insert(0, ast.parse('znoop = None').body[0])
    g = copy.deepcopy(fn)
    k = 1 if isinstance(g.body[0], ast.Expr) and isinstance(g.body[0].value, ast.Constant) else 0
    g.body.insert(k, ast.Pass())
    return [ast.fix_missing_locations(f), ast.fix_missing_locations(g)]


def r_augassign(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant, ast.BinOp)) and \
            isinstance(s.op, (ast.Add, ast.Sub))

    def ch(b, j):
        s = b[j]
        b[j] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
    return each_block(fn, pred, ch)


def r_ifexp(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp)

    def ch(b, j):
        s = b[j]
        x, y = copy.deepcopy(s), copy.deepcopy(s)
        x.value, y.value = s.value.body, s.value.orelse
        b[j] = ast.If(s.value.test, [x], [y])
    return each_block(fn, pred, ch)


def r_to_ifexp(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and \
            isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0])

    def ch(b, j):
        s = b[j]
        b[j] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
    return each_block(fn, pred, ch)


def used(nodes):
    return {n.id for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name)}


def r_extract_tail(fn, ctx):
    """The last statements of the body become a method / function."""
    f0 = ctx['func']
    if is_generator(fn) or f0.kind not in ('method', 'func', 'property'):
        return []
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for s in fn.body for n in ast.walk(s)):
        return []
    if any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(fn)):
        return []
    out = []
    k0 = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    for cut in {k0 + 1, len(fn.body) - 1}:
        if cut <= k0 or cut >= len(fn.body):
            continue
        f = copy.deepcopy(fn)
        tail = f.body[cut:]
        ps, _ = local_names(f)
        before = {n.id for s in f.body[:cut] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        # names surely assigned: top level simple assignments only
        sure = set()
        for s in f.body[:cut]:
            if isinstance(s, ast.Assign):
                for x in s.targets:
                    sure |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            elif isinstance(s, ast.With):
                sure |= {y.id for i in s.items if i.optional_vars is not None for y in ast.walk(i.optional_vars) if isinstance(y, ast.Name)}
        need = [x for x in sorted((ps | before) & used(tail))]
        if any(x not in ps and x not in sure for x in need):
            continue
        args = [x for x in need if x != 'self']
        meth = f0.kind in ('method', 'property')
        call = '%szhelper(%s)' % ('self.' if meth else '', ', '.join(args))
        f.body[cut:] = ast.parse('return ' + call).body if True else []
        h = ast.parse('def zhelper(%s):\n    pass' % ', '.join((['self'] if meth else []) + args)).body[0]
        h.body = tail
        out.append((ast.fix_missing_locations(f), ast.fix_missing_locations(h)))
    return out


def r_extract_expr(fn, ctx):
    f0 = ctx['func']
    if f0.kind not in ('method', 'func') or is_generator(fn):
        return []
    out = []
    cands = [(i, j) for i, (n, k, b) in enumerate(blocks(fn)) for j in range(len(b))
             if isinstance(b[j], (ast.Assign, ast.Return)) and b[j].value is not None and
             isinstance(b[j].value, (ast.Call, ast.BinOp, ast.Compare, ast.BoolOp, ast.ListComp)) and
             not any(isinstance(x, (ast.Lambda, ast.Await)) or (isinstance(x, ast.Name) and x.id == 'super') for x in ast.walk(b[j].value))]
    random.Random(1).shuffle(cands)
    for i, j in cands[:3]:
        f = copy.deepcopy(fn)
        b = list(blocks(f))[i][2]
        e = b[j].value
        ps, ls = local_names(f)
        bound = {y.id for x in ast.walk(e) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        args = sorted(((ps | ls) & used([e])) - bound - {'self'})
        meth = f0.kind == 'method'
        b[j].value = ast.parse('%szhelper(%s)' % ('self.' if meth else '', ', '.join(args)), mode='eval').body
        h = ast.parse('def zhelper(%s):\n    return 0' % ', '.join((['self'] if meth else []) + args)).body[0]
        h.body[0].value = e
        out.append((ast.fix_missing_locations(f), ast.fix_missing_locations(h)))
    return out


def r_loop_body(fn, ctx):
    """A loop body that assigns no local becomes a method."""
    f0 = ctx['func']
    if f0.kind not in ('method', 'func') or is_generator(fn):
        return []
    out = []
    cands = []
    for i, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.For) and len(n.body) >= 1:
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Lambda, ast.FunctionDef))
                   for s in n.body for x in ast.walk(s)):
                continue
            st = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            inner = used(n.body)
            # assigned names must not be visible outside the body
            outside = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)
                       and not any(x is y for s in n.body for y in ast.walk(s))}
            if st & outside:
                continue
            cands.append((i, st))
    for i, st in cands[:2]:
        f = copy.deepcopy(fn)
        n = list(ast.walk(f))[i]
        ps, ls = local_names(f)
        args = sorted(((ps | ls) & used(n.body)) - st - {'self'})
        meth = f0.kind == 'method'
        h = ast.parse('def zhelper(%s):\n    pass' % ', '.join((['self'] if meth else []) + args)).body[0]
        h.body = n.body
        n.body = ast.parse('%szhelper(%s)' % ('self.' if meth else '', ', '.join(args))).body
        out.append((ast.fix_missing_locations(f), ast.fix_missing_locations(h)))
    return out


def r_fstring(fn):
    class V(ast.NodeTransformer):
        hit = False

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and not n.keywords:
                parts = n.func.value.value.split('{}')
                if len(parts) == len(n.args) + 1 and '{' not in ''.join(parts):
                    vals = []
                    for i, p in enumerate(parts):
                        if p:
                            vals.append(ast.Constant(p))
                        if i < len(n.args):
                            vals.append(ast.FormattedValue(n.args[i], -1, None))
                    self.hit = True
                    return ast.JoinedStr(vals)
            return n
    f = copy.deepcopy(fn)
    v = V()
    v.visit(f)
    return [ast.fix_missing_locations(f)] if v.hit else []


def r_any_loop(fn):
    def pred(b, j):
        s = b[j]
        return isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and \
            s.value.func.id in ('any', 'all') and isinstance(s.value.args[0], ast.GeneratorExp)

    def ch(b, j):
        s = b[j]
        g = s.value.args[0]
        isany = s.value.func.id == 'any'
        test = g.elt if isany else ast.UnaryOp(ast.Not(), g.elt)
        body = [ast.If(test, ast.parse('return %s' % isany).body, [])]
        for i in reversed(g.generators[0].ifs):
            body = [ast.If(i, body, [])]
        b[j:j + 1] = [ast.For(g.generators[0].target, g.generators[0].iter, body, [])] + ast.parse('return %s' % (not isany)).body
    return each_block(fn, pred, ch)


def r_swap_assign(fn):
    """Adjacent assignments of constants or plain names to different targets."""
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
            (isinstance(s.value, (ast.Constant, ast.Name)) or isinstance(s.value, (ast.List, ast.Dict)) and not ast.dump(s.value).count('Name'))

    def pred(b, j):
        if j + 1 >= len(b) or not (simple(b[j]) and simple(b[j + 1])):
            return False
        x, y = b[j], b[j + 1]
        tx, ty = ast.unparse(x.targets[0]), ast.unparse(y.targets[0])
        return tx != ty and tx not in ast.unparse(y.value) and ty not in ast.unparse(x.value)

    def ch(b, j):
        b[j], b[j + 1] = b[j + 1], b[j]
    return each_block(fn, pred, ch)


REFACTORS = [r_rename, r_flip_if, r_flip_if_empty, r_else_after_return, r_unelse, r_range_while, r_for_index, r_enumerate,
             r_comp_loop, r_return_temp, r_swap_compare, r_not_compare, r_demorgan, r_nested_if, r_or_elif, r_while_true,
             r_test_temp, r_arg_temp, r_noop, r_augassign, r_ifexp, r_to_ifexp, r_fstring, r_any_loop, r_swap_assign]
WITH_HELPER = [r_extract_tail, r_extract_expr, r_loop_body]


# ---------------------------------------------------------------- faults
def m_cmp(fn):
    def ch(n):
        o = n.ops[0]
        n.ops[0] = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                    ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}[type(o)]()
    return each(fn, lambda n: isinstance(n, ast.Compare), ch, 6, 1)


def m_const(fn):
    def ch(n):
        if isinstance(n.value, bool):
            n.value = not n.value
        elif isinstance(n.value, int):
            n.value += 1
        elif isinstance(n.value, str) and n.value:
            n.value = n.value + 'x'
        else:
            return False
    doc = {id(s.value) for s in ast.walk(fn) if isinstance(s, ast.Expr)}
    return each(fn, lambda n: isinstance(n, ast.Constant) and id(n) not in doc, ch, 6, 2)


def m_del(fn):
    def pred(b, j):
        return isinstance(b[j], (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) and not (
            isinstance(b[j], ast.Expr) and isinstance(b[j].value, ast.Constant))

    def ch(b, j):
        b[j] = ast.Pass()
    return each_block(fn, pred, ch, 6, 3)


def m_bool(fn):
    def ch(n):
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    return each(fn, lambda n: isinstance(n, ast.BoolOp), ch, 4, 4)


def m_arith(fn):
    def ch(n):
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    return each(fn, lambda n: isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)), ch, 5, 5)


def m_args(fn):
    def ch(n):
        n.args[0], n.args[1] = n.args[1], n.args[0]
        return ast.dump(n.args[0]) != ast.dump(n.args[1])
    return each(fn, lambda n: isinstance(n, ast.Call) and len(n.args) >= 2, ch, 4, 6)


def m_not(fn):
    def ch(n):
        n.test = ast.UnaryOp(ast.Not(), n.test)
    return each(fn, lambda n: isinstance(n, (ast.If, ast.IfExp, ast.While)), ch, 4, 7)


def m_brk(fn):
    def pred(b, j):
        return isinstance(b[j], (ast.Break, ast.Continue))

    def ch(b, j):
        b[j] = ast.Continue() if isinstance(b[j], ast.Break) else ast.Break()
    return each_block(fn, pred, ch, 4, 8)


def m_attr(fn):
    names = sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)})

    def ch(n):
        i = names.index(n.attr)
        n.attr = names[(i + 1) % len(names)]
    return each(fn, lambda n: isinstance(n, ast.Attribute) and len(names) > 1, ch, 4, 9)


def m_name(fn):
    ps, ls = local_names(fn)
    names = sorted((ps | ls) - {'self', 'cls'})

    def ch(n):
        i = names.index(n.id)
        n.id = names[(i + 1) % len(names)]
    return each(fn, lambda n: isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1, ch, 5, 10)


MUTANTS = [m_cmp, m_const, m_del, m_bool, m_arith, m_args, m_not, m_brk, m_attr, m_name]


def with_tree(c, qual, new, helper=None):
    f = c.tp.funcs[qual]
    old = f.node
    f.node = new
    hk = None
    try:
        if helper is not None:
            pass
            q = (f.cls.qual if f.cls else f.module.name) + '.zhelper'
            h = Func('zhelper', helper, f.module, f.cls)
            c.tp.funcs[q] = h
            if f.cls is not None:
                f.cls.methods['zhelper'] = h
            else:
                f.module.funcs['zhelper'] = h
            c.tp.by_method.setdefault('zhelper', []).append(h) if f.cls else None
            c.tw._own_effects = None
            hk = q
        return c.function(qual)
    finally:
        f.node = old
        if hk:
            del c.tp.funcs[hk]
            (f.cls.methods if f.cls else f.module.funcs).pop('zhelper')
            if f.cls:
                c.tp.by_method['zhelper'].remove(h)


def work(job):
    mode, qual, root = job
    c = COMP
    fn = c.tp.funcs[qual].node
    out = []
    todo = []
    if mode == 'refactor':
        for r in REFACTORS:
            todo += [(r.__name__, x, None) for x in r(fn)]
        for r in WITH_HELPER:
            todo += [(r.__name__, x, h) for x, h in r(fn, {'func': c.tp.funcs[qual]})]
    else:
        for r in MUTANTS:
            todo += [(r.__name__, x, None) for x in r(fn)]
    for name, new, h in todo:
        t0 = time.time()
        c.end = time.monotonic() + 120
        try:
            res = with_tree(c, qual, new, h)
            v, why, fac = res.verdict, res.why, res.facets
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            v, why, fac = 'crash', '%r %s:%d' % (e, os.path.basename(tb.filename), tb.lineno), []
        out.append((qual, name, v, why, fac, ast.unparse(new) + ('\n--\n' + ast.unparse(h) if h is not None else ''), time.time() - t0))
    return out


COMP = None


def main():
    global COMP
    mode = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else ''
    COMP = Comparer(os.path.join(HERE, 'spec'), '/repo')
    quals = [q for q in COMP.sp.funcs if pat in q and q in COMP.tp.funcs and 'command_line.main' not in q]
    good = 'equal' if mode == 'refactor' else 'differ'
    tot = {}
    import json
    log = open('/tmp/x/selftest_%s.jsonl' % mode, 'w')
    with Pool(8) as p:
        for res in p.imap_unordered(work, [(mode, q, '/repo') for q in quals]):
            for q, name, v, why, fac, src, dt in res:
                tot[(name, v)] = tot.get((name, v), 0) + 1
                if v != good or dt > 20:
                    log.write(json.dumps([q, name, v, why[:300], fac, src, round(dt, 1)]) + '\n')
                    if '-q' not in sys.argv:
                        print(v, q.split('.', 1)[1], name, why[:120], '%.1fs' % dt)
    log.close()
    s = {}
    for (n, v), k in sorted(tot.items()):
        s.setdefault(n, {})[v] = k
    for n, d in s.items():
        print('%-22s %s' % (n, d))
    a = {}
    for (n, v), k in tot.items():
        a[v] = a.get(v, 0) + k
    print(a)


if __name__ == '__main__':
    main()
