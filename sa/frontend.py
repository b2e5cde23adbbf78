"""Front end: every source file of the package (.py, .pyx, .pxd) as a Python ``ast`` tree.

Cython files are parsed with Cython's own parser and converted node by node; declared C types become
annotations (``_ctypes`` on functions, ``_cfields`` on classes).  A construct the converter does not know
becomes an ``Unsupported`` marker, so that the functions containing it are reported as undecided and not
silently skipped.
"""
import ast
import copy
import os
import warnings


class Unsupported(Exception):
    pass


class FrontendError(Exception):
    """The tree cannot be analysed at all (missing anchor, syntax error)."""


# ---------------------------------------------------------------------------------------------- Cython
def _cython_tree(text, name):
    from Cython.Compiler import Errors
    from Cython.Compiler.TreeFragment import parse_from_strings
    try:
        Errors.init_thread()
    except AttributeError:
        pass
    return parse_from_strings(name, text)


_BIN = {'AddNode': ast.Add, 'SubNode': ast.Sub, 'MulNode': ast.Mult, 'ModNode': ast.Mod, 'DivNode': ast.Div,
        'PowNode': ast.Pow, 'MatMultNode': ast.MatMult}
_OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '%': ast.Mod, '/': ast.Div, '//': ast.FloorDiv, '**': ast.Pow,
        '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift}
_CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is,
        'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn}


class CyConv:
    def __init__(self, name):
        self.name = name

    def loc(self, new, old):
        try:
            new.lineno = old.pos[1]
            new.col_offset = old.pos[2]
        except (TypeError, AttributeError, IndexError):
            new.lineno = 1
            new.col_offset = 0
        new.end_lineno = new.lineno
        new.end_col_offset = new.col_offset
        return new

    # -- statements
    def stmts(self, n):
        if n is None:
            return []
        if isinstance(n, list):
            out = []
            for x in n:
                out += self.stmts(x)
            return out
        k = type(n).__name__
        f = getattr(self, 's_' + k, None)
        if f is None:
            s = self.loc(ast.Expr(self.loc(ast.Constant(None), n)), n)
            s._unsupported = 'statement ' + k
            return [s]
        r = f(n)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        return [self.loc(x, n) if not hasattr(x, 'lineno') else x for x in r]

    def body(self, n):
        b = self.stmts(n)
        return b or [self.loc(ast.Pass(), n) if n is not None else ast.Pass(lineno=1, col_offset=0)]

    def s_StatListNode(self, n):
        return self.stmts(n.stats)

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_SingleAssignmentNode(self, n):
        # imports come as assignments of ImportNode
        if type(n.rhs).__name__ == 'ImportNode':
            mod = str(n.rhs.module_name.value)
            asname = str(n.lhs.name)
            return ast.Import([ast.alias(mod, asname if asname != mod else None)])
        lhs = self.e(n.lhs, store=True)
        ann = getattr(n.lhs, 'annotation', None)
        a = ast.Assign([lhs], self.e(n.rhs))
        if ann is not None:
            a._ann = self.annotation(ann)
        return a

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.e(x, store=True) for x in n.lhs_list], self.e(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        return self.stmts(n.stats)

    def s_InPlaceAssignmentNode(self, n):
        op = _OPS.get(str(n.operator))
        if op is None:
            raise Unsupported('augmented ' + str(n.operator))
        return ast.AugAssign(self.e(n.lhs, store=True), op(), self.e(n.rhs))

    def s_FromImportStatNode(self, n):
        mod = n.module
        name = str(mod.module_name.value)
        level = mod.level if mod.level is not None else 0
        level = getattr(level, 'value', level)
        items = [ast.alias(str(a), None if str(t.name) == str(a) else str(t.name)) for a, t in n.items]
        return self._from(name, level, items)

    def _from(self, name, level, items):
        try:
            level = int(level or 0)
        except (TypeError, ValueError):
            level = 0
        if level < 0:
            level = 0
        if name.startswith('.'):
            level = len(name) - len(name.lstrip('.'))
            name = name.lstrip('.')
        return ast.ImportFrom(name or None, items, level)

    def s_FromCImportStatNode(self, n):
        items = []
        for it in n.imported_names:
            nm = str(it[1])
            asn = it[2] if len(it) > 2 else None
            items.append(ast.alias(nm, str(asn) if asn else None))
        return self._from(str(n.module_name), getattr(n, 'relative_level', 0), items)

    def s_CImportStatNode(self, n):
        return ast.Import([ast.alias(str(n.module_name), str(n.as_name) if n.as_name else None)])

    def s_IfStatNode(self, n):
        els = self.stmts(n.else_clause) if n.else_clause else []
        for c in reversed(n.if_clauses):
            i = self.loc(ast.If(self.e(c.condition), self.body(c.body), els), c)
            els = [i]
        return els

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, 'sequence') else it
        return ast.For(self.e(n.target, store=True), self.e(seq), self.body(n.body), self.stmts(n.else_clause), None)

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition) if n.condition is not None else self.loc(ast.Constant(True), n),
                         self.body(n.body), self.stmts(n.else_clause))

    def s_ReturnStatNode(self, n):
        return ast.Return(self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type) if n.exc_type is not None else None,
                         self.e(n.cause) if getattr(n, 'cause', None) is not None else None)

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_AssertStatNode(self, n):
        return ast.Assert(self.e(n.condition), None)

    def s_DelStatNode(self, n):
        return ast.Delete([self.e(a, store=True) for a in n.args])

    def s_GlobalNode(self, n):
        return ast.Global([str(x) for x in n.names])

    def s_NonlocalNode(self, n):
        return ast.Nonlocal([str(x) for x in n.names])

    def s_TryExceptStatNode(self, n):
        hs = []
        for h in n.except_clauses:
            pat = None
            if h.pattern:
                ps = [self.e(x) for x in h.pattern]
                pat = ps[0] if len(ps) == 1 else self.loc(ast.Tuple(ps, ast.Load()), h)
            hs.append(self.loc(ast.ExceptHandler(pat, str(h.target.name) if h.target is not None else None,
                                                 self.body(h.body)), h))
        return ast.Try(self.body(n.body), hs, self.stmts(n.else_clause), [])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(self.body(n.body), [], [], self.body(n.finally_clause))

    def s_WithStatNode(self, n):
        item = ast.withitem(self.e(n.manager), self.e(n.target, store=True) if n.target is not None else None)
        return ast.With([item], self.body(n.body))

    def s_CVarDefNode(self, n):
        ty = self.ctype(n.base_type)
        out = []
        for d in n.declarators:
            nm, t = self.declname(d, ty)
            default = getattr(d, 'default', None)
            if default is not None:
                a = self.loc(ast.Assign([self.loc(ast.Name(nm, ast.Store()), n)], self.e(default)), n)
            else:
                a = self.loc(ast.Pass(), n)
            a._cdecl = (nm, t)
            out.append(a)
        return out

    def declname(self, d, ty):
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return str(d.name), ty
        if k == 'CPtrDeclaratorNode':
            nm, t = self.declname(d.base, ty)
            return nm, t + '*'
        if k == 'CArrayDeclaratorNode':
            nm, t = self.declname(d.base, ty)
            return nm, t + '[]'
        if k == 'CFuncDeclaratorNode':
            nm, t = self.declname(d.base, ty)
            return nm, 'func'
        raise Unsupported('declarator ' + k)

    def ctype(self, b):
        if b is None:
            return 'object'
        k = type(b).__name__
        if k == 'CSimpleBaseTypeNode':
            nm = str(b.name) if b.name else 'object'
            if not b.is_basic_c_type:
                return '.'.join([str(x) for x in (b.module_path or [])] + [nm])
            pre = ''
            if b.signed == 0 and nm not in ('bint', 'void', 'float', 'double', 'object'):
                pre = 'unsigned '
            lg = b.longness
            return pre + ('long ' * lg if lg > 0 else 'short ' if lg < 0 else '') + nm
        if k == 'MemoryViewSliceTypeNode':
            return 'view[' + ','.join(':' for _ in b.axes) + '] of ' + self.ctype(b.base_type_node)
        if k == 'CConstTypeNode' or k == 'CConstOrVolatileTypeNode':
            return self.ctype(b.base_type)
        if k == 'TemplatedTypeNode':
            return self.ctype(b.base_type_node)
        if k == 'CComplexBaseTypeNode':
            return self.declname(b.declarator, self.ctype(b.base_type))[1]
        return 'object'

    def arguments(self, args, n, star=None, starstar=None, reqd_kw=0):
        types = {}
        pos, kw, defaults, kwd = [], [], [], []
        nkw = 0
        for a in args:
            bt = a.base_type
            k = type(bt).__name__
            nm, t = self.declname(a.declarator, self.ctype(bt))
            if not nm:                      # untyped: the 'type' holds the name
                nm, t = str(bt.name), 'object'
            arg = self.loc(ast.arg(nm, None), a)
            ann = getattr(a, 'annotation', None)
            if ann is not None:
                arg.annotation = self.annotation(ann)
            types[nm] = t
            if getattr(a, 'kw_only', 0):
                kw.append(arg)
                kwd.append(self.e(a.default) if a.default is not None else None)
            else:
                pos.append(arg)
                if a.default is not None:
                    defaults.append(self.e(a.default))
        va = self.loc(ast.arg(str(star.name), None), n) if star is not None else None
        ka = self.loc(ast.arg(str(starstar.name), None), n) if starstar is not None else None
        return ast.arguments([], pos, va, kw, kwd, ka, defaults), types

    def annotation(self, ann):
        try:
            if type(ann).__name__ == 'AnnotationNode':
                return self.e(ann.expr)
            return self.e(ann)
        except Exception:
            return None

    def s_DefNode(self, n):
        args, types = self.arguments(n.args, n, n.star_arg, n.starstar_arg)
        decos = []
        for d in (n.decorators or []):
            decos.append(self.e(d.decorator))
        f = ast.FunctionDef(str(n.name), args, self.body(n.body), decos, None)
        if n.doc is not None:
            pass
        f._ctypes = self.collect(f, types)
        f._ckind = 'def'
        return f

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ == 'CPtrDeclaratorNode':
            d = d.base
        args, types = self.arguments(d.args, n)
        name = str(d.base.name)
        f = ast.FunctionDef(name, args, self.body(n.body), [], None)
        f._ctypes = self.collect(f, types)
        f._ckind = 'cpdef' if n.overridable else 'cdef'
        f._cret = self.ctype(n.base_type)
        f._cexc = (getattr(d, 'exception_check', None), str(getattr(d, 'exception_value', None)))
        return f

    def collect(self, f, types):
        for s in ast.walk(f):
            if hasattr(s, '_cdecl'):
                types[s._cdecl[0]] = s._cdecl[1]
        return types

    def s_CClassDefNode(self, n):
        b = self.body(n.body)
        fields = {}
        keep = []
        for s in b:
            if hasattr(s, '_cdecl'):
                if s._cdecl[1] != 'func':
                    fields[s._cdecl[0]] = s._cdecl[1]
                if not isinstance(s, ast.Assign):
                    continue
            keep.append(s)
        bases = [self.e(x) for x in (n.bases.args if n.bases is not None else [])]
        c = ast.ClassDef(str(n.class_name), bases, [], keep or [ast.Pass(lineno=1, col_offset=0)], [])
        c._cfields = fields
        c._cclass = True
        return c

    def s_PyClassDefNode(self, n):
        bases = [self.e(x) for x in (n.bases.args if n.bases is not None else [])]
        decos = [self.e(d.decorator) for d in (n.decorators or [])]
        return ast.ClassDef(str(n.name), bases, [], self.body(n.body), decos)

    def s_CDefExternNode(self, n):
        return self.stmts(n.body)

    def s_CPropertyNode(self, n):
        raise Unsupported('property')

    # -- expressions
    def e(self, n, store=False):
        k = type(n).__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            if k in _BIN:
                f = self.e_bin
            else:
                raise Unsupported('expression ' + k)
        r = f(n)
        if store and hasattr(r, 'ctx'):
            self.setstore(r)
        return self.loc(r, n)

    def setstore(self, r):
        r.ctx = ast.Store()
        if isinstance(r, (ast.Tuple, ast.List)):
            for x in r.elts:
                self.setstore(x)
        if isinstance(r, ast.Starred):
            self.setstore(r.value)

    def e_bin(self, n):
        return ast.BinOp(self.e(n.operand1), _BIN[type(n).__name__](), self.e(n.operand2))

    def e_IntBinopNode(self, n):
        return ast.BinOp(self.e(n.operand1), _OPS[str(n.operator)](), self.e(n.operand2))

    e_BitwiseOrNode = e_IntBinopNode

    def e_DivNode(self, n):
        return ast.BinOp(self.e(n.operand1), _OPS[str(n.operator)](), self.e(n.operand2))

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.e(n.operand))

    def e_TildeNode(self, n):
        return ast.UnaryOp(ast.Invert(), self.e(n.operand))

    def e_PrimaryCmpNode(self, n):
        ops, comps = [], []
        ops.append(_CMP[str(n.operator)]())
        comps.append(self.e(n.operand2))
        c = n.cascade
        while c is not None:
            ops.append(_CMP[str(c.operator)]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, comps)

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceIndexNode(self, n):
        sl = ast.Slice(self.e(n.start) if n.start is not None else None,
                       self.e(n.stop) if n.stop is not None else None, None)
        if getattr(n, 'slice', None) is not None:
            sl = self.e(n.slice)
        return ast.Subscript(self.e(n.base), self.loc(sl, n), ast.Load())

    def e_SliceNode(self, n):
        g = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(g(n.start), g(n.stop), g(n.step))

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())

    def e_NameNode(self, n):
        return ast.Name(str(n.name), ast.Load())

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        args = []
        k = type(pos).__name__
        if k == 'TupleNode':
            args = [self.e(a) for a in pos.args]
        elif k == 'AsTupleNode':
            args = [ast.Starred(self.e(pos.arg), ast.Load())]
        else:
            raise Unsupported('call arguments ' + k)
        kws = []
        kwn = n.keyword_args
        if kwn is not None:
            if type(kwn).__name__ != 'DictNode':
                raise Unsupported('keyword arguments')
            for it in kwn.key_value_pairs:
                kws.append(ast.keyword(str(it.key.value), self.e(it.value)))
        c = ast.Call(self.e(n.function), args, kws)
        for x in args + kws:
            self.loc(x, n) if not hasattr(x, 'lineno') else None
        return c

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(n.test if hasattr(n, 'test') and n.test is not None else n.condition),
                         self.e(n.true_val), self.e(n.false_val))

    def e_TupleNode(self, n):
        return ast.Tuple([self.e(a) for a in n.args], ast.Load())

    def e_ListNode(self, n):
        return ast.List([self.e(a) for a in n.args], ast.Load())

    def e_SetNode(self, n):
        return ast.Set([self.e(a) for a in n.args])

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(self.e(n.target), ast.Load())

    def e_IntNode(self, n):
        v = str(n.value).rstrip('uUlL')
        if v[:1] == '0' and len(v) > 1 and v[1:].isdigit():
            return ast.Constant(int(v, 8))
        return ast.Constant(int(v, 0))

    def e_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def e_UnicodeNode(self, n):
        return ast.Constant(str(n.value))

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        v = n.value
        return ast.Constant(v.encode('latin-1') if isinstance(v, str) else bytes(v))

    def e_CharNode(self, n):
        return ast.Constant(str(n.value))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_EllipsisNode(self, n):
        return ast.Constant(Ellipsis)

    def e_TypecastNode(self, n):
        return ast.Call(self.loc(ast.Name('__cast__', ast.Load()), n),
                        [self.loc(ast.Constant(self.declname(n.declarator, self.ctype(n.base_type))[1]), n),
                         self.e(n.operand)], [])

    def e_LambdaNode(self, n):
        args, _ = self.arguments(n.args, n, n.star_arg, n.starstar_arg)
        return ast.Lambda(args, self.e(n.result_expr))

    def e_JoinedStrNode(self, n):
        return ast.JoinedStr([self.e(v) for v in n.values])

    def e_FormattedValueNode(self, n):
        spec = None
        if n.format_spec is not None:
            spec = self.e(n.format_spec)
            if not isinstance(spec, ast.JoinedStr):
                spec = self.loc(ast.JoinedStr([spec]), n)
        conv = -1
        if n.conversion_char:
            conv = ord(str(n.conversion_char)[0])
        return ast.FormattedValue(self.e(n.value), conv, spec)

    def e_YieldExprNode(self, n):
        return ast.Yield(self.e(n.arg) if n.arg is not None else None)

    def e_YieldFromExprNode(self, n):
        return ast.YieldFrom(self.e(n.arg))

    def e_AssignmentExpressionNode(self, n):
        return ast.NamedExpr(self.e(n.lhs, store=True), self.e(n.rhs))

    def _comp(self, loop):
        """The (generators, innermost append node) of a comprehension's loop nest."""
        gens = []
        cur = loop
        while True:
            k = type(cur).__name__
            if k == 'StatListNode' and len(cur.stats) == 1:
                cur = cur.stats[0]
            elif k == 'ForInStatNode':
                it = cur.iterator
                seq = it.sequence if hasattr(it, 'sequence') else it
                gens.append(ast.comprehension(self.e(cur.target, store=True), self.e(seq), [], 0))
                cur = cur.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.e(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            else:
                return gens, cur

    def e_ComprehensionNode(self, n):
        gens, app = self._comp(n.loop)
        if type(app).__name__ == 'DictComprehensionAppendNode':
            return ast.DictComp(self.e(app.key_expr), self.e(app.value_expr), gens)
        el = self.e(app.expr)
        t = str(getattr(n, 'type', '') or '')
        tn = getattr(n.type, 'name', t) if n.type is not None else 'list'
        return ast.SetComp(el, gens) if 'set' in str(tn) else ast.ListComp(el, gens)

    def e_GeneratorExpressionNode(self, n):
        gens, app = self._comp(n.loop)
        # the innermost is ExprStatNode(YieldExprNode(arg))
        y = app.expr if hasattr(app, 'expr') else app
        el = self.e(y.arg if hasattr(y, 'arg') else y)
        g = ast.GeneratorExp(el, gens)
        # the outermost iterable may have been moved out to a call argument
        return g

    def e_InlinedGeneratorExpressionNode(self, n):
        return self.e(n.gen)


def parse_cython(text, modname, path):
    try:
        tree = _cython_tree(text, modname)
    except Exception as exc:                       # CompileError etc.
        raise FrontendError('%s does not parse: %s' % (path, exc))
    conv = CyConv(modname)
    body = []
    stats = tree.body.stats if hasattr(tree.body, 'stats') else [tree.body]
    for s in stats:
        try:
            body += conv.stmts(s)
        except Unsupported as u:
            # keep going: convert what can be converted, class members one by one
            m = ast.Pass(lineno=getattr(s, 'pos', (0, 1))[1], col_offset=0)
            m._unsupported = str(u)
            body += _salvage(conv, s, str(u)) or [m]
    mod = ast.Module(body, [])
    return mod


def _salvage(conv, s, why):
    """A definition with an unsupported construct inside: keep its name with an unsupported body."""
    k = type(s).__name__
    if k in ('CClassDefNode', 'PyClassDefNode'):
        body = []
        stats = s.body.stats if hasattr(s.body, 'stats') else [s.body]
        for x in stats:
            try:
                body += conv.stmts(x)
            except Unsupported as u:
                body += _salvage(conv, x, str(u))
        name = str(s.class_name if k == 'CClassDefNode' else s.name)
        c = ast.ClassDef(name, [conv.e(b) for b in (s.bases.args if s.bases is not None else [])], [],
                         body or [ast.Pass(lineno=1, col_offset=0)], [])
        c._cfields = {}
        for b in body:
            if hasattr(b, '_cdecl') and b._cdecl[1] != 'func':
                c._cfields[b._cdecl[0]] = b._cdecl[1]
        return [conv.loc(c, s)]
    if k in ('DefNode', 'CFuncDefNode'):
        p = ast.Pass(lineno=s.pos[1], col_offset=0)
        p._unsupported = why
        if k == 'DefNode':
            args, types = conv.arguments(s.args, s, s.star_arg, s.starstar_arg)
            name = str(s.name)
        else:
            d = s.declarator
            while type(d).__name__ == 'CPtrDeclaratorNode':
                d = d.base
            args, types = conv.arguments(d.args, s)
            name = str(d.base.name)
        f = ast.FunctionDef(name, args, [p], [], None)
        f._ctypes = types
        return [conv.loc(f, s)]
    return []


# ---------------------------------------------------------------------------------------------- program
class Func:
    __slots__ = ('name', 'qual', 'node', 'module', 'cls', 'kind', 'path', 'lineno')

    def __init__(self, name, node, module, cls):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.qual = module.name + '.' + (cls.qualname + '.' if cls else '') + name
        self.path = module.path
        self.lineno = node.lineno
        self.kind = 'method' if cls else 'func'
        for d in node.decorator_list:
            s = ast.unparse(d).split('(')[0].split('.')[-1]
            if s in ('staticmethod', 'classmethod'):
                self.kind = s
            elif s == 'property':
                self.kind = 'property'
            elif s == 'setter':
                self.kind = 'setter'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def params_all(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def annotation(self, name):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        return None

    def required(self):
        a = self.node.args
        return len(a.posonlyargs + a.args) - len(a.defaults)

    def __repr__(self):
        return '<%s>' % self.qual


class Class:
    def __init__(self, name, node, module, outer=None):
        self.name, self.node, self.module, self.outer = name, node, module, outer
        self.qualname = (outer.qualname + '.' if outer else '') + name
        self.qual = module.name + '.' + self.qualname
        self.methods = {}
        self.consts = {}          # class attribute -> expression node
        self.inner = {}
        self.bases = [ast.unparse(b) for b in node.bases]
        self.basenodes = node.bases
        self.cfields = dict(getattr(node, '_cfields', {}))
        for s in node.body:
            self.add(s)

    def add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(s.name, s, self.module, self)
            if f.kind == 'setter':
                self.methods[s.name + '.setter'] = f
            else:
                self.methods[s.name] = f
        elif isinstance(s, ast.ClassDef):
            self.inner[s.name] = Class(s.name, s, self.module, self)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            self.consts[s.target.id] = s.value

    def __repr__(self):
        return '<class %s>' % self.qual


class Cascades(ast.NodeTransformer):
    """Cython 3 negates only the first step of a chain: not (a is b is c) is compiled as (a is not b) and (b is c)."""
    NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        c = n.operand
        if isinstance(n.op, ast.Not) and isinstance(c, ast.Compare) and len(c.ops) > 1 and type(c.ops[0]) in self.NEG:
            return ast.copy_location(ast.Compare(c.left, [self.NEG[type(c.ops[0])]()] + c.ops[1:], c.comparators), n)
        return n


class Dynamic(ast.NodeTransformer):
    """Attributes named by constant strings, as attributes: getattr(x, 'a'), setattr(x, 'a', v).

    A loop over constant names whose body uses its variable to name an attribute is unrolled first."""

    def visit_For(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List)) and not n.orelse and \
                0 < len(n.iter.elts) <= 16 and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.iter.elts):
            v = n.target.id
            inner = [x for s in n.body for x in ast.walk(s)]
            named = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'setattr') and
                        len(x.args) > 1 and isinstance(x.args[1], ast.Name) and x.args[1].id == v for x in inner)
            if named and not any(isinstance(x, (ast.Break, ast.Continue)) or
                                 isinstance(x, ast.Name) and x.id == v and not isinstance(x.ctx, ast.Load) for x in inner):
                out = [ast.copy_location(ast.Assign([ast.copy_location(ast.Name(v, ast.Store()), n)], n.iter.elts[-1]), n)]
                for c in n.iter.elts:
                    for s in n.body:
                        out.insert(-1, Put(v, c).visit(copy.deepcopy(s)))
                return [y for s in out for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(s))]
        return self.generic_visit(n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) == 2 and not n.keywords and name_const(n.args[1]):
            return ast.copy_location(ast.Attribute(n.args[0], n.args[1].value, ast.Load()), n)
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'setattr' and len(c.args) == 3 and \
                not c.keywords and name_const(c.args[1]):
            return ast.copy_location(ast.Assign([ast.copy_location(ast.Attribute(c.args[0], c.args[1].value, ast.Store()), n)],
                                                c.args[2]), n)
        return n


class Put(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        return ast.copy_location(ast.Constant(self.value.value), n) if n.id == self.name else n


def name_const(x):
    return isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier()


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.load(tree.body)

    def load(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(s.name, s, self, None)
            elif isinstance(s, ast.ClassDef):
                if s.name in self.classes:           # .pxd declaration first, then the .pyx body
                    old = self.classes[s.name]
                    new = Class(s.name, s, self)
                    cf = dict(old.cfields)
                    cf.update(new.cfields)
                    new.cfields = cf
                    self.classes[s.name] = new
                else:
                    self.classes[s.name] = Class(s.name, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None and isinstance(s.target, ast.Name):
                    self.consts[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                base = self.resolve_from(s)
                for a in s.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name if base else a.name
            elif isinstance(s, (ast.If, ast.Try)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self.load(getattr(s, fld, []) or [])
                for h in getattr(s, 'handlers', []):
                    self.load(h.body)

    def resolve_from(self, s):
        if not s.level:
            return s.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
        return '.'.join(parts + ([s.module] if s.module else []))


class Program:
    """All modules of one source tree."""

    def __init__(self, root, package='sudachipy', overrides=None):
        self.root, self.package = root, package
        self.modules = {}
        self.files = 0
        self.lines = 0
        top = os.path.join(root, package)
        if not os.path.isdir(top):
            raise FrontendError('no package directory %s' % top)
        found = []
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'resources'))
            for f in sorted(fs):
                if f.endswith(('.py', '.pyx')):
                    found.append(os.path.join(d, f))
        for path in found:
            self.load(path)
        self.index()

    def modname(self, path):
        rel = os.path.relpath(path, self.root)
        rel = os.path.splitext(rel)[0].replace(os.sep, '.')
        return rel[:-9] if rel.endswith('.__init__') else rel

    def load(self, path):
        name = self.modname(path)
        with open(path, encoding='utf-8') as f:
            text = f.read()
        self.files += 1
        self.lines += text.count('\n')
        if path.endswith('.pyx'):
            tree = parse_cython(text, name, path)
            pxd = path[:-3] + 'pxd'
            if os.path.exists(pxd):
                with open(pxd, encoding='utf-8') as f:
                    ptext = f.read()
                self.files += 1
                self.lines += ptext.count('\n')
                ptree = parse_cython(ptext, name, pxd)
                tree.body = ptree.body + tree.body
        else:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    tree = ast.parse(text, path)
                except SyntaxError as e:
                    raise FrontendError('%s does not parse: %s' % (path, e))
        if path.endswith('.pyx'):
            tree = Cascades().visit(tree)
        tree = Dynamic().visit(tree)
        self.modules[name] = Module(name, os.path.relpath(path, self.root), tree)

    def index(self):
        self.classes = {}         # qualified name -> Class
        self.by_method = {}       # method name -> [Func]
        self.funcs = {}           # qualified name -> Func
        for m in self.modules.values():
            for f in m.funcs.values():
                self.funcs[f.qual] = f
            for c in m.classes.values():
                self._class(c)

    def _class(self, c):
        self.classes[c.qual] = c
        for n, f in c.methods.items():
            self.funcs[f.qual if f.kind != 'setter' else f.qual + '.setter'] = f
            self.by_method.setdefault(n, []).append(f)
        for i in c.inner.values():
            self._class(i)

    def resolve(self, dotted, seen=()):
        """The definition a dotted name stands for: Module, Class, Func, ('const', Module|Class, name) or None."""
        if dotted in seen:
            return None
        seen = seen + (dotted,)
        if dotted in self.modules:
            return self.modules[dotted]
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            head = '.'.join(parts[:i])
            if head in self.modules:
                return self._member(self.modules[head], parts[i:], seen)
        return None

    def _member(self, obj, rest, seen):
        for j, p in enumerate(rest):
            if isinstance(obj, Module):
                if p in obj.classes:
                    obj = obj.classes[p]
                elif p in obj.funcs:
                    obj = obj.funcs[p]
                elif p in obj.consts:
                    return ('const', obj, p) if j == len(rest) - 1 else None
                elif p in obj.imports:
                    obj = self.resolve('.'.join([obj.imports[p]]), seen)
                    if obj is None or isinstance(obj, tuple):
                        return obj if j == len(rest) - 1 else None
                elif obj.name + '.' + p in self.modules:
                    obj = self.modules[obj.name + '.' + p]
                else:
                    return None
            elif isinstance(obj, Class):
                m = self.lookup(obj, p)
                if m is None:
                    return None
                obj = m
                if isinstance(obj, tuple):
                    return obj if j == len(rest) - 1 else None
            else:
                return None
        return obj

    def base_classes(self, c):
        out = []
        for b in c.bases:
            r = None
            if c.outer is not None and b in c.outer.inner:
                r = c.outer.inner[b]
            elif b in c.module.classes:
                r = c.module.classes[b]
            else:
                head = b.split('.')[0]
                if head in c.module.imports:
                    r = self.resolve('.'.join([c.module.imports[head]] + b.split('.')[1:]))
            if isinstance(r, Class):
                out.append(r)
        return out

    def mro(self, c):
        out = [c]
        for b in self.base_classes(c):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def lookup(self, c, name):
        """Class attribute: Func, Class or ('const', Class, name)."""
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
            if name in k.inner:
                return k.inner[name]
            if name in k.consts:
                return ('const', k, name)
        return None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]
