"""What the summariser knows about one source tree: names, classes, field types, constants, effects."""
import ast
import builtins as _b
from . import terms as t
from .terms import T, const, sym, glob, raw, mk
from .frontend import Program, Func, Class, Module
from .effects import Effects
from .eval import Undecided, Frame, St, newptr, is_alloc

BUILTINS = set(dir(_b))
CINT = {'int', 'long', 'unsigned int', 'long long', 'short', 'unsigned long', 'Py_ssize_t', 'size_t', 'unsigned', 'char',
        'const short'}

# names by which the package calls objects of a kind when no annotation says so
PARAM_CLASS = {
    'input_text': 'sudachipy.utf8inputtext.UTF8InputText', 'input_': 'sudachipy.utf8inputtext.UTF8InputText',
    'builder': 'sudachipy.utf8inputtextbuilder.UTF8InputTextBuilder',
    'lattice': 'sudachipy.lattice.Lattice', 'grammar': 'sudachipy.dictionarylib.grammar.Grammar',
    'node': 'sudachipy.latticenode.LatticeNode', 'l_node': 'sudachipy.latticenode.LatticeNode',
    'r_node': 'sudachipy.latticenode.LatticeNode',
    'lexicon': 'sudachipy.dictionarylib.lexicon.Lexicon', 'system_lexicon': 'sudachipy.dictionarylib.lexicon.Lexicon',
    'tokenizer': 'sudachipy.tokenizer.Tokenizer',
    'parser': 'sudachipy.plugin.path_rewrite.numericparser.NumericParser',
    'word_info': 'sudachipy.dictionarylib.wordinfo.WordInfo', 'wi': 'sudachipy.dictionarylib.wordinfo.WordInfo',
    'list_': 'sudachipy.morphemelist.MorphemeList',
}
PARAM_ELEM = {'path': 'sudachipy.latticenode.LatticeNode'}
PARAM_TY = {'begin': 'int', 'end': 'int', 'offset': 'int', 'index': 'int', 'i': 'int', 'idx': 'int', 'length': 'int',
            'word_id': 'int', 'wid': 'int', 'dict_id': 'int', 'pos_id': 'int', 'cp': 'int', 'code_point': 'int',
            'size': 'int', 'new_size': 'int', 'left_id': 'int', 'right_id': 'int', 'cost': 'int', 'version': 'int',
            'code_point_offset': 'int', 'num': 'int', 'number_': 'int', 'len_': 'int', 'int_': 'int',
            'str_': 'str', 'bytes_': 'bytes', 'normalized_form': 'str', 'char': 'str', 'dict_type': 'str'}
# element / field classes the code documents only by use
FIELD_ELEM = {
    ('Lattice', 'end_lists'): ('list', None), ('LexiconSet', 'lexicons'): (None, 'sudachipy.dictionarylib.lexicon.Lexicon'),
    ('MorphemeList', 'path'): (None, 'sudachipy.latticenode.LatticeNode'),
    ('CharacterCategory', 'range_list'): (None, 'sudachipy.dictionarylib.charactercategory.CharacterCategory.Range'),
}
FIELD_TY = {('UTF8InputTextBuilder', 'modified_text'): 'str', ('UTF8InputTextBuilder', 'original_text'): 'str',
            ('UTF8InputText', 'modified_text'): 'str', ('UTF8InputText', 'original_text'): 'str',
            ('UTF8InputText', 'bytes'): 'bytes', ('StringNumber', '_point'): 'int', ('StringNumber', '_scale'): 'int'}
# functions whose only effect is a memo (their own obligations check that); calls to them commute
PURE_METHODS = {
    'get_word_info', 'part_of_speech', 'part_of_speech_id', 'dictionary_form', 'normalized_form', 'reading_form',
    'synonym_group_ids', 'surface', 'is_oov', 'dictionary_id', 'lookup', 'get_dictionary_id', 'get_left_id',
    'get_right_id', 'get_cost', 'get_word_id', 'get_word_id1', 'size', 'get_part_of_speech_size',
    'get_part_of_speech_string', 'get_part_of_speech_id', 'get_connect_cost', 'get_category_types',
    'get_char_category_types', 'get_substring', 'get_char_category_continuous_length', 'can_bow',
    'get_code_points_offset_length', 'get_word_candidate_length', 'get_nodes', 'get_minimum_node', 'has_previous_node',
    'get_begin', 'get_end', 'get_surface', 'get_original_index', 'is_zero', 'check_comma', 'build_word_id', 'is_full',
    'total_size', 'storage_size', 'is_system_dictionary', 'is_user_dictionary', '_compare_word_id', 'utf8_byte_length',
    'word_id_to_offset', 'get_internal_cost', '_dump_path', 'dump', 'get_char_category_continuities', '__lookup',
    'common_prefix_search', 'begin', 'end', 'word_id', 'provide_oov', 'create_node', 'bytes_get_short_',
    'system_dict_path', 'char_def_path', 'user_dict_paths',
}
METHOD_OWNER = {
    ('get_word_info', 0): 'sudachipy.latticenode.LatticeNode', ('is_oov', 0): 'sudachipy.latticenode.LatticeNode',
    ('get_begin', 0): 'sudachipy.latticenode.LatticeNode', ('get_end', 0): 'sudachipy.latticenode.LatticeNode',
    ('get_word_id', 0): 'sudachipy.latticenode.LatticeNode', ('get_dictionary_id', 0): 'sudachipy.latticenode.LatticeNode',
    ('get_left_id', 0): 'sudachipy.latticenode.LatticeNode', ('get_right_id', 0): 'sudachipy.latticenode.LatticeNode',
    ('set_begin', 1): 'sudachipy.latticenode.LatticeNode', ('set_end', 1): 'sudachipy.latticenode.LatticeNode',
}


class World:
    def __init__(self, prog, spec=None):
        self.prog = prog
        self.spec = spec or self            # the world of the reviewed tree
        self.tcls, self.ecls = {}, {}
        self._made = {}
        self.trust = False                  # two-sided slices iterated over taken to lie within the sequence
        self.sliced = False
        self.effects = Effects(prog) if spec is None else None
        self._own_effects = self.effects
        self._final = None
        self.props = {}
        for f in prog.funcs.values():
            if f.kind == 'property':
                self.props.setdefault(f.name, []).append(f)
        self._ftypes = {}
        self._fconst = {}
        self._mods = {}
        self._cconst = {}
        self._bound = {}
        self.absent = frozenset()           # functions the other tree does not have: always replaced by their bodies
        self._checker = {}
        self._nonnull = {}
        self.fieldnames = set()
        self.stores = {}                    # attribute name -> [(class or None, function, value node)]
        self.classlevel = {}
        for f in prog.funcs.values():
            self.scan_stores(f)
        for c in prog.classes.values():
            for n in c.cfields:
                self.fieldnames.add((c.qual, n))
            for k in prog.mro(c):
                for (q, n) in list(self.fieldnames):
                    if q == k.qual:
                        self.fieldnames.add((c.qual, n))
        self.evaluator = None               # set by the driver: makes an evaluator for constants

    def reset(self):
        self.tcls, self.ecls = {}, {}
        self.sliced = False
        self._mods = {}
        self._cconst = {}
        self._fconst = {}

    def scan_stores(self, f):
        for n in ast.walk(f.node):
            ts = []
            if isinstance(n, ast.Assign):
                for x in n.targets:
                    for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x]):
                        ts.append((y, n.value if y is x else None))
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                ts.append((n.target, n.value if isinstance(n, ast.AnnAssign) else None))
            elif isinstance(n, ast.Delete):
                ts += [(x, None) for x in n.targets]
            elif isinstance(n, (ast.For, ast.comprehension)):
                ts.append((n.target, None))
            for x, v in ts:
                if isinstance(x, ast.Attribute):
                    own = f.cls if isinstance(x.value, ast.Name) and f.params() and x.value.id == f.params()[0] and \
                        f.kind in ('method', 'setter') else None
                    self.stores.setdefault(x.attr, []).append((own, f, v, n))
                    if own is not None:
                        self.fieldnames.add((own.qual, x.attr))

    # ------------------------------------------------------------------ classes of values
    def mark(self, x, cn):
        self.tcls[x] = cn
        return x

    def cls_of(self, x):
        r = self.tcls.get(x)
        if r is not None:
            return r
        if x.op == 'newobj':
            return x.a[1]
        if x.op in ('obj', 'new'):
            return x.a[0]
        if x.op == 'st':
            return self.cls_of(x.a[0])
        return None

    def common_cls(self, v):
        cs = {self.cls_of(x) for x in t.leaves(v) if x is not t.NONE and x.op != 'undef'}
        return cs.pop() if len(cs) == 1 else None

    def cls(self, q):
        return self.prog.classes.get(q)

    def inherit(self, new, old, key=None):
        for x in ([old] if key is None else [old, key]):
            if x is None:
                continue
            if x.op == 'ite':
                c = self.common_cls(x)
                ecs = {self.ecls.get(y) for y in t.leaves(x)}
                ec = ecs.pop() if len(ecs) == 1 else None
            else:
                c, ec = self.cls_of(x), self.ecls.get(x)
            for y in t.leaves(new):
                if c is not None:
                    self.tcls.setdefault(y, c)
                if ec is not None:
                    self.ecls.setdefault(y, ec)
        return new

    def annotate(self, v, ann, f):
        cn, ec, ty = self.ann_type(ann, f.module, f.cls)
        for x in t.leaves(v):
            if x.op in ('const', 'poly'):
                continue
            if cn:
                self.tcls.setdefault(x, cn)
            if ec:
                self.ecls.setdefault(x, ec)

    def ann_type(self, ann, mod, cls):
        """(class, element class, scalar type) an annotation stands for."""
        if ann is None:
            return None, None, None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    ann = ast.parse(ann.value, mode='eval').body
                except SyntaxError:
                    return None, None, None
            else:
                return None, None, None
        if isinstance(ann, ast.Name):
            if ann.id in ('int', 'str', 'bool', 'bytes', 'list', 'dict', 'set', 'tuple', 'float'):
                return None, None, ann.id
            if ann.id in CINT:
                return None, None, 'int'
            if ann.id == 'bint':
                return None, None, 'bool'
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value).split('.')[-1]
            if h in ('List', 'Sequence', 'Iterable', 'Iterator', 'list'):
                c, e, ty = self.ann_type(ann.slice, mod, cls)
                return None, c, 'list' if h in ('List', 'list') else None
            if h == 'Optional':
                c, e, ty = self.ann_type(ann.slice, mod, cls)
                return c, e, None
            return None, None, None
        try:
            d = ast.unparse(ann)
        except Exception:
            return None, None, None
        r = self.static(d, mod, cls)
        return (r.qual if isinstance(r, Class) else None), None, None

    def static(self, dotted, mod, cls=None):
        """Definition of a dotted name as seen in a module."""
        parts = dotted.split('.')
        if cls is not None and parts[0] in cls.inner:
            c = cls.inner[parts[0]]
            return c if len(parts) == 1 else None
        if parts[0] in mod.classes:
            r = mod.classes[parts[0]]
            for p in parts[1:]:
                r = r.inner.get(p) if isinstance(r, Class) else None
            return r
        if parts[0] in mod.imports:
            return self.prog.resolve('.'.join([mod.imports[parts[0]]] + parts[1:]))
        return None

    # ------------------------------------------------------------------ fields
    def cfields(self, c):
        out = {}
        for k in reversed(self.prog.mro(c)):
            out.update(k.cfields)
        return out

    def external_root(self, c):
        """Qualified name of the first base outside the package, if any."""
        for k in self.prog.mro(c):
            for b in k.bases:
                d = b.split('.')[0]
                if d in ('object', 'ABC', 'Exception') or b in ('abc.ABC',):
                    continue
                if d in k.module.imports:
                    full = '.'.join([k.module.imports[d]] + b.split('.')[1:])
                    if not full.startswith(self.prog.package):
                        if full in ('abc.ABC', 'enum.Enum', 'enum.IntEnum'):
                            continue
                        return full
                elif d in BUILTINS:
                    return b
        return None

    def external_base(self, c):
        r = self.external_root(c)
        return r is not None and r not in ('object', 'Exception', 'ValueError', 'RuntimeError')

    def is_enum(self, c):
        return any(b.split('.')[-1] in ('Enum', 'IntEnum', 'Flag', 'IntFlag') for k in self.prog.mro(c) for b in k.bases)

    def class_level(self, c, name):
        for k in self.prog.mro(c):
            if name in k.consts:
                return k
        return None

    def class_attr(self, ev, c, name):
        k = self.class_level(c, name)
        if k is None:
            return None
        return self.eval_class_const(k, name)

    def class_const(self, ev, m, k, name):
        """Value of a class-level constant that no instance overrides."""
        own = m[1]
        fam = {x.qual for x in self.prog.mro(k)} | {x.qual for x in self.prog.subclasses(own)}
        for (c, f, v, n) in self.stores.get(name, ()):
            if c is None or c.qual in fam:
                return None
        for s in self.prog.subclasses(k):
            if s is not k and name in s.consts:
                return None
        return self.eval_class_const(own, name)

    def eval_class_const(self, c, name):
        key = (c.qual, name)
        if key in self._cconst:
            return self._cconst[key]
        g = glob(c.qual + '.' + name)
        self._cconst[key] = g
        e = c.consts[name]
        if self.is_enum(c):
            return g
        if isinstance(e, ast.Call) and ast.unparse(e.func).split('.')[-1] == 'Enum':
            v = raw('classref', (c.qual + '.' + name,))
        else:
            v = self.eval_const(e, c.module, c)
        if v is None:
            v = g
        self._cconst[key] = v
        return v

    def eval_const(self, e, mod, cls, env=None):
        """Value of a constant expression, or None."""
        ev = self.evaluator(self)
        fr = Frame(None, mod, cls, 0)
        fr.classbody = cls
        ev.frames.append(fr)
        if env:
            ev.st.env.update(env)
        try:
            v = ev.expr(e)
            v = ev.reify(v)
        except (Undecided, t.TooBig, RecursionError, KeyError, AttributeError, TypeError, IndexError):
            return None
        if v.fr or any(x.op in ('newlist', 'newobj', 'closure', 'fresh') for x in t.walk(v)):
            return None
        return v

    def module_env(self, mod):
        """Values of the module-level names, statement by statement."""
        if mod.name in self._mods:
            return self._mods[mod.name]
        env = {}
        self._mods[mod.name] = env

        def run(body):
            for s in body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    if s.value is None:
                        continue
                    v = None
                    for x in ts:
                        if not isinstance(x, ast.Name):
                            continue
                        if v is None:
                            c = self.singleton(s.value, mod)
                            if c is not None:
                                v = self.mark(glob(mod.name + '.' + x.id), c.qual)
                            elif isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split('.')[-1] == 'Enum':
                                v = raw('classref', (mod.name + '.' + x.id,))
                            else:
                                v = self.eval_const(s.value, mod, None)
                        env[x.id] = v if v is not None else glob(mod.name + '.' + x.id)
                elif isinstance(s, (ast.If, ast.Try)):
                    run(s.body)
                    run(s.orelse)
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    env[s.target.id] = glob(mod.name + '.' + s.target.id)
        run(mod.tree.body)
        return env

    def singleton(self, e, mod):
        """Class of a module-level instance whose methods change it."""
        if not isinstance(e, ast.Call):
            return None
        r = self.static(ast.unparse(e.func), mod)
        if not isinstance(r, Class) or self.is_enum(r):
            return None
        for k in self.prog.mro(r):
            for f in k.methods.values():
                if f.name == '__init__':
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                            f.params() and n.value.id == f.params()[0]:
                        return r
        return None

    def field_const(self, ev, cn, name):
        """An instance field only ever set to one constant, in __init__."""
        key = (cn, name)
        if key in self._fconst:
            return self._fconst[key]
        self._fconst[key] = None
        c = self.cls(cn)
        if c is None or not name.startswith('_'):
            return None
        ss = self.stores.get(name, ())
        if not ss:
            return None
        fam = set(x.qual for x in self.prog.mro(c))
        mine = [x for x in ss if x[0] is not None and x[0].qual in fam]
        if len(mine) != 1 or len(ss) != 1:
            return None
        own, f, v, n = mine[0]
        if f.name != '__init__' or n not in f.node.body or not isinstance(v, ast.Constant) or \
                not isinstance(v.value, (int, str, bytes)) or isinstance(v.value, bool) and False:
            return None
        self._fconst[key] = const(v.value)
        return self._fconst[key]

    def field_type(self, cn, name):
        """(type, class, element class) of a field, taken from the reviewed tree where it knows the field."""
        w = self.spec
        if w is not self and (cn in w.prog.classes) and any((k.qual, name) in w.fieldnames for k in w.prog.mro(w.prog.classes[cn])):
            return w.field_type(cn, name)
        key = (cn, name)
        if key in self._ftypes:
            return self._ftypes[key]
        self._ftypes[key] = (None, None, None)
        c = self.cls(cn)
        if c is None:
            return None, None, None
        cf = self.cfields(c)
        ty = cl = ec = None
        if name in cf:
            d = cf[name]
            if d in CINT:
                ty = 'int'
            elif d == 'bint':
                ty = 'bool'
            elif d == 'list':
                ty = 'list'
            elif self.static(d, c.module) is not None:
                r = self.static(d, c.module)
                cl = r.qual if isinstance(r, Class) else None
        else:
            found = []
            fam = [x.qual for x in self.prog.mro(c)]
            for (o, f, v, n) in self.stores.get(name, ()):
                if o is None or o.qual not in fam:
                    if o is None:
                        found.append((None, None, None))
                    continue
                if isinstance(n, ast.AugAssign):
                    continue
                if v is None:
                    found.append((None, None, None))
                    continue
                found.append(self.static_type(v, f, name))
            k = self.class_level(c, name)
            if k is not None:
                found.append(self.static_type(k.consts[name], None, name))
            if found:
                cls_ = {x[1] for x in found if x[1]}
                if len(cls_) == 1:
                    cl = cls_.pop()
                els = {x[2] for x in found if x[2]}
                if len(els) == 1:
                    ec = els.pop()
                tys = {x[0] for x in found}
                if len(tys) == 1:
                    ty = tys.pop()
                    if ty == 'none':
                        ty = None
        h = FIELD_ELEM.get((cn.rsplit('.', 1)[-1], name))
        if h:
            ec = ec or h[1]
        ty = ty or FIELD_TY.get((cn.rsplit('.', 1)[-1], name))
        self._ftypes[key] = (ty, cl, ec)
        return self._ftypes[key]

    def static_type(self, e, f, name=None):
        """(scalar type, class, element class) of an expression, from its syntax."""
        if isinstance(e, ast.Constant):
            n = type(e.value).__name__
            return ({'NoneType': 'none'}.get(n, n), None, None)
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list', None, None
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict', None, None
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'set', None, None
        if isinstance(e, ast.BoolOp):
            ts = [self.static_type(x, f) for x in e.values]
            cl = {x[1] for x in ts if x[1]}
            return None, (cl.pop() if len(cl) == 1 else None), None
        if isinstance(e, ast.Name) and f is not None:
            for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
                if a.arg == e.id:
                    c, el, ty = self.ann_type(a.annotation, f.module, f.cls)
                    if c is None and a.arg in PARAM_CLASS:
                        c = PARAM_CLASS[a.arg]
                    if el is None and a.arg in PARAM_ELEM:
                        el = PARAM_ELEM[a.arg]
                    return ty if ty in ('int', 'bool', 'str', 'bytes') and a.annotation is not None else None, c, el
            return None, None, None
        if isinstance(e, ast.Call):
            d = ast.unparse(e.func)
            if d in ('list', 'sorted'):
                return 'list', None, None
            if d in ('dict', 'set', 'str', 'bool', 'tuple', 'bytes'):
                return d, None, None
            if d in ('int', 'len', 'ord'):
                return 'int', None, None
            if d.split('.')[-1] == 'defaultdict':
                return 'defaultdict', None, None
            if d == 'memoryview':
                return None, None, None
            mod = f.module if f is not None else None
            if mod is not None:
                if d.startswith('self.') and f.cls is not None:
                    r = self.prog.lookup(f.cls, d[5:]) if '.' not in d[5:] else None
                else:
                    r = self.static(d, mod, f.cls)
                if isinstance(r, Class):
                    return None, r.qual, None
                if isinstance(r, Func):
                    c, el, ty = self.ann_type(r.node.returns, r.module, r.cls)
                    return ty if ty in ('int', 'bool', 'str', 'list') else None, c, el
                head = d.split('.')[0]
                if head in mod.imports:
                    full = '.'.join([mod.imports[head]] + d.split('.')[1:])
                    if not full.startswith(self.prog.package + '.') and full.split('.')[-1][:1].isupper():
                        return None, full, None
        if isinstance(e, ast.Compare) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
            return 'bool', None, None
        if isinstance(e, ast.Attribute) and f is not None:
            return None, None, None
        return None, None, None

    def ftype_of_term(self, x):
        if x.op != 'field':
            return None
        cn = self.cls_of(x.a[0])
        return self.field_type(cn, x.a[1])[0] if cn else None

    # ------------------------------------------------------------------ names
    def is_builtin(self, name, frame):
        m = frame.module
        return name not in m.funcs and name not in m.classes and name not in m.consts and name not in m.imports

    def name(self, ev, name, frame, node):
        m = frame.module
        if getattr(frame, 'classbody', None) is not None:
            c = frame.classbody
            if name in c.consts:
                return self.eval_class_const(c, name)
            if name in c.inner:
                return raw('classref', (c.inner[name].qual,))
            if name in c.methods:
                return raw('funcref', (c.methods[name].qual,))
        if name in m.funcs:
            return raw('funcref', (m.funcs[name].qual,))
        if name in m.classes:
            return raw('classref', (m.classes[name].qual,))
        if name in m.consts:
            env = self.module_env(m)
            return env.get(name, glob(m.name + '.' + name))
        if name in m.imports:
            return self.resolve_dotted(ev, m.imports[name])
        if name == '__name__':
            return const(m.name)
        if name == '__file__':
            return glob(m.name + '.__file__')
        if name in BUILTINS:
            v = getattr(_b, name)
            return raw('extref', ('builtins.' + name,))
        if name == 'LLONG_MAX':
            return const(2 ** 63 - 1)
        if name in ('INT_MAX', 'UINT_MAX', 'LONG_MAX', 'SHRT_MAX'):
            return const({'INT_MAX': 2 ** 31 - 1, 'UINT_MAX': 2 ** 32 - 1, 'LONG_MAX': 2 ** 63 - 1, 'SHRT_MAX': 32767}[name])
        if self.bound_somewhere(name, frame, node):
            raise Undecided('name %s' % name, node)
        ev.raise_('NameError')
        return t.undef()

    def bound_somewhere(self, name, frame, node):
        """Is the name bound by anything in its module or function that is not modelled?"""
        key = frame.module.name
        if key not in self._bound:
            b = set()
            for n in ast.walk(frame.module.tree):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    b.add(n.id)
                elif isinstance(n, ast.alias):
                    b.add((n.asname or n.name).split('.')[0])
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    b.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    b.add(n.name)
                elif isinstance(n, ast.arg):
                    b.add(n.arg)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    b |= set(n.names)
            self._bound[key] = b
        mod = self._bound[key]
        if '*' in mod:
            return True
        if frame.func is None:
            return name in mod
        local = set()
        for n in ast.walk(frame.func.node):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                local.add(n.id)
            elif isinstance(n, ast.arg):
                local.add(n.arg)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                local.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                local.add(n.name)
            elif isinstance(n, ast.alias):
                local.add((n.asname or n.name).split('.')[0])
        if name in local:
            return not self.unbound_yet(name, frame.func.node, node)
        # bound at the level of the module by a statement that is not modelled
        for n in self.module_level(frame.module.tree):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id == name:
                return True
            if isinstance(n, ast.alias) and (n.asname or n.name).split('.')[0] == name:
                return True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                return True
        for n in ast.walk(frame.module.tree):
            if isinstance(n, ast.Global) and name in n.names:
                return True
        return False

    def unbound_yet(self, name, fn, use):
        """Every binding of the local name comes after its use in the text, so the first use finds it unbound."""
        if any(n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp,
                                              ast.DictComp, ast.Global, ast.Nonlocal)) and
               any(x is use for x in ast.walk(n)) for n in ast.walk(fn)):
            return False
        order = {}

        def go(n):
            # in the order of execution: the value before the target
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                if n.value is not None:
                    go(n.value)
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    go(x)
                return
            if isinstance(n, (ast.For, ast.comprehension)):
                go(n.iter)
            order.setdefault(id(n), len(order))
            for x in ast.iter_child_nodes(n):
                go(x)
        go(fn)
        at = order.get(id(use))
        if at is None:
            return False
        for n in ast.walk(fn):
            hit = isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id == name or \
                isinstance(n, ast.arg) and n.arg == name or isinstance(n, ast.ExceptHandler) and n.name == name or \
                isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn and n.name == name or \
                isinstance(n, ast.alias) and (n.asname or n.name).split('.')[0] == name
            if hit and order[id(n)] < at:
                return False
        return True

    def module_level(self, tree):
        todo = list(tree.body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def resolve_dotted(self, ev, d):
        r = self.prog.resolve(d)
        return self.ref(ev, r, d)

    def ref(self, ev, r, d):
        if isinstance(r, Module):
            return raw('modref', (r.name,))
        if isinstance(r, Class):
            return raw('classref', (r.qual,))
        if isinstance(r, Func):
            return raw('funcref', (r.qual,))
        if isinstance(r, tuple):
            if isinstance(r[1], Module):
                return self.module_env(r[1]).get(r[2], glob(r[1].name + '.' + r[2]))
            return self.eval_class_const(r[1], r[2])
        if d == 'libc.limits.LLONG_MAX':
            return const(2 ** 63 - 1)
        if d in ('sys.stdout', 'sys.stderr', 'sys.stdin', 'sys.argv', 'sys.path'):
            return glob(d)
        if d in ('math.inf',):
            return const(float('inf'))
        return raw('extref', (d,))

    def member(self, ev, o, name, node):
        if o.op == 'modref':
            m = self.prog.modules[o.a[0]]
            r = self.prog.resolve(m.name + '.' + name)
            if r is None and name in m.imports:
                return raw('extref', (m.imports[name],))
            if r is None:
                if any(isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.alias) and
                       (n.asname or n.name).split('.')[0] in (name, '*') or
                       isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name
                       for n in self.module_level(m.tree)) or name.startswith('__'):
                    raise Undecided('%s has no %s' % (m.name, name), node)
                ev.raise_('AttributeError')
                return t.undef()
            return self.ref(ev, r, m.name + '.' + name)
        if o.op == 'classref':
            c = self.cls(o.a[0])
            if c is None:
                return glob(o.a[0] + '.' + name)
            if name == '__members__' and self.is_enum(c):
                return raw('enummembers', (c.qual,), 'dict')
            r = self.prog.lookup(c, name)
            if isinstance(r, Func):
                if r.kind == 'classmethod':
                    return raw('bound', (o, name))
                return raw('funcref', (r.qual,))
            if isinstance(r, Class):
                return raw('classref', (r.qual,))
            if isinstance(r, tuple):
                return self.eval_class_const(r[1], name)
            if name in ('__name__', '__qualname__'):
                return const(c.name)
            return glob(c.qual + '.' + name)
        if o.op == 'glob':
            q, _, n = o.a[0].rpartition('.')
            c = self.cls(q)
            if c is not None and self.is_enum(c) and n in c.consts:
                if name == 'value':
                    v = self.eval_const(c.consts[n], c.module, c)
                    return v if v is not None else raw('field', (o, name))
                if name == 'name':
                    return const(n)
            return raw('field', (o, name))
        return self.ref(ev, None, o.a[0] + '.' + name)

    # ------------------------------------------------------------------ functions
    def overridden(self, c, name):
        return any(name in k.methods for k in self.prog.subclasses(c) if k is not c)

    def is_abstract(self, f):
        for d in f.node.decorator_list:
            if ast.unparse(d).split('.')[-1] == 'abstractmethod':
                return True
        return False

    def methods_named(self, name, nargs, o):
        fs = []
        own = METHOD_OWNER.get((name, nargs))
        for f in self.prog.by_method.get(name, ()):
            off = 0 if f.kind == 'staticmethod' else 1
            n = len(f.params()) - off
            lo = f.required() - off
            if f.kind == 'property' or f.kind == 'setter':
                continue
            if lo <= nargs <= n or f.node.args.vararg is not None:
                if own is not None and f.cls.qual == own:
                    return [f]
                fs.append(f)
        if len(fs) > 1:
            # one family: the topmost definition
            tops = [f for f in fs if not any(g is not f and g.cls in self.prog.mro(f.cls)[1:] for g in fs)]
            if len(tops) == 1:
                return tops + [f for f in fs if f is not tops[0]]
        return fs

    def canonical(self, f):
        q = f.qual if f.kind != 'setter' else f.qual + '.setter'
        return self.spec.prog.funcs.get(q, f)

    def known(self, f):
        q = f.qual if f.kind != 'setter' else f.qual + '.setter'
        return q in self.spec.prog.funcs

    def effects_of(self, name, f):
        from .effects import Effect
        if name in PURE_METHODS:
            return Effect()
        w = self.spec
        if w.known(f) if w is not self else True:
            fs = []
            q = f.qual if f.kind != 'setter' else f.qual + '.setter'
            if f.cls is None or f.kind in ('property', 'setter'):
                fs = [w.prog.funcs[q]] if q in w.prog.funcs else []
            elif name == '__init__':
                fs = [w.prog.funcs[q]] if q in w.prog.funcs else []
            else:
                n = len(f.params())
                fs = [g for g in w.prog.by_method.get(name, ()) if len(g.params()) == n and g.kind == f.kind]
                fam = [g for g in fs if self.related(w, g, f)]
                fs = fam or fs
            if fs:
                return w._own_effects.of(fs)
        if self._own_effects is None:
            self._own_effects = Effects(self.prog)
        return self._own_effects.of([f])

    def final_fields(self):
        """Fields the reviewed program sets in constructors only."""
        w = self.spec
        if w._final is None:
            inits, others = set(), set()
            own = {}
            for f in w.prog.funcs.values():
                if f.name == '__init__':
                    for n in ast.walk(f.node):
                        own[n] = f.params()[:1]
            for m in w.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                        if own.get(n) and isinstance(n.value, ast.Name) and n.value.id == own[n][0]:
                            inits.add(n.attr)
                        else:
                            others.add(n.attr)
            w._final = inits - others
        return w._final

    def related(self, w, g, f):
        c = w.prog.classes.get(f.cls.qual)
        if c is None or g.cls is None:
            return False
        return c in w.prog.mro(g.cls) or g.cls in w.prog.mro(c)

    def checker(self, name, f):
        """Exception class of a function that returns nothing, changes nothing and may raise; None otherwise."""
        if name in PURE_METHODS:
            return None
        q = f.qual
        if q in self._checker:
            return self._checker[q]
        from .calls import is_generator
        self._checker[q] = None
        if is_generator(f.node):
            return None
        names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and n.value is not None and not \
                    (isinstance(n.value, ast.Constant) and n.value.value is None):
                return None
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ('exit', 'sys.exit'):
                names.add('SystemExit')
            if isinstance(n, ast.Raise) and n.exc is not None:
                x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                names.add(x.id if isinstance(x, ast.Name) else getattr(x, 'attr', 'Exception'))
        if not names or self.is_abstract(f) or self.effects_of(name, f).writes:
            return None
        self._checker[q] = names.pop() if len(names) == 1 else 'Exception'
        return self._checker[q]

    def call_key(self, name, f):
        if f.cls is None:
            return f.qual
        return name if name != '__init__' else f.qual

    def field_arity(self, name):
        """Length of the list display every store of this attribute assigns, or None."""
        w = self.spec or self
        ns = set()
        for (own, f, v, n) in w.stores.get(name, ()):
            if not isinstance(v, (ast.List, ast.Tuple)) or any(isinstance(x, ast.Starred) for x in v.elts) or \
                    not isinstance(n, (ast.Assign, ast.AnnAssign)):
                return None
            ns.add(len(v.elts))
        return ns.pop() if len(ns) == 1 else None

    def never_none(self, f):
        """No function of this name can return None (judged by the reviewed source)."""
        w = self.spec or self
        if f.name not in w._nonnull:
            fs = [g for g in w.prog.funcs.values() if g.name == f.name]
            w._nonnull[f.name] = bool(fs) and all(w._gives_object(g) for g in fs)
        return w._nonnull[f.name]

    def _gives_object(self, f):
        from .calls import is_generator
        if is_generator(f.node) or not isinstance(f.node.body[-1], (ast.Return, ast.Raise)):
            return False
        own, st = [], list(f.node.body)
        while st:
            n = st.pop()
            own.append(n)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return False
            st.extend(ast.iter_child_nodes(n))
        a = f.node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        bound = {}
        for n in own:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                bound.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                return False
        stores = {}
        for n in own:
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                stores[n.id] = stores.get(n.id, 0) + 1

        def obj(e):
            if isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.JoinedStr)):
                return True
            if isinstance(e, ast.Constant):
                return e.value is not None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in bound and e.func.id not in params:
                return self.ann_type(e.func, f.module, f.cls)[0] is not None
            if isinstance(e, ast.Name) and e.id in bound and e.id not in params and stores.get(e.id) == len(bound[e.id]):
                return all(not isinstance(v, ast.Name) and obj(v) for v in bound[e.id])
            return False
        rets = [n for n in own if isinstance(n, ast.Return)]
        return bool(rets) and all(n.value is not None and obj(n.value) for n in rets)

    def ret_type(self, f):
        from .calls import is_generator
        c, e, ty = self.ann_type(f.node.returns, f.module, f.cls)
        if is_generator(f.node):
            return 'list'
        if ty in ('int', 'str', 'bool', 'bytes', 'list'):
            return ty
        return RETURNS.get(f.name)

    def note_ret(self, r, f):
        c, e, ty = self.ann_type(f.node.returns, f.module, f.cls)
        c = c or RETCLASS.get(f.name)
        e = e or RETELEM.get(f.name)
        for x in t.leaves(r):
            if c:
                self.tcls.setdefault(x, c)
            if e:
                self.ecls.setdefault(x, e)

    def default_value(self, ev, f, d):
        fr = Frame(f, f.module, f.cls, 0)
        fr.classbody = f.cls
        v = self.eval_const(d, f.module, f.cls)
        if v is None:
            raise Undecided('default value', d)
        return v

    def elements_made(self, place):
        """Whatever the class's module stores under a key of the attribute is an object made on the spot (never None)."""
        cn = self.cls_of(place.a[0])
        c = cn and self.cls(cn)
        if not c:
            return False
        field = place.a[1]
        if (FIELD_ELEM.get((cn.rsplit('.', 1)[-1], field)) or (None, None))[1]:
            return True
        if (cn, field) in self._made:
            return self._made[cn, field]
        stores, ok = 0, True
        for f in self.prog.funcs.values():
            if f.module is not c.module:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and \
                        n.func.value.attr == field and n.func.attr in ('setdefault', 'update', 'fromkeys', '__setitem__'):
                    ok = False
                if isinstance(n, (ast.AugAssign, ast.For)) and isinstance(n.target, ast.Attribute) and n.target.attr == field:
                    ok = False
                if not isinstance(n, ast.Assign):
                    continue
                for x in n.targets:
                    if isinstance(x, ast.Attribute) and x.attr == field:
                        v = n.value
                        if not (isinstance(v, ast.Dict) and not v.keys or
                                isinstance(v, ast.Call) and not v.args and isinstance(v.func, ast.Name) and v.func.id == 'dict'):
                            ok = False
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == field:
                        stores += 1
                        ok = ok and self.made(n.value, f)
        self._made[cn, field] = r = ok and stores > 0
        return r

    def made(self, e, f):
        if isinstance(e, ast.Constant):
            return e.value is not None
        if isinstance(e, ast.UnaryOp):
            return self.made(e.operand, f)
        if isinstance(e, ast.Call):
            last = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, 'attr', '')
            if isinstance(e.func, ast.Name) and last == 'len':
                return True
            return any(c.rsplit('.', 1)[-1] == last for c in self.prog.classes)
        if isinstance(e, ast.Name):
            vs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign)
                  and any(isinstance(x, ast.Name) and x.id == e.id for x in n.targets)]
            n = sum(isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))
            loops = sum(isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == e.id and
                        isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'range'
                        for x in ast.walk(f.node))
            return n > 0 and n == len(vs) + loops and \
                all(isinstance(v, (ast.Call, ast.Constant)) and self.made(v, f) for v in vs)
        return False

    def always_function(self, name):
        """A default of the parsed arguments that is a function of the module wherever it is set."""
        found = False
        for f in self.prog.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Constant) and n.value == name and f.name != 'main':
                    return False
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                    return False
                if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                    continue
                for k in n.keywords:
                    if k.arg == name or k.arg == 'dest' and getattr(k.value, 'value', None) == name:
                        if n.func.attr != 'set_defaults' or not isinstance(k.value, ast.Name) or \
                                f.module.name + '.' + k.value.id not in self.prog.funcs:
                            return False
                        found = True
        return found

    def text_stream(self, x):
        s = {'str': True}.get(x.ty)
        if s:
            return True
        for y in ([x] if x.op != 'field' else [x]):
            if y.op == 'ext' and y.a[0] == 'open':
                m = y.a[2] if len(y.a) > 2 and isinstance(y.a[2], T) else None
                return not (m is not None and m.op == 'const' and 'b' in str(t.cval(m)))
        if x.op == 'field' and isinstance(x.a[1], str):
            vs = [v for (_, _, v, n) in self.stores.get(x.a[1], ()) if not isinstance(n, ast.AugAssign)]
            if vs and all(isinstance(v, ast.Call) and
                          (v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, 'id', '')) == 'StringIO' for v in vs):
                return True
        cn = self.cls_of(x)
        return cn == 'io.StringIO'


RETURNS = {'get_begin': 'int', 'get_end': 'int', 'get_char_category_continuous_length': 'int', 'get_word_id': 'int',
           'get_part_of_speech_size': 'nat', 'storage_size': 'int', 'total_size': 'int', 'size': 'nat',
           'is_oov': 'bool', 'can_bow': 'bool', 'has_previous_node': 'bool', 'surface': 'str', 'get_code_points_offset_length': 'int',
           'get_substring': 'str', 'get_part_of_speech_id': 'int', 'get_posid': 'int', 'get_wordid': 'int', 'word_to_id': 'int',
           'parse_id': 'int', 'get_id': 'int', 'utf8_byte_length': 'nat', 'is_full': 'bool', 'is_zero': 'bool', 'append': 'bool',
           'is_system_dictionary': 'bool', 'is_user_dictionary': 'bool', 'has_grammar': 'bool', 'has_synonym_group_ids': 'bool',
           'is_dictionary': 'bool', 'contains': 'bool', 'lower': 'bool', 'get_storage_size': 'int', 'get_normalized': 'str',
           'decode': 'str', 'get_dictionary_id': 'int', 'get_word_id1': 'int', 'build_word_id': 'int', 'read_char': 'str',
           'get_connect_cost': 'int', 'done': 'bool', 'provide_oov': 'list', 'get_oov': 'list', 'buffer_to_int_array': 'list',
           'buffer_to_string': 'str', 'buffer_to_string_length': 'int', 'bytes_get_string': 'str', 'bytes_get_short': 'int',
           'is_large_unit': 'bool', 'is_small_unit': 'bool', 'check_comma': 'bool', 'parse_splitinfo': 'list', 'part_of_speech': 'list',
           'normalized_form': 'str', 'dictionary_form': 'str', 'reading_form': 'str', 'synonym_group_ids': 'list', 'dictionary_id': 'int',
           '__is_length_valid': 'bool', 'parse_synonym_group_ids': 'list', 'get_text': 'str', 'get_original_text': 'str'}
RETCLASS = {'get_character_category': 'sudachipy.dictionarylib.charactercategory.CharacterCategory',
            'get_word_info': 'sudachipy.dictionarylib.wordinfo.WordInfo', 'tokenize': 'sudachipy.morphemelist.MorphemeList',
            'parse_line': 'sudachipy.dictionarylib.dictionarybuilder.DictionaryBuilder.WordEntry',
            'build_input': 'sudachipy.utf8inputtext.UTF8InputText', 'create_node': 'sudachipy.latticenode.LatticeNode',
            'get_minimum_node': 'sudachipy.latticenode.LatticeNode'}
RETELEM = {'get_best_path': 'sudachipy.latticenode.LatticeNode', 'get_oov': 'sudachipy.latticenode.LatticeNode',
           'provide_oov': 'sudachipy.latticenode.LatticeNode', 'get_nodes': 'sudachipy.latticenode.LatticeNode'}
