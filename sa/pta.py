"""Whole-program points-to / type analysis (0-CFA with one level of receiver-class sensitivity).

Flow-insensitive inclusion constraints over the syntax trees; no repository code is executed.

Abstract values
  ('I', ClassInfo)            an instance
  ('C', ClassInfo)            a class object
  ('F', FuncInfo, ctx)        a function (closure created in ctx)
  ('B', FuncInfo, recv)       a bound method
  ('M', modname)              a module of the repository
  ('X', dotted)               something external
  ('S', str)                  a string constant (only those that can name a class, a member or a module)
  ('D', site) ('L', site) ('T', site)   dict / list,set,generator,... / tuple
  ('U', ClassInfo, recv)      super() proxy
"""
import ast
import re
import sys
from collections import defaultdict, deque
from .project import Project, ClassInfo, FuncInfo, Mod, walk_own, is_main_guard

sys.setrecursionlimit(20000)

CONTAINER = ('D', 'L', 'T')
# helper classes instantiated all over the library: one abstract instance per creating class (heap cloning)
CLONED = {'StandardProperties', 'EWC_SparseMatrix', 'EWC_ColumnVector'}
BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.MatMult: 'matmul', ast.Div: 'truediv',
       ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or',
       ast.BitXor: 'xor'}
COPY_FUNCS = {'list', 'set', 'tuple', 'sorted', 'reversed', 'frozenset', 'iter', 'deepcopy', 'copy'}


DIMS = {}
# what a user program hands to the library: parameters of these names receive the objects of the package they are in
PARAMS = {'mesh': 'mesh', 'space': 'space', 'cf': 'field'}
SEEDS = {'mesh': [r'_[23]dCSCG_Mesh', r'miUsGrid_TriangularMesh'],
         'space': [r'_[23]dCSCG_PolynomialSpace', r'miUsGrid_TriangularFunctionSpace'],
         'field': [r'_[23]dCSCG_(Scalar|Vector|Tensor)Field', r'miUsGrid_Triangular_(Scalar|Vector)']}
# closed-form functions of space and time: they never communicate, so they are not followed through containers
NUMERIC = re.compile(r'(^|\.)(exactSolutions?|functions|numerical|regions?|inputs|interpolations|_1d_basis)(\.|$)')


def DIM(name):
    if name not in DIMS:
        p = name.split('.')
        DIMS[name] = '.'.join(p[:p.index(x) + 1]) if (x := next((x for x in ('_2d', '_3d', 'triangular') if x in p), None)) else None
    return DIMS[name]


CONT_METHODS = {'append', 'add', 'appendleft', 'insert', 'extend', 'update', 'pop', 'get', 'setdefault', '__getitem__', 'values',
                'keys', 'items', 'copy', 'union', 'intersection', 'difference'}


class PTA:
    def __init__(self, project, entry='all', log=None):
        self.p = project
        self.pts = defaultdict(set)
        self.succ = defaultdict(set)
        self.trig = defaultdict(list)
        self.wl = deque()
        self.done = set()          # (fid, ctx) processed
        self.callees = defaultdict(set)    # (id(call node), ctx) -> set of FuncInfo/ClassInfo
        self.callctx = defaultdict(set)    # (fid,ctx) -> set of caller (fid, ctx, call node)
        self.call_edges = defaultdict(set)  # (id(call), ctx) -> set of (FuncInfo, ctx2)
        self.instantiated = set()
        self.clones = {}
        self.flt_done = set()
        self.cache = {}
        self.site_node = {}
        self.attr_reads = {}        # (id(node), ctx) -> base value node
        self.names_ok = set()
        for c in self.p.classes.values():
            self.names_ok.add(c.name)
        for f in self.p.funcs.values():
            self.names_ok.add(f.name)
        self.dims = {}
        self.live, self.woken, self.held = set(), [], defaultdict(list)
        self.class_names = {c.name for c in self.p.classes.values()}
        self.func_by_id = {id(f): f for f in self.p.funcs.values()}
        self.numeric_mods = {}
        self.dim_imports = defaultdict(set)
        for m in self.p.mods.values():
            d = DIM(m.name)
            if d is None:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    self.dim_imports[d].update(x.name for x in n.names)
        self.fdim = {id(f): DIM(f.mod.name) for f in self.p.funcs.values()}
        self.suffix_ok = set()
        for m in self.p.mods:
            parts = m.split('.')
            for i in range(len(parts)):
                self.suffix_ok.add('.'.join(parts[i:]))
                self.suffix_ok.add('.'.join(parts[:i + 1]) + '.')
        self.run(entry)

    # ---- constraint primitives --------------------------------------------------------------------------
    # attributes that hold plain numpy / scipy data by the constructors' own assertions; project objects that
    # reach them do so only through operator imprecision and are dropped
    PLAIN = {('GlobalMatrix', '_M_'), ('GlobalVector', '_V_'), ('DistributedVector', '_V_'),
             ('LocallyFullVector', '_V_')}

    def add(self, node, vals):
        if node[0] == 'a' and len(node) == 3 and isinstance(node[1], ClassInfo) and \
                (node[1].name, node[2]) in self.PLAIN:
            vals = [v for v in vals if v[0] not in ('I', 'L', 'D')]
        cur = self.pts[node]
        new = [v for v in vals if v not in cur]
        if new:
            k = node[0]
            if k == 'e':
                new = [v for v in new if v[0] not in ('B', 'F') or not self.numeric(v[1])]
            if k in ('e', 'r') or k == 'v' and len(node) > 3 and self.is_param(node):
                held = [v for v in new if v[0] in CONTAINER and v[1] not in self.live]
                if held:
                    for v in held:
                        self.held[v[1]].append((node, v))
                    new = [v for v in new if v[0] not in CONTAINER or v[1] in self.live]
            if k == 'e' and node[1] not in self.live and any(self.matters(v) for v in new):
                self.live.add(node[1])
                self.woken.append(node[1])
        if new and node[0] in ('v', 'a', 'x', 'r', 'm'):
            d = self.node_dim(node)
            if d is not None:
                new = [v for v in new if v[0] != 'I' or self.fits(d, v[1])]
        if new:
            cur.update(new)
            self.wl.append((node, new))
        while self.woken:
            for n, v in self.held.pop(self.woken.pop(), ()):
                self.add(n, [v])

    # a container that (so far) holds nothing but numbers cannot influence which function is called: it is not
    # propagated out of its function until an object, class or function is put into it
    def matters(self, v):
        k = v[0]
        if k in CONTAINER:
            return v[1] in self.live
        return k in ('I', 'C', 'B', 'F', 'M') or k == 'S' and (v[1] in self.class_names or '.' in v[1])

    def is_param(self, node):
        f = self.func_by_id.get(node[1])
        return f is not None and (node[3] in f.params or node[3] in f.kwonly)

    # objects of one mesh package (2d, 3d, triangular) do not reach code of another one; what does so in the
    # analysis is context-insensitivity of shared helpers, and is dropped unless the code imports that class itself
    def node_dim(self, node):
        k = node[0]
        if k == 'a':
            return self.cdim(node[1])
        if k in ('v', 'r'):
            return self.fdim.get(node[1]) or (self.cdim(node[2]) if isinstance(node[2], ClassInfo) else None)
        if k == 'm':
            return DIM(node[1])
        return self.cdim(node[2]) if isinstance(node[2], ClassInfo) else None

    def numeric(self, g):
        n = g.mod.name
        r = self.numeric_mods.get(n)
        if r is None:
            r = self.numeric_mods[n] = bool(NUMERIC.search(n))
        return r

    def cdim(self, c):
        d = self.dims.get(c, 0)
        if d == 0:
            d = self.dims[c] = DIM(c.mod.name) or (DIM(c.qual.split('@')[-1]) if '@' in c.qual else None)
        return d

    def fits(self, d, c):
        e = self.cdim(c)
        return e is None or e == d or (c.orig or c).name in self.dim_imports[d]

    def edge(self, a, b):
        if a is None or b is None or a == b:
            return
        s = self.succ[a]
        if b not in s:
            s.add(b)
            if self.pts.get(a):
                self.add(b, self.pts[a])

    def local_only(self, f, v):
        """Modelling fact: the entry of an element-wise cache at one element is plain (scipy / numpy) data, never
        another element-wise cache.  Stops operator closures from being confused with the data they produce."""
        if v is None or f.cls is None or f.name not in ('__getitem__', '___getitem_pre_customizing___') or \
                (f.cls.orig or f.cls).name not in ('EWC_SparseMatrix', 'EWC_ColumnVector'):
            return v
        n = ('lo', id(f), v)
        if n not in self.trig:
            self.on(v, lambda x: None if x[0] == 'I' and (x[1].orig or x[1]).name in
                    ('EWC_SparseMatrix', 'EWC_ColumnVector') else self.add(n, [x]))
            self.trig[n]
        return n

    def on(self, node, fn):
        if node is None:
            return
        self.trig[node].append(fn)
        for v in list(self.pts.get(node, ())):
            fn(v)

    def solve(self):
        while self.wl:
            node, new = self.wl.popleft()
            for s in list(self.succ.get(node, ())):
                self.add(s, new)
            for t in list(self.trig.get(node, ())):
                for v in new:
                    t(v)

    # ---- driving ----------------------------------------------------------------------------------------
    def run(self, entry):
        self.seeds = defaultdict(list)
        for c in self.p.classes.values():
            d = DIM(c.mod.name)
            if d is None or c.mod.is_legacy:
                continue
            for k, names in SEEDS.items():
                if any(re.fullmatch(x, c.name) for x in names):
                    self.seeds[d, k].append(('I', c))
        for m in self.p.mods.values():
            if m.is_legacy or m.is_test:
                continue
            self.do_module(m)
        for m in self.p.mods.values():
            if m.is_legacy or m.is_test:
                continue
            for f in list(m.functions):
                if f.cls is None and f.outer is None:
                    self.ensure(f, None)
            for c in m.classes:
                self.do_class(c)
        self.solve()

    def do_class(self, c):
        for x in c.mro:
            for f in list(x.methods.values()) + list(x.setters.values()):
                if x is c or (not c.subs) or c in self.instantiated:
                    self.call_method_open(f, c)

    def clone(self, c, ctx):
        if c.orig is not None:
            c = c.orig
        if not isinstance(ctx, ClassInfo):
            return c
        base = ctx.orig or ctx
        k = (c, base)
        if k not in self.clones:
            d = ClassInfo.__new__(ClassInfo)
            for s in ClassInfo.__slots__:
                setattr(d, s, getattr(c, s))
            d.orig = c
            d.qual = c.qual + '@' + base.name
            d.mro = [d] + c.mro[1:]
            d.subs = []
            self.clones[k] = d
        return self.clones[k]

    def call_method_open(self, f, c):
        fid, ctx = self.ensure(f, c if f.kind in ('method', 'prop', 'setter') else
                               (c if f.kind in ('class', 'classprop') else None))
        if f.params:
            if f.kind in ('method', 'prop', 'setter'):
                self.add(('v', fid, ctx, f.params[0]), [('I', c)])
            elif f.kind in ('class', 'classprop'):
                self.add(('v', fid, ctx, f.params[0]), [('C', c)])

    def do_module(self, m):
        ctx = ('mod', m.name)
        Scope(self, None, None, m).body(m.tree.body, skip_main=True)

    def ensure(self, f, ctx):
        fid = id(f)
        key = (fid, ctx)
        if key not in self.done:
            self.done.add(key)
            d = self.fdim.get(fid) or (self.cdim(ctx) if isinstance(ctx, ClassInfo) else None)
            if d is not None:
                for x in f.params:
                    k = PARAMS.get(x.lower().strip('_'))
                    if k:
                        self.add(('v', fid, ctx, x), self.seeds[d, k])
            Scope(self, f, ctx, f.mod).process()
        return key

    # ---- queries ----------------------------------------------------------------------------------------
    def values(self, node):
        return self.pts.get(node, set())

    def expr_values(self, expr, f, ctx):
        return self.pts.get(('x', id(expr), ctx), set())


class Scope:
    """Constraint generation for one (function, ctx)."""

    def __init__(self, a, f, ctx, mod):
        self.a, self.f, self.ctx, self.mod = a, f, ctx, mod
        self.p = a.p
        self.filters = {}

    def var(self, name):
        """node of a name as seen from this scope; None -> builtin/unknown"""
        n = self.var0(name)
        flt = self.filters.get(name)
        if flt and n is not None:
            for names in flt:
                m = ('flt', n, names)
                if m not in self.a.flt_done:
                    self.a.flt_done.add(m)
                    self.a.on(n, lambda v, m=m, names=names: self.a.add(m, [v]) if keep(v, names) else None)
                n = m
        return n

    def var0(self, name):
        f = self.f
        while f is not None:
            if f.locals and name in f.locals:
                return ('v', id(f), self.ctx, name)
            f = f.outer
        return self.modvar(self.mod, name)

    def modvar(self, mod, name):
        r = self.p.lookup(mod, name)
        if r is None:
            return None
        n = ('m', mod.name, name)
        if isinstance(r, ClassInfo):
            self.a.add(n, [('C', r)])
        elif isinstance(r, FuncInfo):
            self.a.add(n, [('F', r, None)])
        elif isinstance(r, Mod):
            self.a.add(n, [('M', r.name)])
        elif isinstance(r, tuple):
            if r[0] == 'var':
                return ('m', r[1].name, r[2])
            if r[0] == 'pkg':
                self.a.add(n, [('M', r[1])])
            if r[0] == 'ext':
                self.a.add(n, [('X', r[1])])
        return n

    def binding_vals(self, b):
        r = self.p.resolve_binding(b)
        if isinstance(r, ClassInfo):
            return [('C', r)]
        if isinstance(r, FuncInfo):
            return [('F', r, None)]
        if isinstance(r, Mod):
            return [('M', r.name)]
        if isinstance(r, tuple) and r[0] == 'pkg':
            return [('M', r[1])]
        if isinstance(r, tuple) and r[0] == 'ext':
            return [('X', r[1])]
        if isinstance(r, tuple) and r[0] == 'var':
            return [('@', ('m', r[1].name, r[2]))]
        return []

    def process(self):
        f = self.f
        a = f.node.args
        key = (id(f), self.ctx)
        nd = len(a.defaults)
        pos = [x.arg for x in a.posonlyargs + a.args]
        outer = Scope(self.a, f.outer, self.ctx, self.mod) if f.outer is not None else Scope(self.a, None, self.ctx,
                                                                                           self.mod)
        for name, d in zip(pos[len(pos) - nd:], a.defaults):
            self.a.edge(outer.ev(d), ('v', id(f), self.ctx, name))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.a.edge(outer.ev(d), ('v', id(f), self.ctx, x.arg))
        if f.vararg:
            self.a.add(('v', id(f), self.ctx, f.vararg), [('T', ('va', id(f), self.ctx))])
        if f.kwarg:
            self.a.add(('v', id(f), self.ctx, f.kwarg), [('D', ('kw', id(f), self.ctx))])
        if f.is_gen:
            self.a.add(('r', id(f), self.ctx), [('L', ('gen', id(f), self.ctx))])
        if f.is_lambda:
            self.a.edge(self.ev(f.node.body), ('r', id(f), self.ctx))
        else:
            self.body(f.node.body)

    def with_filters(self, test, body):
        new = dict(self.filters)
        tests = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
        for t in tests:
            r = self.class_test(t)
            if r is None:
                continue
            name, names = r
            if self.stores(name):
                continue
            new[name] = new.get(name, ()) + (names,)
        return new

    def stores(self, name):
        """name is rebound somewhere in this function: no filtering"""
        f = self.f
        if f is None:
            return True
        k = (id(f), 'st')
        st = self.a.cache.get(k)
        if st is None:
            st = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            self.a.cache[k] = st
        return name in st

    def class_test(self, t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r = t.left, t.comparators[0]
            op = t.ops[0]
            if isinstance(l, ast.Attribute) and l.attr == '__name__' and isinstance(l.value, ast.Attribute) and \
                    l.value.attr == '__class__' and isinstance(l.value.value, ast.Name):
                if isinstance(op, ast.Eq) and isinstance(r, ast.Constant):
                    return l.value.value.id, frozenset([r.value])
                if isinstance(op, ast.In) and isinstance(r, (ast.Tuple, ast.List)) and \
                        all(isinstance(x, ast.Constant) for x in r.elts):
                    return l.value.value.id, frozenset(x.value for x in r.elts)
            if isinstance(op, (ast.Is, ast.Eq)) and isinstance(l, ast.Attribute) and l.attr == '__class__' and \
                    isinstance(l.value, ast.Name):
                if isinstance(r, ast.Attribute) and r.attr == '__class__' and isinstance(r.value, ast.Name) and \
                        isinstance(self.ctx, ClassInfo) and self.f is not None and self.f.params and \
                        r.value.id == self.f.params[0]:
                    return l.value.id, frozenset([self.ctx.name])
                if isinstance(r, ast.Name):
                    return l.value.id, frozenset([r.id])
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and \
                len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            r = t.args[1]
            els = r.elts if isinstance(r, ast.Tuple) else [r]
            if all(isinstance(x, ast.Name) for x in els):
                return t.args[0].id, frozenset(['<isinstance>'] + [x.id for x in els])
        return None

    # ---- statements -------------------------------------------------------------------------------------
    def body(self, stmts, skip_main=False):
        for s in stmts:
            if skip_main and is_main_guard(s):
                continue
            self.stmt(s)

    def stmt(self, s):
        a = self.a
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            v = self.binop(s, s.target, s.op, s.value)
            self.assign(s.target, v)
        elif isinstance(s, ast.Return):
            if s.value is not None and self.f is not None:
                v = self.ev(s.value)
                if not self.f.is_gen:
                    a.edge(a.local_only(self.f, v), ('r', id(self.f), self.ctx))
        elif isinstance(s, (ast.If, ast.While)):
            self.ev(s.test)
            saved = self.filters
            self.filters = self.with_filters(s.test, s.body)
            self.body(s.body)
            self.filters = saved
            self.body(s.orelse)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter)
            self.iterate(it, s.target, s.iter)
            self.body(s.body)
            self.body(s.orelse)
        elif isinstance(s, ast.With):
            for w in s.items:
                v = self.ev(w.context_expr)
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, v)
            self.body(s.body)
        elif isinstance(s, ast.Try):
            self.body(s.body)
            for h in s.handlers:
                self.body(h.body)
            self.body(s.orelse)
            self.body(s.finalbody)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.p.func_of_node.get(id(s))
            if self.f is not None:
                a.add(('v', id(self.f), self.ctx, s.name), [('F', g, self.ctx)])
        elif isinstance(s, ast.ClassDef):
            c = self.p.class_of_node.get(id(s))
            if self.f is not None:
                a.add(('v', id(self.f), self.ctx, s.name), [('C', c)])
            elif c is not None:
                self.class_body(c)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            if self.f is not None:
                for name, b in self.p.import_bindings(self.mod, s).items():
                    for v in self.binding_vals(b):
                        if v[0] == '@':
                            a.edge(v[1], ('v', id(self.f), self.ctx, name))
                        else:
                            a.add(('v', id(self.f), self.ctx, name), [v])
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
            self.filters = self.with_filters(s.test, None)
            if s.msg is not None:
                self.ev(s.msg)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.ev_children(t)

    def class_body(self, c):
        for name, exprs in c.attrs.items():
            for e in exprs:
                if isinstance(e, ClassInfo):
                    self.a.add(('ca', c, name), [('C', e)])
                elif e is not None:
                    self.a.edge(self.ev(e), ('ca', c, name))

    def assign(self, t, v):
        a = self.a
        if isinstance(t, ast.Name):
            if self.f is None:
                a.edge(v, ('m', self.mod.name, t.id))
            else:
                n = self.var(t.id)
                a.edge(v, n)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            attr = t.attr
            if b is None:
                return

            def st(val, v=v, attr=attr, t=t):
                if val[0] == 'I':
                    c = val[1]
                    g = c.find_setter(attr)
                    if g is not None:
                        fid, ctx = a.ensure(g, c)
                        a.add(('v', fid, ctx, g.params[0]), [val])
                        a.edge(v, ('v', fid, ctx, g.params[1]))
                        a.call_edges[(id(t), self.ctx)].add((g, c))
                    else:
                        a.edge(v, ('a', c, attr))
                elif val[0] == 'C':
                    a.edge(v, ('ca', val[1], attr))
                elif val[0] == 'U':
                    if val[2][0] == 'I':
                        a.edge(v, ('a', val[2][1], attr))
            a.on(b, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            key = const_key(t.slice)
            if not isinstance(t.slice, ast.Slice):
                kn = self.ev(t.slice)
            else:
                kn = None
            if b is None:
                return

            def st(val, v=v, key=key, kn=kn, t=t):
                if val[0] in CONTAINER:
                    a.edge(v, ('e', val[1], key))
                    if kn is not None:
                        a.edge(kn, ('k', val[1]))
                elif val[0] == 'I':
                    self.call_dunder(val, '__setitem__', t, [kn, v])
            a.on(b, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, v)
                else:
                    n = ('u', id(t), i, self.ctx)
                    self.unpack(v, i, n)
                    self.assign(x, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, v, i, n):
        if v is None:
            return
        a = self.a

        def un(val):
            if val[0] in CONTAINER:
                a.edge(('e', val[1], i), n)
                a.edge(('e', val[1], '*'), n)
            elif val[0] == 'I':
                self.iter_inst(val, n, None)
        a.on(v, un)

    def iterate(self, it, target, node):
        n = ('it', id(node), self.ctx)
        self.assign(target, n)
        self.iter_into(it, n, node)

    def iter_into(self, it, n, node):
        if it is None:
            return
        a = self.a

        def go(val):
            if val[0] == 'D':
                a.edge(('k', val[1]), n)
            elif val[0] in ('L', 'T'):
                a.on(('ks', val[1]), lambda kv: a.edge(('e', val[1], kv[1]), n))
                a.edge(('e', val[1], '*'), n)
                for i in range(8):
                    a.edge(('e', val[1], i), n)
            elif val[0] == 'I':
                self.iter_inst(val, n, node)
        a.on(it, go)

    def iter_inst(self, val, n, node):
        a = self.a
        g = val[1].find('__iter__')
        if g is not None:
            r = self.call_fn(g, val, node, [], {}, None)
            if r is not None:
                self.iter_into_simple(r, n)
        else:
            g = val[1].find('__getitem__')
            if g is not None:
                r = self.call_fn(g, val, node, [None], {}, None)
                a.edge(r, n)

    def iter_into_simple(self, r, n):
        a = self.a

        def go(v):
            if v[0] == 'D':
                a.edge(('k', v[1]), n)
            elif v[0] in ('L', 'T'):
                a.edge(('e', v[1], '*'), n)
                for i in range(8):
                    a.edge(('e', v[1], i), n)
            elif v[0] == 'I':
                g = v[1].find('__next__')
                if g is not None:
                    a.edge(self.call_fn(g, v, None, [], {}, None), n)
        a.on(r, go)

    # ---- expressions ------------------------------------------------------------------------------------
    def ev_children(self, e):
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch)

    def ev(self, e):
        if e is None:
            return None
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            self.ev_children(e)
            return None
        n = m(e)
        if n is not None:
            x = ('x', id(e), self.ctx)
            if n != x:
                self.a.edge(n, x)
            return x
        return None

    def x(self, e):
        return ('x', id(e), self.ctx)

    def e_Name(self, e):
        return self.var(e.id)

    def e_Constant(self, e):
        if isinstance(e.value, str) and (e.value == '.' or e.value in self.a.names_ok or e.value in self.a.suffix_ok):
            n = self.x(e)
            self.a.add(n, [('S', e.value)])
            return n
        return None

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return None

    def e_Lambda(self, e):
        g = self.p.func_of_node.get(id(e))
        n = self.x(e)
        if g is not None:
            self.a.add(n, [('F', g, self.ctx)])
        return n

    def e_IfExp(self, e):
        self.ev(e.test)
        n = self.x(e)
        self.a.edge(self.ev(e.body), n)
        self.a.edge(self.ev(e.orelse), n)
        return n

    def e_BoolOp(self, e):
        n = self.x(e)
        for v in e.values:
            self.a.edge(self.ev(v), n)
        return n

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        if e.value is not None:
            v = self.ev(e.value)
            if self.f is not None:
                self.a.edge(v, ('e', ('gen', id(self.f), self.ctx), '*'))
        return None

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        if self.f is not None:
            self.iter_into(v, ('e', ('gen', id(self.f), self.ctx), '*'), e)
        return None

    def site(self, e, kind):
        s = ('s', id(e), self.ctx)
        self.a.site_node[s] = (e, self.f, self.mod)
        n = self.x(e)
        self.a.add(n, [(kind, s)])
        return n, s

    def e_List(self, e):
        n, s = self.site(e, 'T' if isinstance(e, ast.Tuple) else 'L')
        for i, v in enumerate(e.elts):
            if isinstance(v, ast.Starred):
                self.iter_into(self.ev(v.value), ('e', s, '*'), v)
            else:
                self.a.edge(self.ev(v), ('e', s, i if i < 8 else '*'))
        return n

    e_Tuple = e_List
    e_Set = e_List

    def e_Dict(self, e):
        n, s = self.site(e, 'D')
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.ev(v)
                continue
            kk = self.ev(k)
            self.a.edge(kk, ('k', s))
            self.a.edge(self.ev(v), ('e', s, const_key(k)))
        return n

    def comp(self, e, elt, kind):
        n, s = self.site(e, kind)
        for g in e.generators:
            self.iterate(self.ev(g.iter), g.target, g.iter)
            for c in g.ifs:
                self.ev(c)
        self.a.edge(self.ev(elt), ('e', s, '*'))
        return n, s

    def e_ListComp(self, e):
        return self.comp(e, e.elt, 'L')[0]

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        n, s = self.comp(e, e.value, 'D')
        self.a.edge(self.ev(e.key), ('k', s))
        return n

    def e_Attribute(self, e):
        b = self.ev(e.value)
        n = self.x(e)
        if b is None:
            return n
        self.a.attr_reads[(id(e), self.ctx)] = (e, self.f, b)
        self.a.on(b, lambda val: self.load(val, e.attr, n, e))
        return n

    def load(self, val, attr, n, e):
        a = self.a
        k = val[0]
        if k == 'I':
            c = val[1]
            if attr == '__class__':
                a.add(n, [('C', c.orig or c)])
                return
            g = c.find(attr)
            if g is not None:
                if g.kind == 'prop' or any(d in ('cached_property',) for d in g.decos):
                    fid, ctx = a.ensure(g, c)
                    if g.params:
                        a.add(('v', fid, ctx, g.params[0]), [val])
                    a.edge(('r', fid, ctx), n)
                    a.call_edges[(id(e), self.ctx)].add((g, c))
                    return
                if g.kind == 'classprop':
                    fid, ctx = a.ensure(g, c)
                    a.add(('v', fid, ctx, g.params[0]), [('C', c)])
                    a.edge(('r', fid, ctx), n)
                    a.call_edges[(id(e), self.ctx)].add((g, c))
                    return
                if g.kind == 'static':
                    a.add(n, [('F', g, None)])
                elif g.kind == 'class':
                    a.add(n, [('B', g, ('C', c))])
                else:
                    a.add(n, [('B', g, val)])
                # also possible instance attribute shadow: keep both
            a.edge(('a', c, attr), n)
            for x in c.mro:
                if attr in x.attrs:
                    a.edge(('ca', x, attr), n)
                    break
            else:
                a.edge(('ca', c, attr), n)
        elif k == 'C':
            c = val[1]
            if attr == '__name__':
                a.add(n, [('S', c.name)])
                return
            g = c.find(attr)
            if g is not None:
                if g.kind == 'classprop':
                    fid, ctx = a.ensure(g, c)
                    a.add(('v', fid, ctx, g.params[0]), [val])
                    a.edge(('r', fid, ctx), n)
                    a.call_edges[(id(e), self.ctx)].add((g, c))
                elif g.kind == 'class':
                    a.add(n, [('B', g, val)])
                else:
                    a.add(n, [('F', g, None)])
                return
            for x in c.mro:
                a.edge(('ca', x, attr), n)
        elif k == 'M':
            m = self.p.mods.get(val[1])
            if m is not None:
                vn = self.modvar(m, attr)
                if vn is not None:
                    a.edge(vn, n)
                    return
            full = val[1] + '.' + attr
            if full in self.p.mods or full in self.p.dirs:
                a.add(n, [('M', full)])
        elif k == 'X':
            if len(val[1]) < 80:
                a.add(n, [('X', val[1] + '.' + attr)])
        elif k == 'U':
            c, recv = val[1], val[2]
            cc = recv[1]
            try:
                i = cc.mro.index(c)
            except ValueError:
                i = -1
            for x in cc.mro[i + 1:]:
                if attr in x.methods:
                    g = x.methods[attr]
                    if g.kind == 'prop':
                        fid, ctx = a.ensure(g, cc)
                        a.add(('v', fid, ctx, g.params[0]), [recv])
                        a.edge(('r', fid, ctx), n)
                        a.call_edges[(id(e), self.ctx)].add((g, cc))
                    else:
                        a.add(n, [('B', g, recv)])
                    return
        elif k in CONTAINER and attr in CONT_METHODS:
            a.add(n, [('cm', val, attr)])

    def e_Subscript(self, e):
        b = self.ev(e.value)
        key = const_key(e.slice)
        kn = None
        if isinstance(e.slice, ast.Slice):
            self.ev_children(e.slice)
        else:
            kn = self.ev(e.slice)
        n = self.x(e)
        if b is None:
            return n
        a = self.a

        def go(val):
            if val[0] in CONTAINER:
                if isinstance(e.slice, ast.Slice):
                    a.add(n, [val])
                    return
                if key == '*':
                    a.on(('ks', val[1]), lambda kv: a.edge(('e', val[1], kv[1]), n))
                    a.edge(('e', val[1], '*'), n)
                    for i in range(8):
                        a.edge(('e', val[1], i), n)
                    # const string keys: need all; they are recorded at creation
                    for k2 in self.known_keys(val[1]):
                        a.edge(('e', val[1], k2), n)
                else:
                    a.edge(('e', val[1], key), n)
                    a.edge(('e', val[1], '*'), n)
            elif val[0] == 'I':
                r = self.call_dunder(val, '__getitem__', e, [kn])
                a.edge(r, n)
        a.on(b, go)
        return n

    def known_keys(self, site):
        sn = self.a.site_node.get(site)
        if sn is None or not isinstance(sn[0], ast.Dict):
            return []
        return [const_key(k) for k in sn[0].keys if k is not None]

    def call_dunder(self, val, name, e, args):
        g = val[1].find(name)
        if g is None:
            return None
        return self.call_fn(g, val, e, args, {}, None)

    def binop(self, e, left, op, right):
        l, r = self.ev(left), self.ev(right)
        n = self.x(e)
        nm = BIN.get(type(op))
        a = self.a

        def gl(val):
            if val[0] == 'I' and nm:
                a.edge(self.call_dunder(val, f'__{nm}__', e, [r]), n)
            elif val[0] == 'S' and nm == 'add' and r is not None:
                a.on(r, lambda v2: v2[0] == 'S' and self.add_str(n, val[1] + v2[1]))
            elif val[0] == 'L' and nm in ('add', 'mul'):
                a.add(n, [val])
            elif val[0] == 'T' and nm in ('add', 'mul'):
                a.add(n, [val])

        def gr(val):
            if val[0] == 'I' and nm:
                a.edge(self.call_dunder(val, f'__r{nm}__', e, [l]), n)
            elif val[0] in ('L', 'T') and nm == 'add':
                a.add(n, [val])
        if l is not None:
            a.on(l, gl)
        if r is not None:
            a.on(r, gr)
        return n

    def add_str(self, n, s):
        if s in self.a.suffix_ok or s in self.a.names_ok:
            self.a.add(n, [('S', s)])

    def e_BinOp(self, e):
        return self.binop(e, e.left, e.op, e.right)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        n = self.x(e)
        if v is not None and isinstance(e.op, ast.USub):
            self.a.on(v, lambda val: val[0] == 'I' and self.a.edge(self.call_dunder(val, '__neg__', e, []), n))
            return n
        return None

    def e_Compare(self, e):
        l = self.ev(e.left)
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c)
            if isinstance(op, (ast.In, ast.NotIn)) and r is not None:
                self.a.on(r, lambda val, l=l, e=e: val[0] == 'I' and self.call_dunder(val, '__contains__', e, [l]))
            elif isinstance(op, (ast.Eq, ast.NotEq)) and l is not None:
                self.a.on(l, lambda val, r=r, e=e: val[0] == 'I' and self.call_dunder(val, '__eq__', e, [r]))
        return None

    # ---- calls ------------------------------------------------------------------------------------------
    def fold_class_path(self, e):
        """'.'.join(str(cls).split(' ')[1][1:-2].split('.')[:k]) + '.' -> dotted prefix (constant folding)"""
        clsname = None
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'str' and len(n.args) == 1:
                clsname = n.args[0]
        if clsname is None:
            return []
        cands = []
        if isinstance(clsname, ast.Name) and self.f is not None and isinstance(self.ctx, ClassInfo):
            cands = [self.ctx]
        elif isinstance(clsname, ast.Attribute) and clsname.attr == '__class__' and isinstance(self.ctx, ClassInfo):
            cands = [self.ctx]
        out = []
        for c in cands:
            r = fold(e, {ast.dump(clsname): f"<class '{c.qual}'>"})
            if isinstance(r, str):
                out.append(r)
        return out

    def e_Call(self, e):
        a = self.a
        n = self.x(e)
        fn = e.func
        # '.'.join(...) of str(cls)
        if isinstance(fn, ast.Attribute) and fn.attr == 'join' and isinstance(fn.value, ast.Constant):
            for s in self.fold_class_path(e):
                a.add(n, [('S', s)])
                a.add(n, [('S', s + '.')]) if False else None
            for x in e.args:
                self.ev(x)
            return n
        args, kws, star, kwstar = [], {}, None, None
        posnodes = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                sv = self.ev(x.value)
                star = sv if star is None else star
                posnodes.append(('*', sv))
            else:
                posnodes.append(('p', self.ev(x)))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kwstar = v
            else:
                kws[k.arg] = v
        if isinstance(fn, ast.Name) and fn.id == 'super' and not e.args:
            if self.f is not None:
                ff = self.f
                while ff.outer is not None:
                    ff = ff.outer
                if ff.cls is not None and isinstance(self.ctx, ClassInfo):
                    recv = ('C', self.ctx) if ff.kind == 'class' else ('I', self.ctx)
                    a.add(n, [('U', ff.cls, recv)])
            return n
        if isinstance(fn, ast.Name) and self.var(fn.id) is None:
            return self.builtin(fn.id, e, posnodes, n)
        f = self.ev(fn)
        if f is None:
            return n

        def go(val):
            k = val[0]
            if k == 'F':
                r = self.call_fn(val[1], None, e, posnodes, kws, kwstar, ctx=val[2], tagged=True)
                a.edge(r, n)
            elif k == 'B':
                r = self.call_fn(val[1], val[2], e, posnodes, kws, kwstar, tagged=True)
                a.edge(r, n)
            elif k == 'C':
                c = val[1]
                if c.name in CLONED:
                    c = a.clone(c, self.ctx)
                inst = ('I', c)
                if c not in a.instantiated:
                    a.instantiated.add(c)
                    if not c.mod.is_legacy:
                        a.do_class(c)
                a.add(n, [inst])
                a.callees[(id(e), self.ctx)].add(c.orig or c)
                g = c.find('__init__')
                if g is not None:
                    self.call_fn(g, inst, e, posnodes, kws, kwstar, tagged=True)
                g = c.find('__init_subclass__') and None
            elif k == 'I':
                g = val[1].find('__call__')
                if g is not None:
                    a.edge(self.call_fn(g, val, e, posnodes, kws, kwstar, tagged=True), n)
            elif k == 'X':
                self.ext_call(val[1], e, posnodes, kws, n)
            elif k == 'cm':
                self.cont_method(val[1], val[2], posnodes, n, e)
        a.on(f, go)
        return n

    def ext_call(self, name, e, pos, kws, n):
        a = self.a
        last = name.rsplit('.', 1)[-1]
        if last == 'import_module' and pos:
            v = pos[0][1]
            if v is not None:
                a.on(v, lambda s: s[0] == 'S' and (s[1] in self.p.mods or s[1] in self.p.dirs) and
                     a.add(n, [('M', s[1])]))
        elif last in ('deepcopy', 'copy', 'coo_matrix', 'asarray') and pos:
            a.edge(pos[0][1], n)
        elif last == 'partial' and pos:
            # partial(f, ...) -> treat as the function itself, binding the leading args
            v = pos[0][1]
            if v is not None:
                def pp(val):
                    if val[0] in ('F', 'B'):
                        recv = val[2] if val[0] == 'B' else None
                        self.call_fn(val[1], recv, e, pos[1:], kws, None,
                                     ctx=val[2] if val[0] == 'F' else None, tagged=True)
                        a.add(n, [val])
                a.on(v, pp)
        elif last in ('bcast', 'allreduce', 'reduce', 'scatter') and pos:
            a.edge(pos[0][1], n)
        elif last in ('gather', 'allgather', 'alltoall') and pos:
            s = ('s', id(e), self.ctx)
            a.site_node[s] = (e, self.f, self.mod)
            a.add(n, [('L', s)])
            a.edge(pos[0][1], ('e', s, '*'))

    def cont_method(self, cont, name, pos, n, e):
        a = self.a
        site = cont[1]
        arg = pos[0][1] if pos else None
        if name in ('append', 'add', 'appendleft'):
            a.edge(arg, ('e', site, '*'))
        elif name == 'insert' and len(pos) > 1:
            a.edge(pos[1][1], ('e', site, '*'))
        elif name in ('extend', 'update'):
            if arg is not None:
                def go(v):
                    if v[0] in CONTAINER:
                        self.copy_cont(v[1], site)
                a.on(arg, go)
        elif name in ('pop', 'get', 'setdefault', '__getitem__'):
            self.all_elems(site, n)
            if len(pos) > 1:
                a.edge(pos[1][1], n)
                if name == 'setdefault':
                    a.edge(pos[1][1], ('e', site, '*'))
        elif name == 'values':
            s2 = ('vals', site)
            a.add(n, [('L', s2)])
            self.all_elems(site, ('e', s2, '*'))
        elif name == 'keys':
            s2 = ('keys', site)
            a.add(n, [('L', s2)])
            a.edge(('k', site), ('e', s2, '*'))
        elif name == 'items':
            s2, s3 = ('items', site), ('item', site)
            a.add(n, [('L', s2)])
            a.add(('e', s2, '*'), [('T', s3)])
            a.edge(('k', site), ('e', s3, 0))
            self.all_elems(site, ('e', s3, 1))
        elif name in ('copy', 'union', 'intersection', 'difference'):
            a.add(n, [cont])

    def all_elems(self, site, n):
        a = self.a
        a.edge(('e', site, '*'), n)
        for i in range(8):
            a.edge(('e', site, i), n)
        for k in self.known_keys(site):
            a.edge(('e', site, k), n)

    def copy_cont(self, s1, s2):
        a = self.a
        a.edge(('e', s1, '*'), ('e', s2, '*'))
        for i in range(8):
            a.edge(('e', s1, i), ('e', s2, '*'))
        for k in self.known_keys(s1):
            a.edge(('e', s1, k), ('e', s2, '*'))
        a.edge(('k', s1), ('k', s2))

    def builtin(self, name, e, pos, n):
        a = self.a
        arg = pos[0][1] if pos else None
        if name == 'getattr' and len(pos) >= 2:
            b, s = pos[0][1], pos[1][1]
            if b is not None and s is not None:
                a.on(b, lambda val: a.on(s, lambda sv: sv[0] == 'S' and self.load(val, sv[1], n, e)))
            elif b is not None and isinstance(e.args[1], ast.Constant):
                a.on(b, lambda val: self.load(val, e.args[1].value, n, e))
            return n
        if name in ('list', 'set', 'tuple', 'sorted', 'reversed', 'frozenset', 'iter', 'dict'):
            s = ('s', id(e), self.ctx)
            a.site_node[s] = (e, self.f, self.mod)
            a.add(n, [('D' if name == 'dict' else 'L', s)])
            if arg is not None:
                if name == 'dict':
                    a.on(arg, lambda v: v[0] in CONTAINER and self.copy_cont(v[1], s))
                else:
                    self.iter_into(arg, ('e', s, '*'), e)
            for k in e.keywords:
                if k.arg and name == 'dict':
                    a.edge(('x', id(k.value), self.ctx), ('e', s, k.arg))
            return n
        if name == 'next' and arg is not None:
            self.iter_into(arg, n, e)
            return n
        if name == 'enumerate' and arg is not None:
            s, s2 = ('s', id(e), self.ctx), ('s2', id(e), self.ctx)
            a.add(n, [('L', s)])
            a.add(('e', s, '*'), [('T', s2)])
            self.iter_into(arg, ('e', s2, 1), e)
            return n
        if name == 'zip':
            s, s2 = ('s', id(e), self.ctx), ('s2', id(e), self.ctx)
            a.add(n, [('L', s)])
            a.add(('e', s, '*'), [('T', s2)])
            for i, (t, v) in enumerate(pos):
                if v is not None:
                    self.iter_into(v, ('e', s2, i), e)
            return n
        if name in ('max', 'min', 'sum', 'abs', 'round') and arg is not None:
            return None
        if name == 'type' and arg is not None and len(pos) == 1:
            a.on(arg, lambda v: v[0] == 'I' and a.add(n, [('C', v[1].orig or v[1])]))
            return n
        if name in ('map', 'filter') and len(pos) > 1:
            f = pos[0][1]
            s = ('s', id(e), self.ctx)
            a.add(n, [('L', s)])
            if f is not None:
                it = ('mi', id(e), self.ctx)
                self.iter_into(pos[1][1], it, e)

                def go(val):
                    if val[0] in ('F', 'B'):
                        r = self.call_fn(val[1], val[2] if val[0] == 'B' else None, e, [('p', it)], {}, None,
                                         tagged=True)
                        a.edge(r, ('e', s, '*'))
                a.on(f, go)
            return n
        if name == 'len' and arg is not None:
            a.on(arg, lambda v: v[0] == 'I' and self.call_dunder(v, '__len__', e, []))
            return None
        return None

    def call_fn(self, g, recv, e, args, kws, kwstar, ctx=None, tagged=False):
        """args: list of ('p'|'*', node) when tagged else list of nodes"""
        a = self.a
        if g.mod.is_legacy:
            return None
        if not tagged:
            args = [('p', x) for x in args]
        params = g.params
        if recv is not None and g.kind != 'static':
            c = recv[1] if recv[0] in ('I', 'C') else None
            cctx = c
            fid, cctx = a.ensure(g, cctx)
            if params:
                a.add(('v', fid, cctx, params[0]), [recv])
            params = params[1:]
        else:
            cctx = ctx
            if recv is None and g.kind in ('method', 'prop') and g.cls is not None:
                # Class.method(obj, ...) : context from defining class
                cctx = g.cls
            fid, cctx = a.ensure(g, cctx)
        a.call_edges[(id(e), self.ctx)].add((g, cctx))
        a.callees[(id(e), self.ctx)].add(g)
        i = 0
        for t, v in args:
            if t == 'p':
                if i < len(params):
                    a.edge(v, ('v', fid, cctx, params[i]))
                elif g.vararg:
                    a.edge(v, ('e', ('va', id(g), cctx), min(i - len(params), 7)))
                i += 1
            elif v is not None:
                for j in range(i, len(params)):
                    tgt = ('v', fid, cctx, params[j])
                    a.on(v, lambda val, tgt=tgt, j=j - i: val[0] in CONTAINER and
                         (a.edge(('e', val[1], j), tgt), a.edge(('e', val[1], '*'), tgt)))
                if g.vararg:
                    va = ('va', id(g), cctx)
                    a.on(v, lambda val, va=va: val[0] in CONTAINER and
                         [a.edge(('e', val[1], j), ('e', va, j)) for j in range(8)] +
                         [a.edge(('e', val[1], '*'), ('e', va, '*'))])
                i = len(params)
        names = set(params) | set(g.kwonly)
        for k, v in kws.items():
            if k in names:
                a.edge(v, ('v', fid, cctx, k))
            elif g.kwarg:
                a.edge(v, ('e', ('kw', id(g), cctx), k))
        if kwstar is not None:
            def go(val):
                if val[0] == 'D':
                    for nm in names:
                        a.edge(('e', val[1], nm), ('v', fid, cctx, nm))
                    if g.kwarg:
                        kw = ('kw', id(g), cctx)
                        a.edge(('e', val[1], '*'), ('e', kw, '*'))
                        for nm in self.kw_names(val[1]):
                            a.edge(('e', val[1], nm), ('e', kw, nm))
            a.on(kwstar, go)
        return ('r', fid, cctx)

    def kw_names(self, site):
        return [k for k in self.known_keys(site) if isinstance(k, str)]


def keep(v, names):
    if v[0] == 'I':
        if '<isinstance>' in names:
            return any(c.name in names for c in v[1].mro)
        return v[1].name in names
    if v[0] in ('L', 'T', 'D'):
        nm = {'L': ('list', 'set', 'range', 'ndarray', 'generator'), 'T': ('tuple', 'list'), 'D': ('dict',)}[v[0]]
        return any(x in names for x in nm) or not any(x in ('list', 'tuple', 'dict', 'set') or x[:1].isupper() or
                                                      x[:1] == '_' for x in names)
    return True


def const_key(k):
    if isinstance(k, ast.Constant) and isinstance(k.value, (str, int)) and not isinstance(k.value, bool):
        return k.value if isinstance(k.value, str) or 0 <= k.value < 8 else '*'
    return '*'


def fold(e, env):
    """Constant folding of pure string/list expressions (split/join/slice/+)."""
    d = ast.dump(e)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'str' and len(e.args) == 1:
        return env.get(ast.dump(e.args[0]))
    if d in env:
        return env[d]
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = fold(e.operand, env)
        return -v if isinstance(v, int) else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        l, r = fold(e.left, env), fold(e.right, env)
        try:
            return l + r if l is not None and r is not None else None
        except TypeError:
            return None
    if isinstance(e, ast.Subscript):
        v = fold(e.value, env)
        if v is None:
            return None
        s = e.slice
        try:
            if isinstance(s, ast.Slice):
                lo = fold(s.lower, env) if s.lower else None
                hi = fold(s.upper, env) if s.upper else None
                return v[lo:hi]
            return v[fold(s, env)]
        except Exception:
            return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.keywords:
        v = fold(e.func.value, env)
        if isinstance(v, str) and e.func.attr in ('split', 'join', 'strip', 'replace', 'lower', 'upper', 'rsplit'):
            args = [fold(x, env) for x in e.args]
            if any(x is None for x in args):
                return None
            try:
                return getattr(v, e.func.attr)(*args)
            except Exception:
                return None
    return None
