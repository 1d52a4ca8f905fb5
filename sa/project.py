"""Source loader: parses every Python file of the repository, resolves imports, builds the class hierarchy.

Nothing here imports or runs repository code.
"""
import ast
import os
import sys
import warnings
warnings.simplefilter("ignore", SyntaxWarning)

REPO = os.environ.get('VERIF_REPO', '/repo')
SKIP_DIRS = {'.git', '__pycache__', 'notes', 'build', 'dist', '.venv', 'docs', 'web'}


class Mod:
    __slots__ = ('name', 'path', 'rel', 'tree', 'src', 'defs', 'imports', 'stars', 'is_pkg', 'is_test', 'is_legacy',
                 'parents', 'classes', 'functions')

    def __init__(self, name, path, rel, tree, src, is_pkg):
        self.name, self.path, self.rel, self.tree, self.src, self.is_pkg = name, path, rel, tree, src, is_pkg
        parts = rel.split('/')
        self.is_test = any(p in ('tests', 'test', '__tests__', '_tests_') for p in parts[:-1]) \
            or parts[-1].startswith('test')
        self.is_legacy = 'legacy' in parts
        self.defs = {}       # top-level name -> ClassInfo | FuncInfo | ('var', [value exprs])
        self.imports = {}    # local name -> ('mod', modname) | ('from', modname, name)
        self.stars = []
        self.classes = []
        self.functions = []

    def __repr__(self):
        return f'<Mod {self.name}>'


class ClassInfo:
    __slots__ = ('name', 'mod', 'node', 'qual', 'bases', 'methods', 'setters', 'attrs', 'mro', 'subs', 'ext_bases',
                 'outer', 'orig')

    def __init__(self, name, mod, node, outer=None):
        self.name, self.mod, self.node, self.outer = name, mod, node, outer
        self.qual = mod.name + '.' + name
        self.orig = None
        self.bases = []
        self.ext_bases = []
        self.methods = {}
        self.setters = {}
        self.attrs = {}     # class-level assigned names -> list of value exprs
        self.mro = None
        self.subs = []

    def __repr__(self):
        return f'<Class {self.qual}>'

    def find(self, name):
        """-> FuncInfo or None, along the MRO"""
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro:
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def all_subs(self):
        out, todo = [], [self]
        seen = set()
        while todo:
            c = todo.pop()
            for s in c.subs:
                if s.qual not in seen:
                    seen.add(s.qual)
                    out.append(s)
                    todo.append(s)
        return out


class FuncInfo:
    __slots__ = ('name', 'mod', 'node', 'cls', 'outer', 'qual', 'kind', 'decos', 'params', 'vararg', 'kwarg',
                 'kwonly', 'ndefaults', 'is_gen', 'nested', 'locals', 'is_lambda', 'globals_')

    def __init__(self, name, mod, node, cls=None, outer=None):
        self.name, self.mod, self.node, self.cls, self.outer = name, mod, node, cls, outer
        self.is_lambda = isinstance(node, ast.Lambda)
        pre = cls.qual if cls is not None else (outer.qual if outer is not None else mod.name)
        self.qual = pre + '.' + name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.ndefaults = len(a.defaults)
        self.decos = [] if self.is_lambda else [deco_name(d) for d in node.decorator_list]
        self.kind = 'func'
        if cls is not None and outer is None:
            self.kind = 'method'
            if 'staticmethod' in self.decos:
                self.kind = 'static'
            elif 'classmethod' in self.decos or name in ('__init_subclass__', '__class_getitem__'):
                self.kind = 'class'
            elif 'classproperty' in self.decos:
                self.kind = 'classprop'
            elif name == '__new__':
                self.kind = 'static'
            elif 'property' in self.decos:
                self.kind = 'prop'
        self.is_gen = (not self.is_lambda) and _has_yield(node)
        self.nested = {}
        self.locals = None
        self.globals_ = set()

    def __repr__(self):
        return f'<Func {self.qual}>'

    @property
    def lineno(self):
        return self.node.lineno


def _has_yield(fn):
    for n in walk_own(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(fn):
    """Walk the nodes of a function body, not entering nested functions/lambdas/classes."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr if not isinstance(d.value, ast.Name) else d.value.id + '.' + d.attr
    if isinstance(d, ast.Name):
        return d.id
    return '?'


class Project:
    def __init__(self, repo=REPO, with_tests=True, with_legacy=True):
        self.repo = repo
        self.mods = {}
        self.errors = []
        for dp, dns, fns in os.walk(repo):
            dns[:] = sorted(d for d in dns if d not in SKIP_DIRS and not d.startswith('.'))
            for fn in sorted(fns):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, repo)
                is_pkg = fn == '__init__.py'
                mn = rel[:-3].replace('/', '.')
                if is_pkg:
                    mn = mn[:-len('.__init__')] if mn != '__init__' else '__root__'
                try:
                    with open(path, encoding='utf-8') as f:
                        src = f.read()
                    tree = ast.parse(src, path)
                except (SyntaxError, UnicodeDecodeError) as e:
                    self.errors.append((rel, str(e)))
                    continue
                m = Mod(mn, path, rel, tree, src, is_pkg)
                if m.is_test and not with_tests:
                    continue
                if m.is_legacy and not with_legacy:
                    continue
                self.mods[mn] = m
        self.dirs = set()
        for m in self.mods.values():
            parts = m.name.split('.')
            for i in range(1, len(parts) + (1 if m.is_pkg else 0)):
                self.dirs.add('.'.join(parts[:i]))
        self.classes = {}
        self.funcs = {}
        self.func_of_node = {}
        self.class_of_node = {}
        for m in self.mods.values():
            self._collect(m)
        for c in self.classes.values():
            self._bases(c)
        for c in self.classes.values():
            self._mro(c)

    # -- collection ---------------------------------------------------------------------------------------
    def _collect(self, m):
        def stmts(body):
            for s in body:
                if is_main_guard(s):
                    continue
                yield s
                if isinstance(s, (ast.If, ast.For, ast.While)):
                    yield from stmts(s.body)
                    yield from stmts(s.orelse)
                elif isinstance(s, ast.With):
                    yield from stmts(s.body)
                elif isinstance(s, ast.Try):
                    yield from stmts(s.body)
                    for h in s.handlers:
                        yield from stmts(h.body)
                    yield from stmts(s.orelse)
                    yield from stmts(s.finalbody)

        for s in stmts(m.tree.body):
            if is_main_guard(s):
                continue
            if isinstance(s, ast.ClassDef):
                self._collect_class(m, s)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._collect_func(m, s, None, None)
                m.defs[s.name] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name) and isinstance(nm.ctx, ast.Store):
                            d = m.defs.get(nm.id)
                            v = s.value if isinstance(t, ast.Name) else None
                            if isinstance(d, tuple):
                                d[1].append(v)
                            else:
                                m.defs[nm.id] = ('var', [v])
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._import(m, n, m.imports if is_toplevel(m, n) else None)

    def _import(self, m, n, table):
        if table is None:
            return
        table.update(self.import_bindings(m, n))
        if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
            m.stars.append(self.abs_mod(m, n))

    def abs_mod(self, m, n):
        if n.level == 0:
            return n.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def import_bindings(self, m, n):
        out = {}
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = ('mod', a.name)
                else:
                    out[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        else:
            mod = self.abs_mod(m, n)
            for a in n.names:
                if a.name != '*':
                    out[a.asname or a.name] = ('from', mod, a.name)
        return out

    def _collect_class(self, m, node, outer=None):
        c = ClassInfo(node.name if outer is None else outer.name + '.' + node.name, m, node, outer)
        self.classes[c.qual] = c
        self.class_of_node[id(node)] = c
        if outer is None:
            m.defs[node.name] = c
        m.classes.append(c)
        for s in node.body:
            self._class_stmt(m, c, s)
        return c

    def _class_stmt(self, m, c, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self._collect_func(m, s, c, None)
            if any(d.endswith('.setter') or d.endswith('.deleter') for d in f.decos):
                f.kind = 'setter'
                c.setters[s.name] = f
            else:
                c.methods[s.name] = f
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                for nm in ast.walk(t):
                    if isinstance(nm, ast.Name):
                        c.attrs.setdefault(nm.id, []).append(s.value if isinstance(t, ast.Name) else None)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            c.attrs.setdefault(s.target.id, []).append(s.value)
        elif isinstance(s, ast.ClassDef):
            inner = self._collect_class(m, s, c)
            c.attrs.setdefault(s.name, []).append(inner)
        elif isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
            for b in s.body + getattr(s, 'orelse', []):
                self._class_stmt(m, c, b)

    def _collect_func(self, m, node, cls, outer):
        name = node.name if not isinstance(node, ast.Lambda) else f'<lambda:{node.lineno}>'
        f = FuncInfo(name, m, node, cls, outer)
        self.funcs.setdefault(f.qual, f)
        self.func_of_node[id(node)] = f
        m.functions.append(f)
        for n in walk_own(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                g = self._collect_func(m, n, cls, f)
                g.kind = 'func'
                if not g.is_lambda:
                    f.nested[n.name] = g
            elif isinstance(n, ast.ClassDef):
                self._collect_class(m, n, None)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                f.globals_ |= set(n.names)
        for d in (node.args.defaults + [x for x in node.args.kw_defaults if x is not None]):
            for n in ast.walk(d):
                if isinstance(n, ast.Lambda) and id(n) not in self.func_of_node:
                    self._collect_func(m, n, cls, f)
        loc = set(f.params) | set(f.kwonly)
        if f.vararg:
            loc.add(f.vararg)
        if f.kwarg:
            loc.add(f.kwarg)
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                loc |= set(self.import_bindings(m, n))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                loc.add(n.name)
        f.locals = loc - f.globals_
        return f

    # -- resolution ---------------------------------------------------------------------------------------
    def module(self, name):
        return self.mods.get(name)

    def lookup(self, m, name, _seen=None):
        """Resolve a module-level name -> ClassInfo | FuncInfo | Mod | ('var', mod, name) | ('ext', dotted) |
        ('missing', ...) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.defs:
            d = m.defs[name]
            if isinstance(d, tuple):
                return ('var', m, name)
            return d
        if name in m.imports:
            b = m.imports[name]
            return self.resolve_binding(b, _seen)
        for s in m.stars:
            sm = self.mods.get(s)
            if sm is not None:
                r = self.lookup(sm, name, _seen)
                if r is not None:
                    return r
        return None

    def resolve_binding(self, b, _seen=None):
        if b[0] == 'mod':
            if b[1] in self.mods:
                return self.mods[b[1]]
            if b[1] in self.dirs:
                return ('pkg', b[1])
            return ('ext', b[1])
        _, mod, name = b
        full = (mod + '.' + name) if mod else name
        if mod in self.mods:
            r = self.lookup(self.mods[mod], name, _seen)
            if r is not None:
                return r
            if full in self.mods:
                return self.mods[full]
            if full in self.dirs:
                return ('pkg', full)
            return ('missing', mod, name)
        if full in self.mods:
            return self.mods[full]
        if mod in self.dirs:
            if full in self.dirs:
                return ('pkg', full)
            return ('missing', mod, name)
        return ('ext', full)

    def _bases(self, c):
        for b in c.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.lookup(c.mod, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                v = self.lookup(c.mod, b.value.id)
                if isinstance(v, Mod):
                    r = self.lookup(v, b.attr)
            if isinstance(r, ClassInfo):
                c.bases.append(r)
                r.subs.append(c)
            else:
                c.ext_bases.append(ast.unparse(b))

    def _mro(self, c):
        if c.mro is not None:
            return c.mro
        seqs = [list(self._mro(b)) for b in c.bases] + [list(c.bases)]
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    s.pop(0)
        c.mro = out
        return out


def is_main_guard(s):
    return isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) \
        and s.test.left.id == '__name__'


_TOP = {}


def is_toplevel(m, n):
    t = _TOP.get(id(m.tree))
    if t is None:
        t = set()

        def rec(body):
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    t.add(id(s))
                elif is_main_guard(s):
                    continue
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        rec(getattr(s, fld, []))
                    for h in getattr(s, 'handlers', []):
                        rec(h.body)
        rec(m.tree.body)
        _TOP[id(m.tree)] = t
    return id(n) in t


def parent_map(tree):
    pm = {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            pm[ch] = n
    return pm
