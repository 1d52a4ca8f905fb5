"""Abstract evaluation of pointwise formulas: statements of a function are folded into the exact normal forms of alg.py.

Every input is a symbol, every attribute the analysis does not know is a symbol, every callable it does not know is an
open function symbol; branches on unknown conditions are enumerated (the same condition gets the same answer).
Anything outside the fragment raises Unsup, and the instance is counted as undecided.
"""
import ast
from fractions import Fraction as Fr
from . import alg
from .alg import R, lift
from .project import ClassInfo, FuncInfo, Mod


class Unsup(Exception):
    pass


class Dead(Exception):
    """the path raises"""


class NoFork(Exception):
    """an assertion whose truth is not known"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Unk:
    """unknown value named by its access path"""
    __slots__ = ('path', 'args')

    def __init__(self, path, args=None):
        self.path, self.args = path, args      # args: call arguments (tuple of R) when the value is a call result

    def __repr__(self):
        return f'Unk({self.path}{self.args if self.args is not None else ""})'

    def __eq__(self, o):
        return isinstance(o, Unk) and self.path == o.path and self.args is None and o.args is None

    def __hash__(self):
        return hash(self.path)


class Obj:
    __slots__ = ('cls', 'attrs', 'path')

    def __init__(self, cls, path, attrs=None):
        self.cls, self.path, self.attrs = cls, path, attrs or {}

    def __repr__(self):
        return f'Obj({self.cls.name} {self.path})'


class Fn:
    __slots__ = ('f', 'self', 'env', 'pre')

    def __init__(self, f, self_=None, env=None, pre=()):
        self.f, self.self, self.env, self.pre = f, self_, env, pre

    def __repr__(self):
        return f'Fn({self.f.qual})'


class Part:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Deriv:
    """numerical partial derivative of f with respect to argument i"""
    def __init__(self, f, i):
        self.f, self.i = f, i


class NPD:
    def __init__(self, f, names, pts=None):
        self.f, self.names, self.pts = f, names, pts


class Ext:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'Ext({self.name})'


class Arr:
    """array whose first axes are known: nested lists of values"""


MATH1 = {'sin': alg.sin, 'cos': alg.cos, 'exp': alg.exp, 'tan': alg.tan, 'sinh': alg.sinh, 'cosh': alg.cosh,
         'tanh': alg.tanh, 'sqrt': lambda a: alg.power(a, Fr(1, 2)), 'square': lambda a: lift(a) * lift(a),
         'abs': lambda a: alg.fn('abs', a), 'absolute': lambda a: alg.fn('abs', a),
         'log': lambda a: alg.fn('log', a), 'arctan': lambda a: alg.fn('arctan', a),
         'arcsin': lambda a: alg.fn('arcsin', a), 'arccos': lambda a: alg.fn('arccos', a),
         'sign': lambda a: alg.fn('sign', a), 'negative': lambda a: -lift(a),
         'float': lift, 'asarray': lift, 'float64': lift, 'ascontiguousarray': lift}
NUMDERIV = {'NumericalPartialDerivative_txyz_Functions': 'txyz', 'NumericalPartialDerivative_txy_Functions': 'txy',
            'NumericalPartialDerivative_txyz': 'txyz', 'NumericalPartialDerivative_txy': 'txy',
            'NumericalPartialDerivative_xyz': 'xyz', 'NumericalPartialDerivative_xy': 'xy'}


DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.MatMult: 'matmul', ast.Pow: 'pow'}


def is_abstract(f):
    """the body only raises"""
    if f.is_lambda:
        return False
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


class Ev:
    MAXDEPTH = 25
    MAXPATHS = 64

    def __init__(self, project):
        self.p = project
        self.keep_open = set()      # FuncInfo quals not inlined: calls become open function symbols
        self.call_model = None      # hook(self, fn value, args) -> value or None
        self.attr_model = None      # hook(self, base value, attr) -> value or None
        self.iter_model = None      # hook(self, value) -> list of representative items or None
        self.nofork = 0
        self.funcs = set()          # paths of open values that are plain functions
        self.alive = []
        self.numderiv = True        # take the numerical derivative classes as exact derivatives
        self.dec, self.order, self.npre = {}, [], 0

    # ------------------------------------------------------------------ path enumeration
    def paths(self, thunk):
        """run thunk under every assignment of the unknown conditions -> list of (conditions, value)"""
        out = []
        todo = [()]
        n = 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > self.MAXPATHS:
                raise Unsup('too many paths')
            self.dec = dict(pre)
            self.order = list(pre)
            self.npre = len(pre)
            try:
                v = thunk()
            except Dead:
                v = None
                dead = True
            else:
                dead = False
            for i in range(self.npre, len(self.order)):
                k, b = self.order[i]
                todo.append(tuple(self.order[:i]) + ((k, not b),))
            if not dead:
                out.append((tuple(self.order), v))
        return out

    def decide(self, key, prefer=True):
        if key in self.dec:
            return self.dec[key]
        if self.nofork:
            raise NoFork()
        self.dec[key] = prefer
        self.order.append((key, prefer))
        return prefer

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None, depth=0, node=None):
        kw = kw or {}
        if depth > self.MAXDEPTH:
            raise Unsup('call depth')
        if self.call_model is not None:
            r = self.call_model(self, f, args, kw)
            if r is not None:
                return r
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, depth)
        if isinstance(f, Part):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k, depth)
        if isinstance(f, Deriv):
            return self.deriv(f, args, depth)
        if isinstance(f, NPD):
            if len(args) == 1 and isinstance(args[0], str):
                return Deriv(f.f, f.names.index(args[0]))
            raise Unsup('numerical derivative object')
        if isinstance(f, Ext):
            return self.ext(f.name, args, kw, depth)
        if isinstance(f, ClassInfo):
            return self.construct(f, args, kw, depth)
        if isinstance(f, Obj):
            m = f.cls.find('__call__')
            if m is not None:
                return self.call_fn(Fn(m, f), args, kw, depth)
            raise Unsup('object not callable')
        if isinstance(f, Unk):
            if f.args is not None:
                raise Unsup('call of call result')
            vals = []
            for a in args:
                if isinstance(a, (R, Unk)):
                    vals.append(self.num(a))
                else:
                    return Unk(f'{f.path}({self.show(args)})')
            if kw:
                raise Unsup('keywords of open function')
            return Unk(f.path, tuple(vals))
        if isinstance(f, tuple) and f and f[0] == 'listmeth':
            return self.listmeth(f, args)
        raise Unsup(f'call of {f!r}')

    def show(self, args):
        return ','.join(str(a.key()) if isinstance(a, R) else repr(a) for a in args)

    def listmeth(self, f, args):
        _, obj, name = f
        if name == 'append' and isinstance(obj, list):
            obj.append(args[0])
            return None
        if name == 'extend' and isinstance(obj, list):
            obj.extend(args[0])
            return None
        if name == 'keys' and isinstance(obj, dict):
            return list(obj.keys())
        if name == 'values' and isinstance(obj, dict):
            return list(obj.values())
        if name == 'items' and isinstance(obj, dict):
            return list(obj.items())
        if name == 'get' and isinstance(obj, dict):
            return obj.get(args[0], args[1] if len(args) > 1 else None)
        if isinstance(obj, str) and all(isinstance(a, str) for a in args) and \
                name in ('upper', 'lower', 'strip', 'split', 'replace', 'startswith', 'endswith', 'index'):
            r = getattr(obj, name)(*args)
            return lift(r) if type(r) is int else r
        if name == 'join' and isinstance(obj, str):
            return obj.join(args[0])
        raise Unsup(f'method {name}')

    def deriv(self, d, args, depth):
        """numerical derivative of d.f in its argument d.i at args"""
        names = [f'$d{depth}_{j}' for j in range(len(args))]
        v = self.call(d.f, [alg.sym(n) for n in names], {}, depth + 1)
        sub = {n: self.num(a) for n, a in zip(names, args)}

        def one(x):
            if isinstance(x, (tuple, list)):
                return type(x)(one(y) for y in x)
            return alg.subst(alg.diff(self.num(x), names[d.i]), sub)
        return one(v)

    def call_fn(self, fn, args, kw, depth):
        f = fn.f
        if f.is_gen:
            raise Unsup('generator')
        args = list(fn.pre) + list(args)
        if f.qual in self.keep_open or is_abstract(f):
            path = f'{fn.self.path}.{f.name}' if isinstance(fn.self, Obj) else f.qual
            return self.call(Unk(path), args, kw, depth + 1)
        if not f.is_lambda:
            for d in f.decos:
                if d in ('memoize1', 'memoize2', 'memoize5', 'accepts', 'property', 'staticmethod', 'classmethod',
                         'lru_cache', 'functools.lru_cache') or d.startswith('memoize') or d.endswith('.setter'):
                    continue
                raise Unsup(f'decorator {d}')
        env = dict(fn.env) if fn.env else {}
        params = list(f.params)
        env2 = {}
        if fn.self is not None and f.kind in ('method', 'prop', 'class', 'classprop', 'setter'):
            env2[params[0]] = fn.self
            params = params[1:]
        a = f.node.args
        if len(args) > len(params):
            if f.vararg is None:
                raise Unsup(f'too many arguments for {f.qual}')
            env2[f.vararg] = tuple(args[len(params):])
        elif f.vararg:
            env2[f.vararg] = ()
        for n, v in zip(params, args):
            env2[n] = v
        extra = {}
        for k, v in kw.items():
            if k in params or k in f.kwonly:
                env2[k] = v
            elif f.kwarg:
                extra[k] = v
            else:
                raise Unsup(f'unknown keyword {k}')
        if f.kwarg:
            env2[f.kwarg] = extra
        allp = list(f.params)
        dfl = a.defaults
        for n, d in zip(allp[len(allp) - len(dfl):], dfl):
            if n not in env2:
                env2[n] = self.expr(d, dict(env), f, depth)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env2 and d is not None:
                env2[x.arg] = self.expr(d, dict(env), f, depth)
        for n in f.params + f.kwonly:
            if n not in env2:
                raise Unsup(f'missing argument {n} of {f.qual}')
        env.update(env2)
        if f.is_lambda:
            return self.expr(f.node.body, env, f, depth + 1)
        try:
            self.body(f.node.body, env, f, depth + 1)
        except Ret as r:
            return r.v
        return None

    def construct(self, c, args, kw, depth):
        if self.numderiv and c.name in NUMDERIV:
            f = args[0]
            names = NUMDERIV[c.name]
            if c.name.endswith('Functions'):
                return NPD(f, names)
            return NPD(f, names, args[1:])
        o = Obj(c, f'new:{c.name}')
        init = c.find('__init__')
        if init is not None:
            self.call_fn(Fn(init, o), args, kw, depth + 1)
        return o

    # ------------------------------------------------------------------ values
    def num(self, v):
        if isinstance(v, R):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, str):
            raise Unsup(f'number expected, got {v!r}')
        if isinstance(v, (int, Fr)):
            return lift(v)
        if isinstance(v, Unk):
            if v.args is not None:
                return alg.app(v.path, v.args)
            return alg.sym(v.path)
        raise Unsup(f'number expected, got {type(v).__name__}')

    def isnum(self, v):
        return isinstance(v, (R, Unk)) or (isinstance(v, (int, Fr)) and not isinstance(v, bool))

    def cint(self, v):
        if isinstance(v, bool):
            raise Unsup('index')
        if isinstance(v, int):
            return v
        if isinstance(v, R):
            c = v.const()
            if c is not None and c == int(c):
                return int(c)
        raise Unsup('index is not constant')

    def binop(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            n = DUNDER.get(type(op))
            if n is None:
                raise Unsup('operator on object')
            m = a.cls.find(f'__{n}__') if isinstance(a, Obj) else None
            if m is not None:
                return self.call_fn(Fn(m, a), [b], {}, 10)
            m = b.cls.find(f'__r{n}__') if isinstance(b, Obj) else None
            if m is not None:
                return self.call_fn(Fn(m, b), [a], {}, 10)
            raise Unsup('operator on object')
        if isinstance(a, list) or isinstance(b, list):      # elementwise (arrays with known leading axis)
            a = list(a) if isinstance(a, tuple) else a
            b = list(b) if isinstance(b, tuple) else b
            if isinstance(a, list) and isinstance(b, list):
                if isinstance(op, ast.Add) and getattr(self, 'pylists', False):
                    return a + b
                if len(a) != len(b):
                    raise Unsup('list lengths')
                return [self.binop(op, x, y) for x, y in zip(a, b)]
            if isinstance(a, list):
                return [self.binop(op, x, b) for x in a]
            return [self.binop(op, a, y) for y in b]
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Add) and (isinstance(a, str) and isinstance(b, Unk) or
                                        isinstance(b, str) and isinstance(a, Unk)):
            return Unk(f'str({a!r}+{b!r})')
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and self.isnum(b):       # array * tuple: numpy broadcasts over the tuple
            return [self.binop(op, x, b) for x in a]
        if isinstance(b, tuple) and self.isnum(a):
            return [self.binop(op, a, x) for x in b]
        a, b = self.num(a), self.num(b)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if b.is_zero():
                raise Dead()
            return a / b
        if isinstance(op, ast.Pow):
            return alg.power(a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            x, y = a.const(), b.const()
            if x is not None and y:
                return lift(x // y if isinstance(op, ast.FloorDiv) else x % y)
            return alg.fn(type(op).__name__, a, b)
        raise Unsup(f'operator {type(op).__name__}')

    # ------------------------------------------------------------------ external functions
    def ext(self, name, args, kw, depth):
        short = name.split('.')[-1]
        if short in MATH1 and len(args) == 1 and not kw:
            return self.map1(lambda x: MATH1[short](self.num(x)), args[0])
        if short in ('zeros', 'zeros_like'):
            return lift(0)
        if short in ('ones', 'ones_like'):
            return lift(1)
        if short in ('arctan2', 'maximum', 'minimum', 'mod') and len(args) == 2:
            return alg.fn(short, self.num(args[0]), self.num(args[1]))
        if short in ('power', 'pow'):
            return alg.power(self.num(args[0]), self.num(args[1]))
        if short in ('array',):
            return self.tolist(args[0])
        if short == 'shape':
            return Unk('shape')
        if short in ('dot', 'matmul') and all(isinstance(a, (list, tuple)) for a in args):
            raise Unsup('dot')
        if short == 'linspace':
            return Unk('linspace')
        if short == 'meshgrid':
            return list(args)       # pointwise reading
        if short == 'getattr' and len(args) == 2 and isinstance(args[1], str):
            return self.attr(args[0], args[1], None, depth)
        if short == 'hypot':
            x, y = self.num(args[0]), self.num(args[1])
            return alg.power(x * x + y * y, Fr(1, 2))
        if short == 'partial':
            return Part(args[0], args[1:], kw)
        if short == 'range':
            return [lift(i) for i in range(*[self.cint(a) for a in args])]
        if short in ('ndim', 'size', 'min', 'max', 'all', 'any', 'diff', 'unique') and len(args) == 1 and \
                isinstance(args[0], (R, Unk)):
            return Unk(f'{short}({self.show(args)})')
        if short in ('float', 'int') and len(args) == 1 and isinstance(args[0], (R, Unk)) and short == 'float':
            return self.num(args[0])
        if short == 'len':
            if isinstance(args[0], (list, tuple, dict, str)):
                return lift(len(args[0]))
            if isinstance(args[0], (R, Unk)):
                return Unk(f'len({self.show(args)})')
            raise Unsup('len')
        if short == 'enumerate' and isinstance(args[0], (list, tuple, str)):
            return [(lift(i), v) for i, v in enumerate(args[0])]
        if short == 'zip' and all(isinstance(a, (list, tuple)) for a in args):
            return [tuple(x) for x in zip(*args)]
        if short in ('list', 'tuple') and len(args) == 1 and isinstance(args[0], (list, tuple)):
            return list(args[0]) if short == 'list' else tuple(args[0])
        if short in ('list', 'dict') and not args and not kw:
            return [] if short == 'list' else {}
        if short == 'sum' and len(args) == 1 and isinstance(args[0], (list, tuple)):
            r = lift(0)
            for x in args[0]:
                r = r + self.num(x)
            return r
        if short == 'print':
            return None
        if name == 'scipy.misc.derivative' or (short == 'derivative' and name.startswith('scipy')):
            n = kw.get('n', args[3] if len(args) > 3 else lift(1))
            k = self.cint(n)
            v = args[1]
            g = args[0]
            for _ in range(k):
                g = Deriv(g, 0)
            return self.call(g, [v], {}, depth + 1)
        if short == 'import_module' and len(args) == 1 and isinstance(args[0], str):
            m = self.p.mods.get(args[0])
            if m is None:
                raise Dead() if args[0].split('.')[0] in ('objects', 'components', 'tools', 'root') else Unsup('import')
            return m
        if short == 'id' and len(args) == 1:
            if isinstance(args[0], (list, dict, Obj, Fn, Deriv, Part)):
                self.alive.append(args[0])
                return f'id:{id(args[0])}'
            if isinstance(args[0], Unk):
                return f'id:{args[0]!r}'
            raise Unsup('id')
        if short == 'setattr' and len(args) == 3 and isinstance(args[0], Obj) and isinstance(args[1], str):
            args[0].attrs[args[1]] = args[2]
            return None
        if short == 'str' and len(args) == 1:
            return self.text(args[0], depth)
        if short == 'isinstance':
            return self.isinst(args[0], args[1])
        if short == 'callable':
            return isinstance(args[0], (Fn, Part, Deriv, Ext, ClassInfo)) or isinstance(args[0], Unk) or \
                (isinstance(args[0], Obj) and args[0].cls.find('__call__') is not None)
        if short == 'hasattr':
            raise Unsup('hasattr')
        if short in ('int', 'str', 'bool'):
            if isinstance(args[0], R) and short == 'int':
                c = args[0].const()
                if c is not None:
                    return lift(int(c))
            raise Unsup(short)
        if short == 'super':
            raise Unsup('super')
        raise Unsup(f'external {name}')

    def text(self, v, depth):
        if isinstance(v, str):
            return v
        if isinstance(v, ClassInfo):
            return f"<class '{v.mod.name}.{v.name}'>"
        if isinstance(v, Obj):
            m = v.cls.find('__str__') or v.cls.find('__repr__')
            if m is not None:
                return self.call_fn(Fn(m, v), [], {}, depth + 1)
            return f'<{v.cls.mod.name}.{v.cls.name} object at 0x0>'
        if isinstance(v, R) and v.const() is not None and v.const() == int(v.const()):
            return str(int(v.const()))
        raise Unsup('str')

    def isinst(self, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        names = []
        for x in ts:
            names.append(x.name.split('.')[-1] if isinstance(x, (Ext, ClassInfo)) else '?')
        if isinstance(v, R) and v.const() is not None and ('float' in names or 'int' in names):
            return True
        if isinstance(v, Fn) and not any(isinstance(x, ClassInfo) for x in ts):
            return ('MethodType' if v.self is not None else 'FunctionType') in names
        if isinstance(v, (Deriv, NPD)) and not any(isinstance(x, ClassInfo) for x in ts):
            return isinstance(v, Deriv) and 'MethodType' in names
        if isinstance(v, Part) and not any(isinstance(x, ClassInfo) for x in ts):
            return 'partial' in names
        if isinstance(v, Unk) and v.path in self.funcs:
            return 'FunctionType' in names
        if isinstance(v, R):
            return 'ndarray' in names or 'Number' in names
        if isinstance(v, str):
            return 'str' in names
        if isinstance(v, list):
            return 'list' in names
        if isinstance(v, tuple):
            return 'tuple' in names
        if isinstance(v, dict):
            return 'dict' in names
        if v is None:
            return False
        if isinstance(v, Obj):
            return any(isinstance(x, ClassInfo) and x in v.cls.mro for x in ts)
        if isinstance(v, Unk) and v.args is None:
            return self.decide(('isinstance', v.path, tuple(sorted(names))))
        raise Unsup('isinstance')

    def map1(self, f, v):
        if isinstance(v, (list, tuple)):
            return [self.map1(f, x) for x in v]
        return f(v)

    def tolist(self, v):
        if isinstance(v, (list, tuple)):
            return [self.tolist(x) for x in v]
        return v

    # ------------------------------------------------------------------ attributes
    def attr(self, b, name, f, depth):
        if self.attr_model is not None:
            r = self.attr_model(self, b, name)
            if r is not None:
                return r
        if isinstance(b, Obj):
            if name in b.attrs:
                return b.attrs[name]
            if name == '__class__':
                return b.cls
            m = b.cls.find(name)
            if m is not None:
                if m.kind in ('prop', 'classprop'):
                    return self.call_fn(Fn(m, b), [], {}, depth + 1)
                if m.kind == 'static':
                    return Fn(m)
                return Fn(m, b)
            ca = b.cls.find_attr(name)
            if ca:
                e = ca[1][-1]
                if isinstance(e, ast.AST):
                    try:
                        return self.expr(e, {}, _cls_frame(b.cls), depth)
                    except Unsup:
                        pass
            return Unk(f'{b.path}.{name}')
        if isinstance(b, Unk):
            if b.args is not None:
                raise Unsup('attribute of open call result')
            return Unk(f'{b.path}.{name}')
        if isinstance(b, Mod):
            return self.resolve(self.p.lookup(b, name), f'{b.name}.{name}', depth)
        if isinstance(b, Ext):
            if name == 'pi':
                return alg.pi()
            if name == 'newaxis':
                return None
            if name == '__name__':
                return b.name.split('.')[-1]
            return Ext(f'{b.name}.{name}')
        if isinstance(b, R):
            if name == '__class__':
                return Ext('numpy.ndarray')
            if name in ('shape', 'size'):
                return Unk('shape')
            if name in ('T', 'real'):
                return b
            if name in ('ravel', 'copy', 'flatten', 'reshape'):
                return ('const', b)
            raise Unsup(f'array attribute {name}')
        if isinstance(b, (list, dict, str, tuple)):
            if name == '__class__':
                return Ext(type(b).__name__)
            return ('listmeth', b, name)
        if isinstance(b, ClassInfo):
            if name == '__name__':
                return b.name
            m = b.find(name)
            if m is not None:
                if m.kind in ('class', 'classprop'):
                    g = Fn(m, b)
                    return self.call_fn(g, [], {}, depth + 1) if m.kind == 'classprop' else g
                return Fn(m)
            raise Unsup(f'class attribute {name}')
        if isinstance(b, (Fn, Part)) and name == '__class__':
            return Ext('function')
        raise Unsup(f'attribute {name} of {type(b).__name__}')

    def resolve(self, r, name, depth):
        if isinstance(r, FuncInfo):
            return Fn(r)
        if isinstance(r, (ClassInfo, Mod)):
            return r
        if isinstance(r, tuple):
            if r[0] == 'ext':
                if r[1].split('.')[-1] == 'pi':
                    return alg.pi()
                if r[1].startswith('scipy.constants.'):
                    return Unk(r[1])
                return Ext(r[1])
            if r[0] == 'var':
                vals = r[1].defs[r[2]][1]
                if len(vals) == 1 and vals[0] is not None:
                    return self.expr(vals[0], {}, _mod_frame(r[1]), depth)
                return Unk(f'{r[1].name}.{r[2]}')
        raise Unsup(f'name {name}')

    # ------------------------------------------------------------------ expressions
    def expr(self, e, env, f, depth):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsup(f'expression {type(e).__name__}')
        return m(e, env, f, depth)

    def e_Constant(self, e, env, f, d):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return lift(v)
        if isinstance(v, float):
            return lift(Fr(repr(v)))
        raise Unsup('constant')

    def e_Name(self, e, env, f, d):
        if e.id in env:
            v = env[e.id]
            return v
        loc = _local_import(self.p, f, e.id)
        if loc is not None:
            return self.resolve(loc, e.id, d)
        r = self.p.lookup(f.mod, e.id)
        if r is None:
            if e.id in ('True', 'False'):
                return e.id == 'True'
            return Ext(e.id)
        return self.resolve(r, e.id, d)

    def e_BinOp(self, e, env, f, d):
        return self.binop(e.op, self.expr(e.left, env, f, d), self.expr(e.right, env, f, d))

    def e_UnaryOp(self, e, env, f, d):
        v = self.expr(e.operand, env, f, d)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Obj):
                m = v.cls.find('__neg__')
                if m is None:
                    raise Unsup('negation of object')
                return self.call_fn(Fn(m, v), [], {}, d + 1)
            return self.map1(lambda x: -self.num(x), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return not self.truth(v, ast.unparse(e.operand))
        raise Unsup('unary')

    def e_Tuple(self, e, env, f, d):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, env, f, d)
                if not isinstance(v, (list, tuple)):
                    raise Unsup('starred')
                out += list(v)
            else:
                out.append(self.expr(x, env, f, d))
        return tuple(out)

    def e_List(self, e, env, f, d):
        return list(self.e_Tuple(e, env, f, d))

    def e_Dict(self, e, env, f, d):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsup('dict spread')
            out[self.hkey(self.expr(k, env, f, d))] = self.expr(v, env, f, d)
        return out

    def e_Set(self, e, env, f, d):
        return list(self.e_Tuple(e, env, f, d))

    def e_JoinedStr(self, e, env, f, d):
        out, opaque = '', False
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.expr(v.value, env, f, d)
                if isinstance(x, R) and x.const() is not None and x.const() == int(x.const()):
                    out += str(int(x.const()))
                elif isinstance(x, str):
                    out += x
                elif isinstance(x, (Unk, R, Obj)):
                    opaque = True
                    out += repr(x) if not isinstance(x, R) else str(x.key())
                else:
                    raise Unsup('f-string')
        return Unk(f'fstr({out})') if opaque else out

    def e_Lambda(self, e, env, f, d):
        return Fn(self.p.func_of_node[id(e)], None, dict(env))

    def e_IfExp(self, e, env, f, d):
        return self.expr(e.body if self.cond(e.test, env, f, d) else e.orelse, env, f, d)

    def e_Attribute(self, e, env, f, d):
        return self.attr(self.expr(e.value, env, f, d), e.attr, f, d)

    def e_ListComp(self, e, env, f, d):
        out = []

        def rec(i, env):
            if i == len(e.generators):
                out.append(self.expr(e.elt, env, f, d))
                return
            g = e.generators[i]
            it = self.iterable(self.expr(g.iter, env, f, d))
            for v in it:
                env2 = dict(env)
                self.assign(g.target, v, env2, f, d)
                if all(self.cond(c, env2, f, d) for c in g.ifs):
                    rec(i + 1, env2)
        rec(0, env)
        return out

    e_GeneratorExp = e_ListComp

    def iterable(self, v):
        if self.iter_model is not None:
            r = self.iter_model(self, v)
            if r is not None:
                return r
        if isinstance(v, (list, tuple, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        raise Unsup('iteration')

    def hkey(self, k):
        if isinstance(k, R):
            c = k.const()
            if c is not None:
                return int(c) if c == int(c) else c
            raise Unsup('key')
        return k

    def e_Subscript(self, e, env, f, d):
        b = self.expr(e.value, env, f, d)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            if isinstance(b, (list, tuple, str)):
                g = [None if x is None else self.cint(self.expr(x, env, f, d)) for x in (s.lower, s.upper, s.step)]
                return b[slice(*g)]
            if isinstance(b, R):
                return b
            if isinstance(b, Unk) and b.args is None:
                g = [None if x is None else self.cint(self.expr(x, env, f, d)) for x in (s.lower, s.upper, s.step)]
                return Unk(f'{b.path}[{g}]')
            raise Unsup('slice')
        if isinstance(b, R):
            # pointwise reading of an array of points: x[:, 0] or x[..., None] keep the pointwise value
            if isinstance(e.slice, ast.Tuple) and all(isinstance(x, ast.Slice) or
                                                      (isinstance(x, ast.Constant) and x.value in (None, Ellipsis)) or
                                                      (isinstance(x, ast.Attribute) and x.attr == 'newaxis')
                                                      for x in e.slice.elts):
                return b
            raise Unsup('array index')
        if isinstance(b, Unk) and b.args is None and isinstance(e.slice, ast.Tuple) and \
                any(isinstance(x, ast.Slice) for x in e.slice.elts):
            ks = [':' if isinstance(x, ast.Slice) and x.lower is x.upper is x.step is None else
                  self.kname(self.expr(x, env, f, d)) for x in e.slice.elts]
            return Unk(f"{b.path}[{','.join(ks)}]")
        k = self.expr(e.slice, env, f, d)
        if isinstance(b, (list, tuple, str)) and isinstance(k, Unk):
            k = self.pick(k, len(b))
        if isinstance(b, (list, tuple)):
            if isinstance(k, tuple):
                for x in k:
                    b = b[self.cint(x)]
                return b
            i = self.cint(k)
            if not -len(b) <= i < len(b):
                raise Dead()
            return b[i]
        if isinstance(b, dict):
            k = self.hkey(k)
            if k not in b:
                raise Dead()
            return b[k]
        if isinstance(b, str):
            return b[self.cint(k)]
        if isinstance(b, Unk):
            if b.args is not None:
                return Unk(f'{b.path}#{self.cint(k)}', b.args)
            if isinstance(k, tuple):
                return Unk(f"{b.path}[{','.join(self.kname(x) for x in k)}]")
            return Unk(f'{b.path}[{self.kname(k)}]')
        if isinstance(b, Obj):
            m = b.cls.find('__getitem__')
            if m is not None:
                return self.call_fn(Fn(m, b), [k], {}, d + 1)
        raise Unsup(f'subscript of {type(b).__name__}')

    def pick(self, k, n):
        """an unknown position of a known sequence: every position is one path"""
        u = self.ident(k)
        for i in range(n):
            if self.cmp(ast.Eq(), k, lift(i)):
                return lift(i)
        raise Dead()

    def kname(self, k):
        if isinstance(k, R):
            c = k.const()
            return str(c) if c is not None else str(k.key())
        if isinstance(k, Unk) and k.args is None:
            return k.path
        if isinstance(k, str):
            return repr(k)
        raise Unsup('key')

    def e_Call(self, e, env, f, d):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in env:
            s = env.get(f.params[0]) if f.params else None
            return ('super', f.cls, s)
        fv = self.expr(e.func, env, f, d) if not (isinstance(e.func, ast.Attribute)) else None
        if fv is None:
            b = self.expr(e.func.value, env, f, d)
            if isinstance(b, tuple) and b and b[0] == 'super':
                mro = b[2].cls.mro
                for c in mro[mro.index(b[1]) + 1:]:
                    if e.func.attr in c.methods:
                        fv = Fn(c.methods[e.func.attr], b[2])
                        break
                else:
                    return None     # object.__init__ and friends
            else:
                fv = self.attr(b, e.func.attr, f, d)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, env, f, d)
                if isinstance(v, Unk):
                    raise Unsup('starred open value')
                args += list(v)
            else:
                args.append(self.expr(a, env, f, d))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.expr(k.value, env, f, d)
                if not isinstance(v, dict):
                    raise Unsup('keyword spread')
                kw.update(v)
            else:
                kw[k.arg] = self.expr(k.value, env, f, d)
        if isinstance(fv, tuple) and fv and fv[0] == 'const':
            return fv[1]
        if isinstance(fv, Fn) and fv.f.name in ('_freeze_self_', '_melt_self_'):
            return None
        return self.call(fv, args, kw, d, e)

    # ------------------------------------------------------------------ conditions
    def truth(self, v, text):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (str, list, tuple, dict)):
            return bool(v)
        if isinstance(v, R):
            c = v.const()
            if c is not None:
                return c != 0
            return self.decide(('truth', v.key()))
        if isinstance(v, Unk):
            return self.decide(('truth', v.path, v.args))
        if isinstance(v, (Fn, Part, Deriv, Obj)):
            return True
        raise Unsup('condition ' + text)

    def cond(self, e, env, f, d):
        return self.truth(self.expr(e, env, f, d), ast.unparse(e))

    def e_BoolOp(self, e, env, f, d):
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            b = self.cond(x, env, f, d)
            if b != isand:
                return b
        return isand

    def e_Compare(self, e, env, f, d):
        left = self.expr(e.left, env, f, d)
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r, env, f, d)
            if not self.cmp(op, left, right):
                return False
            left = right
        return True

    def ident(self, v):
        if isinstance(v, R):
            c = v.const()
            return ('n', c) if c is not None else ('r', v.key())
        if isinstance(v, Unk):
            return ('u', v.path, v.args if v.args is None else tuple(a.key() for a in v.args))
        if isinstance(v, (str, bool)) or v is None:
            return ('c', v)
        if isinstance(v, (tuple, list)):
            return ('t',) + tuple(self.ident(x) for x in v)
        raise Unsup('comparison')

    def known(self, i):
        return i[0] in ('n', 'c') or (i[0] == 't' and all(self.known(x) for x in i[1:]))

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if b is None or a is None:
                x = a if b is None else b
                if x is None:
                    return not neg
                if isinstance(x, Unk):
                    r = self.decide(('isnone', x.path))
                    return r != neg
                return neg
            if isinstance(a, ClassInfo) and isinstance(b, ClassInfo):
                return (a is b) != neg
            if isinstance(a, (ClassInfo, Ext)) and isinstance(b, (ClassInfo, Ext)):
                if type(a) is not type(b):
                    return neg
                return (a.name.split('.')[-1] == b.name.split('.')[-1]) != neg
            if isinstance(a, Obj) and isinstance(b, Obj):
                return (a is b) != neg
            if isinstance(b, bool):
                if isinstance(a, bool):
                    return (a is b) != neg
                if isinstance(a, Unk):
                    t = self.decide(('truth', a.path, a.args))
                    return (t == b) != neg
            raise Unsup('is')
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if isinstance(a, ClassInfo) and isinstance(b, ClassInfo):
                return (a is b) != neg
            if isinstance(a, (Fn, Obj, Part)) or isinstance(b, (Fn, Obj, Part)):
                raise Unsup('comparison')
            if isinstance(a, Ext) and isinstance(b, Ext):
                return (a.name.split('.')[-1] == b.name.split('.')[-1]) != neg
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return all(self.cmp(ast.Eq(), x, y) for x, y in zip(a, b)) != neg
            ia, ib = self.ident(a), self.ident(b)
            if ia == ib:
                return not neg
            if self.known(ia) and self.known(ib):
                return neg
            # one unknown compared with constants: at most one constant matches
            for u, k in ((ia, ib), (ib, ia)):
                if self.known(k) and not self.known(u):
                    for key, val in self.dec.items():
                        if key[0] == 'eq' and key[1] == u and val and key[2] != k:
                            return neg
                    return self.decide(('eq', u, k)) != neg
            x, y = sorted((ia, ib), key=repr)
            return self.decide(('eq', x, y)) != neg
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if isinstance(b, str) and isinstance(a, str):
                return (a in b) != neg
            if isinstance(b, dict):
                return (self.hkey(a) in b) != neg
            if isinstance(b, (list, tuple)):
                for x in b:
                    if self.cmp(ast.Eq(), a, x):
                        return not neg
                return neg
            if isinstance(b, Unk):
                return self.decide(('in', self.ident(a), b.path)) != neg
            raise Unsup('in')
        a, b = self.num(a), self.num(b)
        c = (a - b).const()
        if c is not None:
            return {ast.Lt: c < 0, ast.LtE: c <= 0, ast.Gt: c > 0, ast.GtE: c >= 0}[type(op)]
        k = (a - b).key()
        if isinstance(op, (ast.Gt, ast.LtE)):
            t = self.decide(('gt', k))
            return t if isinstance(op, ast.Gt) else not t
        t = self.decide(('lt', k))
        return t if isinstance(op, ast.Lt) else not t

    # ------------------------------------------------------------------ statements
    def body(self, stmts, env, f, d):
        for s in stmts:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsup(f'statement {type(s).__name__}')
            m(s, env, f, d)

    def s_Return(self, s, env, f, d):
        raise Ret(None if s.value is None else self.expr(s.value, env, f, d))

    def s_Expr(self, s, env, f, d):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value, env, f, d)

    def s_Pass(self, s, env, f, d):
        pass

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Assert(self, s, env, f, d):
        """a path whose assertion is surely false raises"""
        if not isinstance(s.test, ast.Compare):
            return
        self.nofork += 1
        try:
            dead = not self.cond(s.test, env, f, d)
        except (NoFork, Unsup, Dead, alg.TooBig, TypeError, AttributeError, KeyError, IndexError):
            dead = False
        finally:
            self.nofork -= 1
        if dead:
            raise Dead()

    def s_Raise(self, s, env, f, d):
        raise Dead()

    def s_Assign(self, s, env, f, d):
        v = self.expr(s.value, env, f, d)
        for t in s.targets:
            self.assign(t, v, env, f, d)

    def s_AnnAssign(self, s, env, f, d):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, env, f, d), env, f, d)

    def s_AugAssign(self, s, env, f, d):
        load = ast.parse(ast.unparse(s.target), mode='eval').body
        cur = self.expr(load, env, f, d)
        v = self.expr(s.value, env, f, d)
        if isinstance(cur, list) and isinstance(v, list) and isinstance(s.op, ast.Add):
            cur.extend(v)
            return
        self.assign(s.target, self.binop(s.op, cur, v), env, f, d)

    def assign(self, t, v, env, f, d):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, f, d)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, env, f, d)
            if isinstance(b, Obj):
                st = b.cls.find_setter(t.attr)
                if st is not None:
                    self.call_fn(Fn(st, b), [v], {}, d + 1)
                else:
                    b.attrs[t.attr] = v
            else:
                raise Unsup('attribute store')
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, env, f, d)
            if isinstance(b, (dict, list)) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                k = self.hkey(self.expr(t.slice, env, f, d))
                if isinstance(b, list):
                    b[self.cint(k)] = v
                else:
                    b[k] = v
            else:
                raise Unsup('subscript store')
        else:
            raise Unsup('assignment target')

    def unpack(self, v, n):
        if isinstance(v, (list, tuple)):
            if len(v) != n:
                raise Unsup('unpack length')
            return v
        if isinstance(v, Unk):
            if v.args is not None:
                return [Unk(f'{v.path}#{i}', v.args) for i in range(n)]
            return [Unk(f'{v.path}[{i}]') for i in range(n)]
        raise Unsup('unpack')

    def s_If(self, s, env, f, d):
        # memo idiom: `if X is None: X = ...`
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Is) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and \
                isinstance(t.left, ast.Attribute):
            x = self.expr(t.left, env, f, d)
            txt = ast.unparse(t.left)
            if isinstance(x, Unk) and any(isinstance(n, (ast.Assign,)) and any(ast.unparse(tt) == txt
                                                                              for tt in n.targets)
                                          for b in s.body for n in ast.walk(b)):
                self.body(s.body, env, f, d)
                return
        if self.cond(s.test, env, f, d):
            self.body(s.body, env, f, d)
        else:
            self.body(s.orelse, env, f, d)

    def s_For(self, s, env, f, d):
        it = self.iterable(self.expr(s.iter, env, f, d))
        if len(it) > 64:
            raise Unsup('long loop')
        for v in it:
            self.assign(s.target, v, env, f, d)
            try:
                self.body(s.body, env, f, d)
            except Brk:
                break
            except Cont:
                continue
        else:
            self.body(s.orelse, env, f, d)

    def s_Break(self, s, env, f, d):
        raise Brk()

    def s_Continue(self, s, env, f, d):
        raise Cont()

    def s_With(self, s, env, f, d):
        self.body(s.body, env, f, d)

    def s_Try(self, s, env, f, d):
        self.body(s.body, env, f, d)
        self.body(s.finalbody, env, f, d)

    def s_FunctionDef(self, s, env, f, d):
        g = self.p.func_of_node[id(s)]
        env[s.name] = Fn(g, None, env)

    def s_Delete(self, s, env, f, d):
        pass


class _Frame:
    """stand-in for a function when class or module level expressions are evaluated"""
    def __init__(self, mod, cls=None):
        self.mod, self.cls, self.node, self.params = mod, cls, None, []


def _cls_frame(c):
    return _Frame(c.mod, c)


def _mod_frame(m):
    return _Frame(m)


def _local_import(p, f, name):
    node = getattr(f, 'node', None)
    if node is None or isinstance(node, ast.Lambda):
        return None
    for n in ast.walk(node):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            b = p.import_bindings(f.mod, n)
            if name in b:
                return p.resolve_binding(b[name])
    return None
