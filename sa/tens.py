"""Abstract evaluation of array code: a value is the normal form of its generic entry plus one label per axis.

Labels: 'G:a,b' the grid spanned by the 1d node sets a, b; 'F:a,b' / 'C:a,b' the same points in column- / row-major order;
'<form>.<c>' the local basis functions of one component of a form, '<form>.*' all of them; 'e' the mesh elements; '1' a
broadcast axis.  einsum, products, transposes, stacking and reshapes are folded on labels; two different labels on one
index of a product are an error of the analysed code when the order of points or the owner of the basis functions differ.
"""
import ast
from fractions import Fraction as Fr
from . import alg
from .alg import R, lift
from .form import Ev, Unk, Unsup, Dead, Ext, Obj, Fn, Part
from .project import ClassInfo


class Mismatch(Exception):
    """two axes that cannot belong together meet in one index"""


class T:
    __slots__ = ('v', 'ax')

    def __init__(self, v, ax=()):
        self.v, self.ax = lift(v) if not isinstance(v, R) else v, tuple(ax)

    def __repr__(self):
        return f'T({str(self.v)[:80]} {self.ax})'


class Blocks:
    """array split into blocks along its axes: grid[i][j] of T or None"""
    def __init__(self, grid):
        self.grid = grid

    def __repr__(self):
        return f'Blocks({self.grid})'


def isdof(x):
    return '.' in x and ':' not in x


def ispt(x):
    return x[:2] in ('F:', 'C:', 'G:') or x.startswith('X:')


def clash(a, b, where):
    if a[1:] == b[1:] and ispt(a) and ispt(b):
        raise Mismatch(f'points in {a[0]} order meet points in {b[0]} order in {where}')
    if isdof(a) and isdof(b):
        raise Mismatch(f'basis functions {a} meet basis functions {b} in {where}')
    raise Unsup(f'axes {a} and {b} in {where}')


def join_axes(a, b, where):
    n = max(len(a), len(b))
    a = ('1',) * (n - len(a)) + a
    b = ('1',) * (n - len(b)) + b
    out = []
    for x, y in zip(a, b):
        if x == y or y in '1?':
            out.append(y if x == '1' else x)
        elif x in '1?':
            out.append(y)
        else:
            clash(x, y, where)
    return tuple(out)


def sigma(label):
    return alg.sym(f'SUM<{label}>')


class TEv(Ev):
    """Ev with arrays"""
    COMPS = {}                  # form name -> list of component sizes (concrete representatives)

    def arr(self, v):
        if isinstance(v, T):
            return v
        return T(self.num(v))

    def isarr(self, v):
        return isinstance(v, T)

    def num(self, v):
        if isinstance(v, T):
            if v.ax == ():
                return v.v
            raise Unsup('array where a number is expected')
        return super().num(v)

    def isnum(self, v):
        return isinstance(v, T) or super().isnum(v)

    # ------------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        if isinstance(op, ast.MatMult) and not isinstance(a, Obj) and not isinstance(b, Obj):
            return self.matmul(a, b)
        if isinstance(a, Blocks) or isinstance(b, Blocks):
            if isinstance(a, Blocks) and isinstance(b, Blocks) and isinstance(op, (ast.Add, ast.Sub)):
                if len(a.grid) != len(b.grid) or len(a.grid[0]) != len(b.grid[0]):
                    raise Unsup('block shapes')
                return Blocks([[self.bsum(op, x, y) for x, y in zip(r, q)] for r, q in zip(a.grid, b.grid)])
            bl, o, left = (a, b, True) if isinstance(a, Blocks) else (b, a, False)
            if isinstance(op, (ast.Mult, ast.Div)) and self.isnum(o) and self.arr(o).ax == ():
                if isinstance(op, ast.Div) and not left:
                    raise Unsup('block division')
                return Blocks([[None if x is None else self.binop(op, x, o) if left else self.binop(op, o, x)
                                for x in r] for r in bl.grid])
            raise Unsup('block arithmetic')
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, (list, tuple)):
                return [self.binop(op, x, b) for x in a]
            if isinstance(b, (list, tuple)):
                return [self.binop(op, a, x) for x in b]
            x, y = self.arr(a), self.arr(b)
            where = f'{type(op).__name__}'
            v = super().binop(op, x.v, y.v)
            if y.v.is_zero() and len(y.ax) != len(x.ax) and y.ax and x.ax and not x.v.is_zero():
                return T(v, x.ax)
            return T(v, join_axes(x.ax, y.ax, where))
        return super().binop(op, a, b)

    def bsum(self, op, x, y):
        if x is None:
            return None if y is None else (y if isinstance(op, ast.Add) else self.neg(y))
        if y is None:
            return x
        return self.binop(op, x, y)

    def neg(self, v):
        if isinstance(v, T):
            return T(-v.v, v.ax)
        if isinstance(v, Blocks):
            return Blocks([[None if x is None else self.neg(x) for x in r] for r in v.grid])
        if isinstance(v, (list, tuple)):
            return [self.neg(x) for x in v]
        return -self.num(v)

    def e_UnaryOp(self, e, env, f, d):
        if isinstance(e.op, ast.USub):
            v = self.expr(e.operand, env, f, d)
            if not isinstance(v, Obj):
                return self.neg(v)
            raise Unsup('negation of object')
        return super().e_UnaryOp(e, env, f, d)

    def matmul(self, a, b):
        if isinstance(a, Blocks) or isinstance(b, Blocks):
            a = a if isinstance(a, Blocks) else None
            raise Unsup('block product')
        a, b = self.arr(a), self.arr(b)
        if not a.ax or not b.ax:
            raise Unsup('matmul of numbers')
        k = len(b.ax) - 2 if len(b.ax) >= 2 else 0
        if len(a.ax) > 2 or len(b.ax) > 2:
            raise Unsup('matmul of stacks')
        x, y = a.ax[-1], b.ax[k]
        if x != y:
            clash(x, y, 'matrix product')
        return T(a.v * b.v * sigma(x), a.ax[:-1] + b.ax[:k] + b.ax[k + 1:])

    # ------------------------------------------------------------------ numpy / scipy
    def einsum(self, args):
        if not isinstance(args[0], str):
            raise Unsup('einsum without subscripts')
        spec = args[0].replace(' ', '')
        ops = [self.arr(self.lift_list(x)) for x in args[1:]]
        ins, _, out = spec.partition('->')
        ins = ins.split(',')
        if len(ins) != len(ops):
            raise Unsup('einsum operands')
        bind = {}
        val = lift(1)
        for s, o in zip(ins, ops):
            if len(s) != len(o.ax):
                if o.v.is_zero():
                    val = lift(0)
                    continue
                raise Unsup(f'einsum rank of {s}')
            for c, l in zip(s, o.ax):
                if c not in bind or bind[c] in '1?':
                    bind[c] = l
                elif l not in '1?' and bind[c] != l:
                    clash(bind[c], l, f'index {c} of einsum {spec!r}')
            val = val * o.v
        if '->' not in spec:
            allc = ''.join(ins)
            out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
        for c in bind:
            if c not in out:
                val = val * sigma(bind[c])
        for c in out:
            if c not in bind:
                raise Unsup('einsum output')
        return T(val, tuple(bind[c] for c in out))

    def lift_list(self, v):
        if isinstance(v, (list, tuple)):
            # a small constant array: constants only
            raise Unsup('list operand')
        return v

    def grid_of(self, args, kw):
        for a in args:
            if not isinstance(a, T) or len(a.ax) != 1:
                raise Unsup('meshgrid of unknown nodes')
        names = [a.ax[0] for a in args]
        ix = kw.get('indexing', 'xy')
        lab = ','.join(names) if ix == 'ij' else ','.join([names[1], names[0]] + names[2:])
        return [T(a.v, ('G:' + lab,)) for a in args]

    def ext(self, name, args, kw, depth):
        short = name.split('.')[-1]
        if short == 'einsum':
            return self.einsum(args)
        if short == 'meshgrid' and any(isinstance(a, T) for a in args):
            return self.grid_of(args, kw)
        if short in ('csc_matrix', 'csr_matrix', 'coo_matrix', 'array', 'asarray', 'ascontiguousarray') and \
                len(args) == 1 and isinstance(args[0], (T, Blocks)):
            return args[0]
        if short in ('hstack', 'concatenate', 'vstack', 'block', 'bmat'):
            return self.stack(short, args, kw)
        if short == 'reciprocal':
            return self.map1(lambda x: T(lift(1) / self.arr(x).v, self.arr(x).ax) if isinstance(x, T)
                             else lift(1) / self.num(x), args[0])
        if short in ('sum', 'add.reduce') and args:
            return self.sum(args[0], kw.get('axis', args[1] if len(args) > 1 else None))
        if short == 'power' and isinstance(args[0], T):
            return T(alg.power(args[0].v, self.num(args[1])), args[0].ax)
        if short == 'multiply' and len(args) == 2:
            return self.binop(ast.Mult(), *args)
        if short in ('dot', 'matmul') and len(args) == 2:
            return self.matmul(*args)
        if short == 'transpose' and len(args) == 1 and isinstance(args[0], T):
            return T(args[0].v, args[0].ax[::-1])
        if short == 'tensordot':
            raise Unsup(short)
        if short == 'outer' and len(args) == 2 and all(isinstance(a, T) for a in args):
            return T(args[0].v * args[1].v, args[0].ax + args[1].ax)
        if short == 'len' and isinstance(args[0], T):
            return Unk(f'len:{args[0].ax[0]}') if args[0].ax else lift(1)
        if short in ('max', 'min') and len(args) == 1 and isinstance(args[0], (list, tuple)):
            cs = [self.num(x).const() for x in args[0]]
            if all(c is not None for c in cs):
                return lift(max(cs) if short == 'max' else min(cs))
            raise Unsup(short)
        if short == 'int' and len(args) == 1 and isinstance(args[0], R) and args[0].const() is not None:
            return lift(int(args[0].const()))
        if short in ('all', 'any') and len(args) == 1 and isinstance(args[0], (list, tuple)):
            vals = [self.truth(x, short) for x in args[0]]
            return all(vals) if short == 'all' else any(vals)
        if short == 'empty':
            return Unk('empty')
        if short in ('zeros', 'zeros_like'):
            if short == 'zeros':
                return T(0, ('?',) * (len(args[0]) if isinstance(args[0], (list, tuple)) else 1))
            return T(0, args[0].ax) if isinstance(args[0], T) else lift(0)
        if short == 'isinstance' and isinstance(args[0], T):
            names = [x.name.split('.')[-1] for x in (args[1] if isinstance(args[1], tuple) else (args[1],))
                     if isinstance(x, (Ext, ClassInfo))]
            return 'ndarray' in names
        if short in ('abs', 'absolute') and isinstance(args[0], T):
            return T(alg.fn('abs', args[0].v), args[0].ax)
        if short == 'sqrt' and isinstance(args[0], T):
            return T(alg.power(args[0].v, Fr(1, 2)), args[0].ax)
        if short == 'range' or short == 'enumerate':
            return super().ext(name, [self.lint(a) for a in args], kw, depth)
        if any(isinstance(a, (T, Blocks)) for a in args):
            raise Unsup(f'external {name} of array')
        return super().ext(name, args, kw, depth)

    def lint(self, a):
        return lift(a) if type(a) is int else a

    def sum(self, v, axis):
        if isinstance(v, (list, tuple)):
            ax = None if axis is None else self.cint(axis)
            if ax not in (None, 0):
                raise Unsup('sum axis')
            if not v:
                return lift(0)
            r = v[0]
            for x in v[1:]:
                r = self.binop(ast.Add(), r, x)
            if ax is None and isinstance(r, T) and r.ax:
                return self.sum(r, None)
            return r
        if isinstance(v, T):
            if axis is None:
                r = v.v
                for l in v.ax:
                    if l != '1':
                        r = r * sigma(l)
                return T(r, ())
            k = self.cint(axis) % len(v.ax)
            return T(v.v * sigma(v.ax[k]), v.ax[:k] + v.ax[k + 1:])
        if self.isnum(v):
            return v
        raise Unsup('sum')

    def stack(self, short, args, kw):
        v = args[0]
        if not isinstance(v, (list, tuple)):
            raise Unsup('stack')
        if short in ('bmat', 'block'):
            return Blocks([[x for x in r] for r in v])
        axis = kw.get('axis', args[1] if len(args) > 1 else None)
        ax = 0 if axis is None else self.cint(axis)
        if any(isinstance(x, Blocks) for x in v) and all(isinstance(x, (T, Blocks)) for x in v):
            gs = [x.grid if isinstance(x, Blocks) else [[x]] for x in v]
            if short == 'hstack' or (short == 'concatenate' and ax == 1):
                if len({len(g) for g in gs}) == 1:
                    return Blocks([sum((g[i] for g in gs), []) for i in range(len(gs[0]))])
            elif len({len(g[0]) for g in gs}) == 1:
                return Blocks(sum(gs, []))
            raise Unsup('stack of blocks')
        if all(isinstance(x, T) and len(x.ax) == 1 for x in v):
            return Blocks([list(v)])            # 1d concatenation: one row
        if all(isinstance(x, T) and len(x.ax) == 2 for x in v):
            if short == 'hstack' or (short == 'concatenate' and ax == 1):
                return Blocks([list(v)])
            if short == 'vstack' or (short == 'concatenate' and ax == 0):
                return Blocks([[x] for x in v])
        raise Unsup('stack')

    # ------------------------------------------------------------------ attributes, subscripts
    def attr(self, b, name, f, depth):
        if isinstance(b, T):
            if name == 'T':
                return T(b.v, b.ax[::-1])
            if name == 'shape':
                return tuple(Unk(f'len:{l}') for l in b.ax)
            if name == 'ndim':
                return lift(len(b.ax))
            if name in ('toarray', 'tocsc', 'tocsr', 'copy', 'todense', 'tocoo', 'astype'):
                return ('const', b)
            if name in ('ravel', 'reshape', 'sum', 'transpose', 'dot', 'flatten'):
                return ('tmeth', b, name)
            if name == '__class__':
                return Ext('numpy.ndarray')
            raise Unsup(f'array attribute {name}')
        if isinstance(b, Blocks):
            if name == 'T':
                g = b.grid
                return Blocks([[None if g[i][j] is None else self.attr(g[i][j], 'T', f, depth) for i in range(len(g))]
                               for j in range(len(g[0]))])
            if name in ('toarray', 'tocsc', 'tocsr', 'copy', 'todense', 'tocoo'):
                return ('const', b)
            raise Unsup(f'block attribute {name}')
        return super().attr(b, name, f, depth)

    def call(self, f, args, kw=None, depth=0, node=None):
        if isinstance(f, tuple) and f and f[0] == 'tmeth':
            return self.tmeth(f[1], f[2], args, kw or {})
        if isinstance(f, Unk) and any(isinstance(a, (T, Blocks)) for a in args):
            if self.call_model is not None:
                r = self.call_model(self, f, args, kw or {})
                if r is not None:
                    return r
            raise Unsup(f'open function {f.path} of arrays')
        return super().call(f, args, kw, depth, node)

    def tmeth(self, b, name, args, kw):
        if name in ('ravel', 'flatten'):
            o = kw.get('order', args[0] if args else 'C')
            if len(b.ax) == 1 and b.ax[0].startswith('G:'):
                if o not in ('C', 'F'):
                    raise Unsup('order')
                return T(b.v, (f'{o}:' + b.ax[0][2:],))
            if len(b.ax) <= 1:
                return b
            raise Unsup('ravel')
        if name == 'reshape':
            o = kw.get('order', 'C')
            shape = args[0] if len(args) == 1 and isinstance(args[0], (list, tuple)) else tuple(args)
            if len(b.ax) == 1 and b.ax[0][:2] in ('F:', 'C:'):
                names = b.ax[0][2:].split(',')
                want = [f'len:{n}' for n in names]
                got = [x.path if isinstance(x, Unk) else None for x in shape]
                if b.ax[0][0] != o:
                    raise Mismatch(f'points in {b.ax[0][0]} order are reshaped with order {o}')
                if got == want:
                    return T(b.v, ('G:' + ','.join(names),))
                if None not in got and sorted(got) == sorted(want):
                    raise Mismatch(f'values on the grid {names} are reshaped to {got}')
            if len(b.ax) == 1 and b.ax[0].startswith('G:'):
                return b
            raise Unsup('reshape')
        if name == 'sum':
            return self.sum(b, kw.get('axis', args[0] if args else None))
        if name == 'transpose' and not args:
            return T(b.v, b.ax[::-1])
        if name == 'dot':
            return self.matmul(b, args[0])
        raise Unsup(f'array method {name}')

    def e_Subscript(self, e, env, f, d):
        b = self.expr(e.value, env, f, d)
        if isinstance(b, T):
            return self.tindex(b, e.slice, env, f, d)
        # evaluate the base once more through the generic rule
        hold = f'$b{id(e)}'
        env2 = dict(env)
        env2[hold] = b
        e2 = ast.Subscript(ast.Name(hold, ast.Load()), e.slice, ast.Load())
        return super().e_Subscript(e2, env2, f, d)

    def tindex(self, b, sl, env, f, d):
        parts = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in parts):
            k = [i for i, x in enumerate(parts) if isinstance(x, ast.Constant) and x.value is Ellipsis][0]
            nreal = sum(1 for x in parts if not self.isnew(x, env, f, d)) - 1
            parts[k:k + 1] = [ast.Slice()] * (len(b.ax) - nreal)
        ax = []
        it = iter(b.ax)
        v = b.v
        for p in parts:
            if self.isnew(p, env, f, d):
                ax.append('1')
                continue
            try:
                l = next(it)
            except StopIteration:
                raise Unsup('too many indices')
            if isinstance(p, ast.Slice):
                if p.lower is p.upper is p.step is None:
                    ax.append(l)
                    continue
                lo = 0 if p.lower is None else self.cint(self.expr(p.lower, env, f, d))
                hi = None if p.upper is None else self.cint(self.expr(p.upper, env, f, d))
                if p.step is not None or not (isdof(l) and l.endswith('.*')):
                    raise Unsup('slice of array')
                form = l[:-2]
                n = self.COMPS.get(form)
                if n is None:
                    raise Unsup('slice of unknown basis functions')
                off = [sum(n[:i]) for i in range(len(n) + 1)]
                hi = off[-1] if hi is None else hi
                hi = off[-1] + hi if hi < 0 else hi
                if lo in off and hi in off and off.index(hi) == off.index(lo) + 1:
                    c = off.index(lo)
                    ax.append(f'{form}.{c}')
                    v = self.component(v, form, c)
                elif lo == 0 and hi == off[-1]:
                    ax.append(l)
                elif lo in off and hi in off:
                    raise Unsup('slice over components')
                else:
                    raise Mismatch(f'basis functions {lo}:{hi} of {form} cut through the components {n}')
                continue
            raise Unsup('array index')
        return T(v, tuple(ax) + tuple(it))

    def component(self, v, form, c):
        """the normal form of component c of a value on all basis functions of a form"""
        raise Unsup('component')

    def isnew(self, p, env, f, d):
        if isinstance(p, ast.Constant) and p.value is None:
            return True
        return isinstance(p, ast.Attribute) and p.attr == 'newaxis'

    def iterable(self, v):
        if isinstance(v, T):
            raise Unsup('iteration over array')
        r = super().iterable(v)
        if isinstance(v, (list, tuple, dict)):
            return [lift(x) if type(x) is int else x for x in r]
        return r

    def hkey(self, k):
        if isinstance(k, Unk):
            raise Unsup('open key')
        if isinstance(k, tuple):
            return tuple(self.hkey(x) for x in k)
        return super().hkey(k)

    def kname(self, k):
        return super().kname(lift(k) if type(k) is int else k)

    def cmp(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Unk) and x.args is None and x.path.startswith('len:') and isinstance(y, R) and \
                    y.const() is not None:
                n = 50      # a representative size of a node set
                return super().cmp(op, lift(n) if x is a else a, lift(n) if x is b else b)
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None):
                return isinstance(op, ast.IsNot)
            raise Unsup('comparison of arrays')
        return super().cmp(op, a, b)

    def truth(self, v, text):
        if isinstance(v, (T, Blocks)):
            raise Unsup('truth of array')
        return super().truth(v, text)
