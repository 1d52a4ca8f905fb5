"""Evaluator for the element-wise-cached linear algebra: local matrices are words over opaque non-commuting symbols.

Mx      a local sparse matrix / vector: linear combination of words; mutable (lil assignment), with a storage format
Nd      a local multi-dimensional array with some dimensions contracted with cochains
Sp      a local sparse matrix with a concrete pattern and symbolic entries (for the assembler)
Gl      an assembled matrix: dictionary (i, j) -> sum of entries
NArr    a numpy array of known length with known (or symbolic) entries
Gm      a gathering matrix / form / interpretation, an opaque named thing with a class name and attributes
"""
import ast
from fractions import Fraction as Fr

from . import alg
from .alg import R, lift
from .form import Ev, Unsup, Dead, Fn, Obj, Ext, Unk, Part
from .project import ClassInfo


class PyFn:
    """a callable given by the checker"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<{self.name}>'


class Gm:
    def __init__(self, cname, name, **attrs):
        self.cname, self.name, self.attrs = cname, name, attrs

    def __repr__(self):
        return f'{self.cname}({self.name})'


class NArr(list):
    pass


class PySet(list):
    pass


def fz(nf):
    return tuple(sorted(((w, str(c.key())) for w, c in nf.items() if not c.is_zero()), key=repr))


class Mx:
    def __init__(self, nf, fmt='csr'):
        self.nf = {w: c for w, c in nf.items() if not c.is_zero()}
        self.fmt = fmt

    def key(self):
        return fz(self.nf)

    def __repr__(self):
        return ' + '.join(f"{c.key() if c.const() != 1 else ''}{w}" for w, c in self.nf.items()) or '0'


def mx(atom, fmt='csr'):
    return Mx({(atom,): lift(1)}, fmt)


def madd(a, b, s=1):
    nf = dict(a.nf)
    for w, c in b.nf.items():
        nf[w] = nf.get(w, lift(0)) + (c if s == 1 else -c)
    return Mx(nf, a.fmt)


def mscale(a, c):
    return Mx({w: k * c for w, k in a.nf.items()}, a.fmt)


def mmul(a, b):
    nf = {}
    for w, c in a.nf.items():
        for v, k in b.nf.items():
            nf[w + v] = nf.get(w + v, lift(0)) + c * k
    return Mx(nf, 'csr')


def tr(atom):
    if atom[0] == 'T':
        return atom[1]
    if atom[0] == 'nd':
        return ('nd', atom[1], atom[2], tuple(reversed(atom[3])))
    return ('T', atom)


def mT(a):
    return Mx({tuple(tr(x) for x in reversed(w)): c for w, c in a.nf.items()},
              {'csr': 'csc', 'csc': 'csr'}.get(a.fmt, a.fmt))


class Nd:
    """base array `name` whose dimension i is contracted with vector dims[i] (None: open); out = order of open dimensions"""
    def __init__(self, name, dims, out, c):
        self.name, self.dims, self.out, self.c = name, tuple(dims), tuple(out), c

    def mx(self, fmt):
        return Mx({(('nd', self.name, self.dims, self.out),): self.c}, fmt)

    def key(self):
        return ('nd', self.name, self.dims, self.out, str(self.c.key()))


class Sp:
    def __init__(self, fmt, indptr, indices, data):
        self.fmt, self.indptr, self.indices, self.data = fmt, indptr, indices, data


class Gl:
    def __init__(self, d, shape, fmt):
        self.d, self.shape, self.fmt = d, shape, fmt


class CEv(Ev):
    MAXDEPTH = 40

    def __init__(self, p):
        super().__init__(p)
        self.pylists = True
        self.elements = None
        self.stub_ctor = {}

    # ---------------------------------------------------------------- helpers
    def is_mx(self, v):
        return isinstance(v, (Mx, Nd, Sp, Gl))

    def const(self, v):
        if isinstance(v, R):
            c = v.const()
            if c is not None:
                return int(c) if c == int(c) else c
        if isinstance(v, (int, Fr)):
            return v
        return None

    def pyval(self, v):
        """fully known value -> hashable python value"""
        if isinstance(v, R):
            c = self.const(v)
            return ('n', c) if c is not None else ('r', str(v.key()))
        if isinstance(v, (list, tuple)):
            return ('l',) + tuple(self.pyval(x) for x in v)
        if isinstance(v, (str, bool)) or v is None:
            return v
        if isinstance(v, (Mx, Nd)):
            return v.key()
        if isinstance(v, (Gm, Obj, PyFn, dict)):
            return ('o', id(v))
        if isinstance(v, Unk):
            return ('u', repr(v))
        if isinstance(v, (Ext, ClassInfo)):
            return ('c', v.name.split('.')[-1])
        raise Unsup('value')

    # ---------------------------------------------------------------- operators
    def binop(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return super().binop(op, a, b)
        if isinstance(a, (Mx, Nd)) or isinstance(b, (Mx, Nd)):
            A, B = isinstance(a, Mx), isinstance(b, Mx)
            if isinstance(op, ast.MatMult):
                if A and B:
                    return mmul(a, b)
                raise Unsup('matmul')
            if A and B:
                if isinstance(op, ast.Add):
                    return madd(a, b)
                if isinstance(op, ast.Sub):
                    return madd(a, b, -1)
                if isinstance(op, ast.Mult):        # spmatrix * spmatrix is the matrix product
                    return mmul(a, b)
                raise Unsup('matrix operator')
            m, x = (a, b) if isinstance(a, (Mx, Nd)) else (b, a)
            if isinstance(x, (Mx, Nd)):
                raise Unsup('mixed matrix operator')
            x = self.num(x)
            if isinstance(op, ast.Add) and x.is_zero():
                return m
            if isinstance(op, ast.Mult):
                f = x
            elif isinstance(op, ast.Div) and m is a:
                f = lift(1) / x
            else:
                raise Unsup('matrix operator')
            return mscale(m, f) if isinstance(m, Mx) else Nd(m.name, m.dims, m.out, m.c * f)
        if isinstance(a, Gl) or isinstance(b, Gl):
            if isinstance(op, ast.Add) and isinstance(a, Gl) and isinstance(b, Gl):
                d = dict(a.d)
                for k, v in b.d.items():
                    d[k] = d.get(k, lift(0)) + v
                return Gl(d, a.shape, a.fmt)
            raise Unsup('operator on assembled matrix')
        if isinstance(a, NArr) or isinstance(b, NArr):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if len(a) != len(b):
                    raise Dead()
                return NArr(self.binop(op, x, y) for x, y in zip(a, b))
            if isinstance(a, NArr):
                return NArr(self.binop(op, x, b) for x in a)
            return NArr(self.binop(op, a, y) for y in b)
        if isinstance(a, list) and isinstance(b, list) and isinstance(op, ast.Add):
            return list(a) + list(b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, tuple, str)) and self.const(y) is not None:
                    return x * self.cint(y)
        return super().binop(op, a, b)

    def e_UnaryOp(self, e, env, f, d):
        if isinstance(e.op, ast.USub):
            v = self.expr(e.operand, env, f, d)
            if isinstance(v, Mx):
                return mscale(v, lift(-1))
            if isinstance(v, Nd):
                return Nd(v.name, v.dims, v.out, -v.c)
            if isinstance(v, Obj):
                m = v.cls.find('__neg__')
                if m is None:
                    raise Dead()
                return self.call_fn(Fn(m, v), [], {}, d + 1)
            if isinstance(v, NArr):
                return NArr(-self.num(x) for x in v)
        return super().e_UnaryOp(e, env, f, d)

    # ---------------------------------------------------------------- attributes
    def attr(self, b, name, f, depth):
        if self.attr_model is not None:
            r = self.attr_model(self, b, name)
            if r is not None:
                return r
        if isinstance(b, Gm):
            if name == '__class__':
                return Ext(b.cname)
            if name in b.attrs:
                return b.attrs[name]
            raise Unsup(f'attribute {name} of {b}')
        if isinstance(b, PyFn):
            if name == '__class__':
                return Ext('function')
            raise Unsup(f'attribute {name} of function')
        if isinstance(b, Mx):
            if name == 'T':
                return mT(b)
            if name == '__class__':
                return Ext(f'scipy.sparse.{b.fmt}_matrix')
            if name in ('tolil', 'tocsr', 'tocsc', 'tocoo'):
                return PyFn(name, lambda *a, **k: self.conv(b, name[2:], k))
            if name == 'copy':
                return PyFn(name, lambda *a, **k: Mx(b.nf, b.fmt))
            if name == 'transpose':
                return PyFn(name, lambda *a, **k: mT(b))
            if name == 'shape':
                return (alg.sym('nrows'), alg.sym('ncols'))
            if name == 'dot':
                return PyFn(name, lambda x: self.binop(ast.MatMult(), b, x))
            raise Unsup(f'matrix attribute {name}')
        if isinstance(b, Nd):
            if name == 'ndim':
                return lift(len(b.out))
            if name == '__class__':
                return Ext('numpy.ndarray')
            if name == 'T':
                return Nd(b.name, b.dims, tuple(reversed(b.out)), b.c)
            raise Unsup(f'array attribute {name}')
        if isinstance(b, Sp):
            if name in ('indptr', 'indices', 'data'):
                return NArr(getattr(b, name))
            if name == '__class__':
                return Ext(f'scipy.sparse.{b.fmt}_matrix')
            if name == 'copy':
                return PyFn(name, lambda *a, **k: b)
            raise Unsup(f'local matrix attribute {name}')
        if isinstance(b, NArr):
            if name == '__class__':
                return Ext('numpy.ndarray')
            if name in ('ravel', 'copy', 'flatten', 'astype', 'tolist'):
                return PyFn(name, lambda *a, **k: list(b) if name == 'tolist' else NArr(b))
            if name == 'shape':
                return (lift(len(b)),)
            if name == 'size':
                return lift(len(b))
            if name == 'T':
                return b
            raise Unsup(f'array attribute {name}')
        if isinstance(b, R) and b.const() is not None and name == '__class__':
            return Ext('int' if b.const() == int(b.const()) else 'float')
        if isinstance(b, (Fn, Part)):
            if name == '__class__':
                return Ext('method' if isinstance(b, Fn) and b.self is not None else 'function')
            if name == '__code__' and isinstance(b, Fn):
                return ('code', b)
        if isinstance(b, tuple) and len(b) == 2 and b[0] == 'code' and name == 'co_argcount':
            return lift(len(b[1].f.params))
        if isinstance(b, range) :
            raise Unsup('range attribute')
        if isinstance(b, Obj) and name == '__class__':
            return b.cls
        if isinstance(b, dict) and self.elements is not None and b is self.elements and name == '_mesh_':
            return Gm('Mesh', 'mesh')
        return super().attr(b, name, f, depth)

    def conv(self, b, fmt, k):
        if b.fmt == fmt and not k.get('copy'):
            return b
        return Mx(b.nf, fmt)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw=None, depth=0, node=None):
        if self.call_model is not None:
            r = self.call_model(self, f, args, kw or {})
            if r is not None:
                return r
        if isinstance(f, PyFn):
            return f.fn(*args, **(kw or {}))
        if isinstance(f, Fn) and f.self is not None and isinstance(f.self, Obj) and f.self.cls.name in self.stub_ctor:
            raise Unsup('stubbed class')
        if isinstance(f, ClassInfo) and f.name in self.stub_ctor:
            return self.stub_ctor[f.name](self, args, kw or {})
        return super().call(f, args, kw, depth, node)

    def listmeth(self, f, args):
        _, obj, name = f
        if isinstance(obj, str):
            if name in ('find', 'rfind', 'count') and isinstance(args[0], str):
                return lift(getattr(obj, name)(args[0], *[self.cint(a) for a in args[1:]]))
            if name == 'join':
                return obj.join(args[0])
        if isinstance(obj, PySet):
            if name in ('add', 'update'):
                for x in ([args[0]] if name == 'add' else args[0]):
                    if not any(self.pyval(x) == self.pyval(y) for y in obj):
                        obj.append(x)
                return None
        if isinstance(obj, list):
            if name == 'index':
                for i, x in enumerate(obj):
                    if self.pyval(x) == self.pyval(args[0]):
                        return lift(i)
                raise Dead()
            if name == 'extend':
                obj.extend(self.iterable(args[0]))
                return None
            if name == 'sort':
                obj.sort(key=lambda x: self.cint(x))
                return None
            if name == 'count':
                return lift(sum(1 for x in obj if self.pyval(x) == self.pyval(args[0])))
            if name == 'copy':
                return list(obj)
            if name == 'insert':
                obj.insert(self.cint(args[0]), args[1])
                return None
            if name == 'pop':
                return obj.pop(*[self.cint(a) for a in args])
            if name == 'clear':
                obj.clear()
                return None
        if isinstance(obj, dict):
            if name in ('keys',):
                return [lift(k) if isinstance(k, int) else k for k in obj]
            if name == 'items':
                return [(lift(k) if isinstance(k, int) and not isinstance(k, bool) else k, v) for k, v in obj.items()]
            if name == 'get':
                return obj.get(self.hkey(args[0]), args[1] if len(args) > 1 else None)
            if name == 'setdefault':
                return obj.setdefault(self.hkey(args[0]), args[1] if len(args) > 1 else None)
            if name == 'pop':
                return obj.pop(self.hkey(args[0]))
            if name == 'clear':
                obj.clear()
                return None
            if name == 'update':
                obj.update(args[0])
                return None
            if name == 'copy':
                return dict(obj)
        return super().listmeth(f, args)

    def ext(self, name, args, kw, depth):
        short = name.split('.')[-1]
        a0 = args[0] if args else None
        if name.startswith('mpi4py.'):
            # one process: a collective hands over the only contribution there is
            if short in ('barrier', 'Barrier'):
                return None
            if short in ('bcast', 'allreduce', 'reduce'):
                return a0
            if short in ('gather', 'allgather'):
                return [a0]
            if short in ('scatter', 'alltoall'):
                return a0[0] if short == 'scatter' else a0
            if short in ('Get_rank',):
                return lift(0)
            if short in ('Get_size',):
                return lift(1)
            if short == 'Wtime':
                return lift(0)
            raise Unsup(f'external {name}')
        if short.startswith('isspmatrix_') or short in ('isspmatrix', 'issparse'):
            fmt = a0.fmt if isinstance(a0, (Mx, Sp, Gl)) else None
            return fmt is not None if short in ('isspmatrix', 'issparse') else fmt == short[11:]
        if short in ('csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix', 'csr_array', 'csc_array'):
            fmt = short[:3]
            if isinstance(a0, Nd):
                if len(a0.out) not in (1, 2):
                    raise Dead()
                return a0.mx(fmt)
            if isinstance(a0, Mx):
                return Mx(a0.nf, fmt)
            if isinstance(a0, tuple) and len(a0) == 2 and all(self.isnum(x) for x in a0):
                if kw.get('assembled') or getattr(self, 'assembling', False):
                    return Gl({}, tuple(self.const(x) for x in a0), fmt)
                return mx(('empty', self.pyval(a0)), fmt)
            if isinstance(a0, tuple) and len(a0) == 2 and isinstance(a0[1], tuple):
                dat, (row, col) = a0
                if len(dat) != len(row) or len(dat) != len(col):
                    raise Dead()
                d = {}
                for v, i, j in zip(dat, row, col):
                    k = (self.cint(i), self.cint(j))
                    d[k] = d.get(k, lift(0)) + self.num(v)
                return Gl(d, tuple(self.const(x) for x in kw['shape']), fmt)
            if isinstance(a0, tuple) and len(a0) == 3:
                dat, idx, ptr = a0
                ptr = [self.cint(x) for x in ptr]
                if len(dat) != len(idx) or ptr[-1] != len(dat):
                    raise Dead()
                d = {}
                for j in range(len(ptr) - 1):
                    for q in range(ptr[j], ptr[j + 1]):
                        k = (self.cint(idx[q]), j) if fmt == 'csc' else (j, self.cint(idx[q]))
                        d[k] = d.get(k, lift(0)) + self.num(dat[q])
                return Gl(d, tuple(self.const(x) for x in kw['shape']), fmt)
            raise Unsup('sparse constructor')
        if short in ('identity', 'eye') and 'sparse' in name:
            return mx(('id', self.pyval(a0)), kw.get('format', 'dia'))
        if short == 'inv' and isinstance(a0, Mx):
            return mx(('inv', a0.key()), a0.fmt)
        if short == 'bmat' and isinstance(a0, (list, tuple)):
            g = tuple(tuple(('none',) if x is None else x.key() for x in row) for row in a0)
            return mx(('bmat', g), kw.get('format', 'coo'))
        if short in ('vstack', 'hstack') and isinstance(a0, (list, tuple)) and all(isinstance(x, Mx) for x in a0):
            return mx((short, tuple(x.key() for x in a0)), kw.get('format', 'coo'))
        if short == 'einsum':
            return self.einsum(args)
        if short == 'sum' and isinstance(a0, (list, tuple)):
            r = args[1] if len(args) > 1 else lift(0)
            for x in a0:
                r = self.binop(ast.Add(), r, x)
            return r
        if short in ('array', 'asarray'):
            if isinstance(a0, (list, tuple, range)) and not (a0 and isinstance(a0[0], (list, tuple))):
                return NArr(a0)
            return a0 if isinstance(a0, NArr) else [NArr(x) if isinstance(x, (list, tuple)) else x for x in a0]
        if short == 'concatenate':
            out = NArr()
            for x in a0:
                out.extend(x)
            return out
        if short == 'ones' and self.const(a0) is not None:
            return NArr([lift(1)] * self.cint(a0))
        if short == 'zeros' and self.const(a0) is not None:
            return NArr([lift(0)] * self.cint(a0))
        if short == 'arange' and all(self.const(a) is not None for a in args):
            return NArr(lift(i) for i in range(*[self.cint(a) for a in args]))
        if short == 'diff' and isinstance(a0, list):
            return NArr(self.binop(ast.Sub(), y, x) for x, y in zip(a0, a0[1:]))
        if short in ('min', 'max') and len(args) == 1 and isinstance(a0, (list, tuple)) and a0 and \
                all(self.const(x) is not None for x in a0):
            return lift((min if short == 'min' else max)(self.const(x) for x in a0))
        if short in ('all', 'any') and len(args) == 1 and isinstance(a0, (list, tuple)):
            bs = [self.truth(x, short) for x in a0]
            return all(bs) if short == 'all' else any(bs)
        if short == 'argwhere' and isinstance(a0, NArr):
            return [[lift(i)] for i, x in enumerate(a0) if x is True]
        if short == 'where' and isinstance(a0, NArr) and len(args) == 1:
            return (NArr(lift(i) for i, x in enumerate(a0) if x is True),)
        if short == 'shape' and isinstance(a0, (list, tuple)):
            return (lift(len(a0)),)
        if short == 'ndim' and isinstance(a0, NArr):
            return lift(1)
        if short == 'size' and isinstance(a0, (list, tuple)):
            return lift(len(a0))
        if short == 'set':
            s = PySet()
            for x in self.iterable(a0) if args else []:
                if not any(self.pyval(x) == self.pyval(y) for y in s):
                    s.append(x)
            return s
        if short == 'list' and len(args) == 1:
            return list(self.iterable(a0))
        if short == 'tuple' and len(args) == 1:
            return tuple(self.iterable(a0))
        if short == 'sorted':
            return sorted(self.iterable(a0), key=lambda x: self.cint(x))
        if short == 'int' and self.const(a0) is not None:
            return lift(int(self.const(a0)))
        if short == 'isinstance' and isinstance(a0, (NArr, Gm, PyFn, Mx, Nd, Sp)):
            ts = args[1] if isinstance(args[1], tuple) else (args[1],)
            n = 'ndarray' if isinstance(a0, NArr) else ('FunctionType' if isinstance(a0, PyFn) else getattr(a0, 'cname', '?'))
            return any(getattr(x, 'name', '?').split('.')[-1] == n for x in ts)
        if short == 'isinstance' and isinstance(a0, R) and self.const(a0) is not None:
            ts = args[1] if isinstance(args[1], tuple) else (args[1],)
            n = [getattr(x, 'name', '?').split('.')[-1] for x in ts]
            return ('int' in n or 'integer' in n) if isinstance(self.const(a0), int) else 'float' in n
        if short == 'hasattr':
            return self.hasattr_(a0, args[1])
        if short == 'callable':
            if isinstance(a0, PyFn):
                return True
            if isinstance(a0, (dict, str, Gm, R)) or a0 is None:
                return False
        if short == 'id' and isinstance(a0, (Gm, PyFn)):
            return f'id:{a0!r}'
        if short == 'str' and isinstance(a0, str):
            return a0
        if short == 'dict' and len(args) == 1:
            return dict(a0)
        if short == 'len':
            if isinstance(a0, (NArr, PySet, list, tuple, dict, str, range)):
                return lift(len(a0))
            if isinstance(a0, Obj):
                m = a0.cls.find('__len__')
                if m is not None:
                    return self.call_fn(Fn(m, a0), [], {}, depth + 1)
            if isinstance(a0, Gm):
                return self.attr(a0, '__len__', None, depth)
        if short == 'next' or short == 'iter':
            raise Unsup(short)
        if short == 'enumerate':
            return [(lift(i), v) for i, v in enumerate(self.iterable(a0))]
        if short == 'zip':
            return [tuple(x) for x in zip(*[self.iterable(a) for a in args])]
        return super().ext(name, args, kw, depth)

    def hasattr_(self, v, name):
        if isinstance(v, Gm):
            return name in v.attrs
        if isinstance(v, Obj):
            return name in v.attrs or v.cls.find(name) is not None or bool(v.cls.find_attr(name))
        if isinstance(v, (dict, PyFn, Mx, NArr, list, tuple, str, R)) or v is None:
            return False
        if isinstance(v, Fn):
            return False
        raise Unsup('hasattr')

    def einsum(self, args):
        s = args[0]
        if not isinstance(s, str):
            raise Unsup('einsum string')
        s = s.replace(' ', '')
        if '->' not in s:
            raise Unsup('implicit einsum')
        ins, out = s.split('->')
        ins = ins.split(',')
        ops = args[1:]
        if len(ins) != len(ops):
            raise Dead()
        nds = [i for i, o in enumerate(ops) if isinstance(o, Nd)]
        if len(nds) != 1:
            raise Unsup('einsum of several arrays')
        base = ops[nds[0]]
        lab = ins[nds[0]]
        if len(lab) != len(base.out) or len(set(lab)) != len(lab):
            raise Dead() if len(lab) != len(base.out) else Unsup('einsum diagonal')
        dims = list(base.dims)
        at = dict(zip(lab, base.out))
        c = base.c
        for i, (l, o) in enumerate(zip(ins, ops)):
            if i == nds[0]:
                continue
            if len(l) != 1 or not isinstance(o, Gm):
                raise Unsup('einsum operand')
            if l not in at or l in out:
                raise Unsup('einsum labels')
            if dims[at[l]] is not None:
                raise Unsup('einsum product')
            dims[at[l]] = o.name
        for l in lab:
            if l not in out and dims[at[l]] is None:
                dims[at[l]] = '*sum*'
        for l in out:
            if l not in at:
                raise Dead()
        open_ = tuple(at[l] for l in out)
        if not open_:
            return alg.app('nd', [alg.sym(repr((base.name, tuple(dims))))]) * c
        return Nd(base.name, dims, open_, c)

    # ---------------------------------------------------------------- iteration, subscripts
    def iterable(self, v):
        if isinstance(v, range):
            return [lift(i) for i in v]
        if isinstance(v, dict):
            return [lift(k) if isinstance(k, int) and not isinstance(k, bool) else k for k in v]
        if isinstance(v, Obj):
            m = v.cls.find('__iter__')
            if m is not None:
                return self.gen(Fn(m, v))
        if isinstance(v, Gm) and 'iter' in v.attrs:
            return [lift(k) for k in v.attrs['iter']]
        return super().iterable(v)

    def gen(self, fn):
        """the items of a generator function: the argument of each executed yield"""
        f = fn.f
        if not f.is_gen:
            v = self.call_fn(fn, [], {}, 5)
            return self.iterable(v)
        env = {f.params[0]: fn.self}
        out = []
        old = getattr(self, 'yields', None)
        self.yields = out
        try:
            self.body(f.node.body, env, f, 5)
        except Exception as e:
            if type(e).__name__ != 'Ret':
                raise
        finally:
            self.yields = old
        return out

    def e_Yield(self, e, env, f, d):
        v = self.expr(e.value, env, f, d)
        self.yields.append(v)
        return None

    def e_Subscript(self, e, env, f, d):
        if isinstance(e.slice, (ast.Tuple, ast.Slice)) or True:
            b = self.expr(e.value, env, f, d)
            if isinstance(b, Nd):
                return self.nd_index(b, e.slice, env, f, d)
            if isinstance(b, NArr):
                if isinstance(e.slice, ast.Slice):
                    s = e.slice
                    g = [None if x is None else self.cint(self.expr(x, env, f, d)) for x in (s.lower, s.upper, s.step)]
                    return NArr(list(b)[slice(*g)])
                k = self.expr(e.slice, env, f, d)
                if isinstance(k, list):
                    if any(isinstance(x, bool) for x in k):
                        return NArr(x for x, t in zip(b, k) if t is True)
                    return NArr(b[self.cint(i)] for i in k)
                i = self.cint(k)
                if not -len(b) <= i < len(b):
                    raise Dead()
                return b[i]
            if isinstance(b, Obj) and not isinstance(e.slice, (ast.Slice,)):
                m = b.cls.find('__getitem__')
                if m is not None:
                    return self.call_fn(Fn(m, b), [self.expr(e.slice, env, f, d)], {}, d + 1)
            if isinstance(b, Gm) and 'getitem' in b.attrs:
                return b.attrs['getitem'](self.expr(e.slice, env, f, d))
            if isinstance(b, list) and isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
                raise Unsup('slice of nested list')
        return super().e_Subscript(e, env, f, d)

    def nd_index(self, b, sl, env, f, d):
        xs = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        for x in xs:
            if isinstance(x, ast.Slice) and x.lower is x.upper is x.step is None:
                continue
            if isinstance(x, ast.Constant) and x.value is None or \
                    isinstance(x, (ast.Name, ast.Attribute)) and self.expr(x, env, f, d) is None:
                continue
            raise Unsup('array index')
        return b

    def e_Name(self, e, env, f, d):
        v = super().e_Name(e, env, f, d)
        if isinstance(v, Ext) and v.name.split('.')[-1] == 'newaxis':
            return None
        return v

    def span(self, x, env, f, d):
        if isinstance(x, ast.Slice):
            if x.lower is x.upper is x.step is None:
                return ':'
            raise Unsup('slice store')
        v = self.expr(x, env, f, d)
        return self.pyval(v)

    def assign(self, t, v, env, f, d):
        if isinstance(t, ast.Subscript):
            b = self.expr(t.value, env, f, d)
            if isinstance(b, Mx):
                xs = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                where = tuple(self.span(x, env, f, d) for x in xs)
                b.nf = {(('set', b.key(), where, self.pyval(v)),): lift(1)}
                return
            if isinstance(b, NArr) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                k = self.expr(t.slice, env, f, d)
                if isinstance(k, list):
                    for j, i in enumerate(k):
                        b[self.cint(i)] = v[j] if isinstance(v, list) else v
                else:
                    b[self.cint(k)] = v
                return
            if isinstance(b, Obj):
                m = b.cls.find('__setitem__')
                if m is not None:
                    self.call_fn(Fn(m, b), [self.expr(t.slice, env, f, d), v], {}, d + 1)
                    return
        return super().assign(t, v, env, f, d)

    def s_AugAssign(self, s, env, f, d):
        load = ast.parse(ast.unparse(s.target), mode='eval').body
        cur = self.expr(load, env, f, d)
        v = self.expr(s.value, env, f, d)
        if isinstance(cur, list) and not isinstance(cur, NArr) and isinstance(v, list) and isinstance(s.op, ast.Add):
            cur.extend(v)
            return
        new = self.binop(s.op, cur, v)
        if isinstance(cur, Mx) and isinstance(new, Mx):
            raise Unsup('in-place matrix operator')
        if isinstance(cur, NArr) and isinstance(new, NArr):
            cur[:] = new            # numpy updates in place
            return
        self.assign(s.target, new, env, f, d)

    # ---------------------------------------------------------------- conditions
    def truth(self, v, text):
        if isinstance(v, (Gm, PyFn)):
            return True
        if isinstance(v, Obj):
            m = v.cls.find('__len__')
            if m is not None:
                return self.cint(self.call_fn(Fn(m, v), [], {}, 5)) != 0
            return True
        if isinstance(v, (Mx, Nd, Sp, Gl)):
            raise Unsup('truth of matrix')
        return super().truth(v, text)

    def cmp(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if isinstance(b, Obj):
                m = b.cls.find('__contains__')
                if m is not None:
                    return self.truth(self.call_fn(Fn(m, b), [a], {}, 5), 'in') != neg
            if isinstance(b, Gm) and 'iter' in b.attrs:
                return (self.const(a) in b.attrs['iter']) != neg
            if isinstance(b, (list, tuple)):
                for x in b:
                    if self.cmp(ast.Eq(), a, x) is True:
                        return not neg
                return neg
            if isinstance(b, range):
                return (self.const(a) in b) != neg
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if isinstance(a, (Gm, PyFn, dict, list, Mx)) or isinstance(b, (Gm, PyFn, dict, list, Mx)):
                return (a is b) != neg
            if isinstance(a, bool) or isinstance(b, bool):
                if not isinstance(a, Unk) and not isinstance(b, Unk):
                    return (isinstance(a, bool) and isinstance(b, bool) and a == b) != neg
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if isinstance(a, NArr) and not isinstance(b, list):
                return NArr(self.cmp(op, x, b) for x in a)
            if isinstance(b, NArr) and not isinstance(a, list):
                return NArr(self.cmp(op, a, x) for x in b)
            if isinstance(a, (Gm, PyFn)) or isinstance(b, (Gm, PyFn)):
                same = a is b or (isinstance(a, Gm) and isinstance(b, Gm) and (a.cname, a.name) == (b.cname, b.name))
                return same != neg
            if isinstance(a, Ext) and isinstance(b, str) or isinstance(b, Ext) and isinstance(a, str):
                return neg
            if isinstance(a, dict) or isinstance(b, dict):
                same = a is b or (isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b) == 0)
                if not same and isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b):
                    raise Unsup('dict comparison')
                return same != neg
            if isinstance(a, (Fn, Part)) or isinstance(b, (Fn, Part)):
                return (a is b) != neg
            if isinstance(a, Obj) or isinstance(b, Obj):
                if isinstance(a, Obj) and a.cls.find('__eq__') is not None:
                    r = self.truth(self.call_fn(Fn(a.cls.find('__eq__'), a), [b], {}, 5), '==')
                    return r != neg
                return (a is b) != neg
            if type(a) is list and type(b) is list or type(a) is tuple and type(b) is tuple:
                return (len(a) == len(b) and all(self.cmp(ast.Eq(), x, y) for x, y in zip(a, b))) != neg
            if isinstance(a, (list, tuple)) != isinstance(b, (list, tuple)) and \
                    not isinstance(a, Unk) and not isinstance(b, Unk):
                return neg
            if isinstance(a, str) and isinstance(b, R) or isinstance(b, str) and isinstance(a, R):
                return neg
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (isinstance(a, NArr) or isinstance(b, NArr)):
            if isinstance(a, NArr) and not isinstance(b, NArr):
                return NArr(self.cmp(op, x, b) for x in a)
            if isinstance(b, NArr) and not isinstance(a, NArr):
                return NArr(self.cmp(op, a, x) for x in b)
            raise Unsup('array comparison')
        return super().cmp(op, a, b)

    def e_Compare(self, e, env, f, d):
        left = self.expr(e.left, env, f, d)
        r = True
        for op, x in zip(e.ops, e.comparators):
            right = self.expr(x, env, f, d)
            r = self.cmp(op, left, right)
            if isinstance(r, NArr):
                if len(e.ops) > 1:
                    raise Unsup('array comparison')
                return r
            if not r:
                return False
            left = right
        return r

    def isinst(self, v, t):
        if isinstance(v, (PyFn, Gm, NArr, Mx, Nd)):
            return self.ext('isinstance', [v, t], {}, 0)
        if isinstance(v, Obj):
            ts = t if isinstance(t, tuple) else (t,)
            return any(isinstance(x, ClassInfo) and x in v.cls.mro for x in ts)
        if isinstance(v, range):
            ts = t if isinstance(t, tuple) else (t,)
            return any(getattr(x, 'name', '') == 'range' for x in ts)
        return super().isinst(v, t)

    # asserts must be decided when they can be: customised blocks are refused by an assertion
    def s_For(self, s, env, f, d):
        from .form import Brk, Cont
        it = self.iterable(self.expr(s.iter, env, f, d))
        if len(it) > 512:
            raise Unsup('long loop')
        for v in it:
            self.assign(s.target, v, env, f, d)
            try:
                self.body(s.body, env, f, d)
            except Brk:
                break
            except Cont:
                continue
        else:
            self.body(s.orelse, env, f, d)

    def s_While(self, s, env, f, d):
        from .form import Brk, Cont
        n = 0
        while self.cond(s.test, env, f, d):
            n += 1
            if n > 512:
                raise Unsup('long loop')
            try:
                self.body(s.body, env, f, d)
            except Brk:
                return
            except Cont:
                continue
        self.body(s.orelse, env, f, d)
