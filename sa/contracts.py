"""assume-guarantee contracts of open geometric objects: what a caller may rely on, proven separately by rule C11

an open map M with ndim coordinates is a vector of function symbols M#0, M#1, ...; its component and Jacobian accessors
are the components and their derivatives."""
import re
from . import alg
from .form import Unk, Fn, Obj, Part, Unsup
from .project import ClassInfo

AX = 'XYZ'
RST = 'rst'


def geo_model(ev, f, args, kw):
    """call model for Ev.call_model"""
    if isinstance(f, ClassInfo) and '_gamma' in f.methods and '_dgamma' in f.methods:
        # a boundary curve: proven on its own, open for its users
        ev.ncurve = getattr(ev, 'ncurve', 0) + 1
        return Obj(f, f'curve{ev.ncurve}')
    if isinstance(f, Obj) and '_gamma' in f.cls.methods and f.path.startswith('curve') and not args:
        return Unk(f'{f.path}.gamma'), Unk(f'{f.path}.dgamma')
    if not isinstance(f, Unk) or f.args is not None:
        return None
    return geo_call(ev, f.path, args, kw)


def geo_call(ev, p, args, kw):
    m = re.match(r'(.*\.(?:interpolation|_TFM\w*_))(?:\.(\w+))?$', p)
    if m and not kw:
        base, meth = m.group(1), m.group(2)
        return _map(ev, base, meth or 'mapping', args, 'rst')
    m = re.match(r'(.*coordinate_transformation)\.(\w+)$', p)
    if m:
        return _ct(ev, m.group(1), m.group(2), args, kw)
    m = re.match(r"(.*_side_geometries_\[.*\])\.(\w+)$", p)
    if m:
        return _map(ev, m.group(1), m.group(2), args, 'pq')
    m = re.match(r"(.*(?:edge_geometries_?|_edge_geometries_)\[.*\])\.(\w+)$", p)
    if m:
        return _map(ev, m.group(1), m.group(2), args, 'o')
    m = re.match(r'(.*)\bd(gamma\w*(?:\[\d+\])?)$', p)
    if m:
        b = m.group(1) + m.group(2)
        return tuple(_d(ev, b, k, args, 0) for k in range(2))
    if re.search(r'\bgamma\w*(?:\[\d+\])?$', p):
        return tuple(_f(ev, p, k, args) for k in range(2))
    # user supplied functions of customised geometries: mapping[i] and Jacobian[i][j] (or Jacobian[i] in 1d)
    m = re.match(r'(.*geometry_type)\[1\]\[(\d)\]$', p)
    if m:
        return _f(ev, m.group(1) + '.map', int(m.group(2)), args)
    m = re.match(r'(.*geometry_type)\[2\]\[(\d)\]\[(\d)\]$', p)
    if m:
        return _d(ev, m.group(1) + '.map', int(m.group(2)), args, int(m.group(3)))
    m = re.match(r'(.*geometry_type)\[2\]\[(\d)\]$', p)
    if m:
        return _d(ev, m.group(1) + '.map', int(m.group(2)), args, 0)
    return None


def _f(ev, base, k, args):
    return alg.app(f'{base}#{k}', [ev.num(a) for a in args])


def _d(ev, base, k, args, j):
    idx = [0] * len(args)
    idx[j] = 1
    return alg.app(f'{base}#{k}', [ev.num(a) for a in args], idx)


def _map(ev, base, meth, args, names):
    n = len(args)
    dim = {'rst': n, 'pq': 3, 'o': 2}[names]
    if meth == 'mapping' or meth == 'XY':
        return tuple(_f(ev, base, k, args) for k in range(dim))
    if meth == 'Jacobian_matrix':
        return tuple(tuple(_d(ev, base, k, args, j) for j in range(n)) for k in range(dim))
    if meth == 'XoYo':
        return tuple(_d(ev, base, k, args, 0) for k in range(2))
    m = re.match(r'(?:mapping_)?([XYZ])$', meth) or re.match(r'([xy])$', meth)
    if m:
        return _f(ev, base, AX.index(m.group(1).upper()), args)
    m = re.match(r'(?:Jacobian_)?([XYZ])([rstpqo])$', meth)
    if m and m.group(2) in names:
        return _d(ev, base, AX.index(m.group(1)), args, names.index(m.group(2)))
    m = re.match(r'Jacobian_([XYZ])_$', meth)
    if m:
        return tuple(_d(ev, base, AX.index(m.group(1)), args, j) for j in range(n))
    m = re.match(r'd([xy])_d([rs])$', meth)
    if m:
        return _d(ev, base, 'xy'.index(m.group(1)), args, 'rs'.index(m.group(2)))
    raise Unsup(f'open map method {meth}')


def matrix(ev, base, args, n):
    return [[_d(ev, base, k, args, j) for j in range(n)] for k in range(n)]


def det(J):
    n = len(J)
    if n == 1:
        return J[0][0]
    if n == 2:
        return J[0][0] * J[1][1] - J[0][1] * J[1][0]
    r = alg.lift(0)
    for j in range(n):
        minor = [[row[k] for k in range(n) if k != j] for row in J[1:]]
        r = r + J[0][j] * det(minor) * (1 if j % 2 == 0 else -1)
    return r


def inverse(J):
    n = len(J)
    d = det(J)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[J[a][b] for b in range(n) if b != i] for a in range(n) if a != j]
            c = det(minor) if n > 1 else alg.lift(1)
            out[i][j] = c * (1 if (i + j) % 2 == 0 else -1) / d
    return out


def gram(J):
    """J^T J"""
    return [[sum((J[k][i] * J[k][j] for k in range(len(J))), alg.lift(0)) for j in range(len(J[0]))]
            for i in range(len(J[0]))]


def outer(J):
    """J J^T"""
    return [[sum((J[i][k] * J[j][k] for k in range(len(J[0]))), alg.lift(0)) for j in range(len(J))]
            for i in range(len(J))]


def _ct(ev, base, meth, args, kw):
    """coordinate transformation of an open mesh element"""
    n = len(args)
    kw = {k: v for k, v in kw.items() if v is not None}
    if kw:
        raise Unsup('open coordinate transformation with keywords')
    if meth == 'mapping':
        return tuple(_f(ev, base, k, args) for k in range(n))
    J = matrix(ev, base, args, n)
    if meth == 'Jacobian_matrix':
        return J
    if meth == 'Jacobian':
        return det(J)
    if meth == 'inverse_Jacobian_matrix':
        return inverse(J)
    if meth == 'inverse_Jacobian':
        return alg.lift(1) / det(J)
    if meth == 'metric':
        return det(J) * det(J)
    if meth == 'metric_matrix':
        return gram(J)
    if meth == 'inverse_metric_matrix':
        return outer(inverse(J))
    m = re.match(r'J(\d)(\d)$', meth)
    if m:
        return J[int(m.group(1))][int(m.group(2))]
    if meth in 'XYZ':
        return _f(ev, base, AX.index(meth), args)
    return None


def zero_offdiag(cond, v):
    """under the condition that the element is orthogonal, the open map has a diagonal Jacobian"""
    if not any(k[0] == 'eq' and b and ('c', 'Orth') in k for k, b in cond):
        return v

    def P_(p):
        q = alg.P()
        for m, c in p.items():
            for k, e in m:
                key = alg.INFO[k]
                if key[0] == 'app' and '#' in key[1] and any(key[3]):
                    comp = int(key[1].rsplit('#', 1)[1])
                    if any(n and j != comp for j, n in enumerate(key[3])):
                        break
            else:
                q[m] = c
        return q
    return alg.R(P_(v.n), v.d)
