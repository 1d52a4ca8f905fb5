"""Form objects for the array evaluator: concrete sizes, open metric, open cochains, two representative mesh elements.

A form is an instance of its real class (its own methods are folded); what is proven elsewhere stays open and is used
through its contract: the geometry of an element (rule C11), the basis functions, the quadrature, the cochain."""
import re
from . import alg
from .alg import lift
from . import contracts
from .tens import TEv, T, Blocks, Mismatch, sigma
from .form import Unk, Obj, Fn, Unsup, Dead, Ext
from .project import ClassInfo
from .fcheck import setup, init_body

OPEN_BASIS = ('evaluate_basis_at_meshgrid', '___PRIVATE_do_evaluate_basis_at_meshgrid___')
OPEN_RM = ('make_reconstruction_matrix_on_grid', '___PRIVATE_make_reconstruction_matrix_on_grid___')
QUADCLS = 'Quadrature'


class Form:
    """what the expectations need to know about a form"""

    def __init__(self, name, ndim, k, orient, obj=None):
        self.name, self.ndim, self.k, self.orient, self.obj = name, ndim, k, orient, obj
        self.ncomp = 1 if k in (0, ndim) else ndim
        self.total = f'{name}.*' if self.ncomp > 1 else f'{name}.0'

    def pullback(self, J):
        """P[a][c]: physical component a of the basis functions of component c"""
        n = self.ndim
        if self.k == 0:
            return [[lift(1)]]
        det = contracts.det(J)
        if self.k == n:
            return [[lift(1) / det]]
        if self.k == 1 and not (n == 2 and self.orient == 'outer'):
            iJ = contracts.inverse(J)
            return [[iJ[c][a] for c in range(n)] for a in range(n)]
        return [[J[a][c] / det for c in range(n)] for a in range(n)]


class Stub:
    """class of an opaque container"""
    name, mro, methods = 'stub', [], {}

    def find(self, n):
        return None

    find_setter = find_attr = find


class FEv(TEv):
    def __init__(self, p, ndim, mark, tri=False):
        super().__init__(p)
        self.ndim, self.tri = ndim, tri
        self.mark = mark                    # list of marks per representative element
        self.forms = {}
        self.open_rm = self.open_rec = False
        self.homog = None
        self.call_model = self._call
        self.attr_model = self._attr
        self.iter_model = self._iter
        self.COMPS = {}
        self.opened = set()
        self.form_classes = ()

    # ------------------------------------------------------------------ metric of element i
    def base(self, i, mapping=False):
        if i is None:
            return 'ct'
        m = self.mark[i]
        return f'ct@{i}' if mapping or not isinstance(m, str) else f'ct[{m}]'

    def jac(self, pts, i):
        """Jacobian matrix of element i at the point values pts"""
        return contracts.matrix(self, self.base(i), pts, self.ndim)

    def geo(self, meth, args, kw, i, vec=False):
        kw = {k: v for k, v in kw.items() if v is not None and k != 'element_range'}
        pts = [self.arr(a) for a in args]
        ax = ()
        from .tens import join_axes
        for p in pts:
            ax = join_axes(ax, p.ax, 'a metric accessor')
        vals = [p.v for p in pts]
        n = self.ndim
        if vec and not self.homog:
            ax = ('e',) + ax
        if meth == 'mapping':
            if vec:
                raise Unsup('vectorized mapping')
            out = tuple(contracts._f(self, self.base(i, True), k, vals) for k in range(n))
            return self.wrap(out, ax)
        J = self.jac(vals, i)
        for k, v in kw.items():
            if v is None:
                continue
            given = self.unwrap(v)
            if k == 'J' or (k == 'itmD' and meth in ('Jacobian', 'inverse_Jacobian_matrix', 'metric', 'metric_matrix')):
                if isinstance(given, (list, tuple)):
                    J = given
                else:
                    raise Unsup('metric keyword')
            elif k == 'iJ' or (k == 'itmD' and meth in ('inverse_Jacobian', 'inverse_metric_matrix')):
                if not isinstance(given, (list, tuple)):
                    raise Unsup('metric keyword')
                if meth == 'inverse_Jacobian':
                    return self.wrap(contracts.det(given), ax)
                if meth == 'inverse_metric_matrix':
                    return self.wrap(contracts.outer(given), ax)
                raise Unsup('metric keyword')
            elif k in ('detJ', 'itmD', 'Jacobian') and meth in ('metric', 'inverse_Jacobian') and \
                    not isinstance(given, (list, tuple)):
                return self.wrap(given * given if meth == 'metric' else lift(1) / given, ax)
            else:
                raise Unsup(f'metric keyword {k}')
        if meth == 'Jacobian_matrix':
            return self.wrap(J, ax)
        if meth == 'Jacobian':
            return self.wrap(contracts.det(J), ax)
        if meth == 'inverse_Jacobian_matrix':
            return self.wrap(contracts.inverse(J), ax)
        if meth == 'inverse_Jacobian':
            return self.wrap(lift(1) / contracts.det(J), ax)
        if meth == 'metric':
            return self.wrap(contracts.det(J) * contracts.det(J), ax)
        if meth == 'metric_matrix':
            return self.wrap(contracts.gram(J), ax)
        if meth == 'inverse_metric_matrix':
            return self.wrap(contracts.outer(contracts.inverse(J)), ax)
        m = re.match(r'J(\d)(\d)$', meth)
        if m:
            return self.wrap(J[int(m.group(1))][int(m.group(2))], ax)
        raise Unsup(f'metric accessor {meth}')

    def wrap(self, v, ax):
        if isinstance(v, (list, tuple)):
            return type(v)(self.wrap(x, ax) for x in v)
        return T(v, ax)

    def unwrap(self, v):
        if isinstance(v, (list, tuple)):
            return [self.unwrap(x) for x in v]
        return self.arr(v).v

    # ------------------------------------------------------------------ models
    def quad(self, degree, typ):
        key = self.degkey(degree)
        tag = f'{key}|{typ}'
        nodes = [T(alg.sym(f'q{i}<{tag}>'), (f'q{i}<{tag}>',)) for i in range(self.ndim)]
        w1 = [T(alg.sym(f'w{i}<{tag}>'), (f'q{i}<{tag}>',)) for i in range(self.ndim)]
        w = T(alg.sym(f'w<{tag}>'), ('F:' + ','.join(n.ax[0] for n in nodes),))
        return nodes, w1, w

    def degkey(self, d):
        if isinstance(d, (list, tuple)):
            return '/'.join(str(self.cint(x)) for x in d)
        raise Unsup('quadrature degree')

    def basis(self, form, nodes):
        F = self.forms[form]
        for a in nodes:
            if not isinstance(a, T) or len(a.ax) != 1:
                raise Unsup('basis at unknown points')
        lab = 'F:' + ','.join(a.ax[0] for a in nodes)
        pts = [T(a.v, (lab,)) for a in nodes]
        b = tuple(self.bas(F, c, [a.v for a in nodes], lab) for c in range(F.ncomp))
        if self.tri and F.ncomp > 1:
            return pts, {i: [T(alg.app(f'b@{i}:{form}.{c}', [a.v for a in nodes]), (f'{form}.{c}', lab))
                             for c in range(F.ncomp)] for i in range(len(self.mark))}
        return pts, b

    def bas(self, F, c, vals, lab):
        return T(alg.app(f'b:{F.name}.{c}', vals), (f'{F.name}.{c}', lab))

    def bval(self, F, c, vals, i):
        if self.tri and F.ncomp > 1:
            return alg.app(f'b@{i}:{F.name}.{c}', vals)
        return alg.app(f'b:{F.name}.{c}', vals)

    def matmul(self, a, b):
        return super().matmul(self.incid(a), self.incid(b))

    def einsum(self, args):
        return super().einsum([args[0]] + [self.incid(a) for a in args[1:]])

    def incid(self, v):
        if isinstance(v, Unk) and v.args is None:
            m = re.match(r'INNER:(\w+):(\w+)\[(\d+)\]$', v.path)
            if m:
                r, c = (self.forms[m.group(k)].total for k in ((1, 2) if self.tri else (2, 1)))
                return T(alg.sym(f'M@{m.group(3)}'), (r, c))
            m = re.match(r'(\w+)\.matrices\.incidence\[(\d+)\]$', v.path)
            if m and 'new' in self.forms:
                F = self.forms[m.group(1)]
                return T(alg.sym(f'E@{m.group(2)}:{F.name}'), (self.forms['new'].total, F.total))
        return v

    def formof(self, b):
        if isinstance(b, Obj):
            if b.path in self.forms:
                return b.path
            for v in b.attrs.values():
                if isinstance(v, Obj) and v.path in self.forms and v.attrs is not None and \
                        v is self.forms[v.path].obj:
                    return v.path
        return None

    def _attr(self, ev, b, name):
        if name == '___Pr_EWC_cache_key___':
            return Unk('ewckey') if isinstance(self.mark[0], str) else 'no_cache'
        if isinstance(b, Obj):
            if b.path in self.forms:
                F = self.forms[b.path]
                if name in ('mesh', '_mesh_'):
                    return Unk('mesh')
                if name in ('space', '_space_'):
                    return Unk('space')
                if name in ('cochain', '_cochain_'):
                    return Unk(f'{b.path}.cochain')
                if name in ('num', '_num_', '_NUM_'):
                    return Unk(f'{b.path}.num')
                if name == 'ndim':
                    return lift(self.ndim)
                if name == 'k':
                    return lift(F.k) if F.k is not None else None
                if name in ('CF', 'func', '_CF_'):
                    return Unk(f'{b.path}.CF')
                if name == 'matrices' and self.open_rm:
                    return Unk(f'{b.path}.matrices')
                if name == 'orientation' and F.orient is not None:
                    return F.orient
                if name in ('p', 'dqp'):
                    return lift(3) if self.tri else [lift(3 + i) for i in range(self.ndim)]
            if name in OPEN_BASIS or (name in OPEN_RM and self.open_rm):
                f = self.formof(b)
                if f is not None:
                    return Unk(f'{f}.{name}')
        if isinstance(b, Obj) and name in ('reconstruct', 'operators') and self.open_rec and b.path in self.forms:
            return Unk(f'{b.path}.{name}')
        if isinstance(b, Unk) and b.args is None and b.path.endswith('.CF') and name == 'ftype':
            return 'standard'
        if isinstance(b, Unk) and b.args is None:
            p = b.path
            m = re.match(r'mesh\.elements\[(\d+)\]\.type_wrt_metric$', p)
            if m and name == 'mark':
                mk = self.mark[int(m.group(1))]
                return mk if isinstance(mk, str) else lift(mk)
            if p == 'space' and name == 'ndim':
                return lift(self.ndim)
            if p.endswith('.elements.whether') and 'homogeneous' in name:
                if not isinstance(self.mark[0], str):
                    return False
                if self.homog is not None:
                    return self.homog
            if (p.endswith('.elements.whether') and name == 'all_orthogonal') or \
                    (p == 'mesh.whether' and name == 'orthogonal'):
                return isinstance(self.mark[0], str) and self.mark[0].startswith('Orth')
            if p == 'space' and name == 'p':
                return lift(3) if self.tri else [lift(3 + i) for i in range(self.ndim)]
            if p == 'mesh.elements' and name == 'indices':
                return [lift(i) for i in range(len(self.mark))]
            m = re.match(r'(\w+)\.num$', p)
            if m and m.group(1) in self.forms:
                n = self.COMPS[m.group(1)]
                if name == 'basis_components':
                    return [lift(x) for x in n]
                if name == 'basis':
                    return lift(sum(n))
            m = re.match(r'(\w+)\.cochain$', p)
            if m and m.group(1) in self.forms:
                F = self.forms[m.group(1)]
                if name == 'array':
                    return T(self.cval(F, None), ('e', F.total))
                if name == 'local':
                    return {i: T(self.cval(F, i), (F.total,)) for i in range(len(self.mark))}
        return None

    def cval(self, F, i, c=None):
        e = '' if i is None else f'@{i}'
        if F.ncomp == 1:
            c = 0
        return alg.sym(f'c{e}:{F.name}.{"*" if c is None else c}')

    def component(self, v, form, c):
        for e in [''] + [f'@{i}' for i in range(len(self.mark))]:
            s = f'c{e}:{form}.*'
            v = alg.subst(v, {s: alg.sym(f'c{e}:{form}.{c}')})
        return v

    def _iter(self, ev, v):
        if isinstance(v, Unk) and v.path in ('mesh.elements', 'mesh.boundaries.involved_elements'):
            return [lift(i) for i in range(len(self.mark))]
        return None

    def _call(self, ev, f, args, kw):
        if isinstance(f, ClassInfo):
            if f in self.form_classes and 'new' not in self.forms:
                return add_form(self, f, 'new', self.ndim).obj
            if f.name == QUADCLS:
                cat = kw.get('category', args[1] if len(args) > 1 else 'Gauss')
                nodes, w1, w = self.quad(args[0], cat)
                g = 'G:' + w.ax[0][2:]
                nd = tuple(T(x.v, (g,)) for x in nodes) + (T(w.v, (g,)),)
                return Obj(f, 'quad', {'quad': (nodes, w1), 'quad_ndim': nd})
            return None
        if isinstance(f, Ext) and f.name.startswith('mpi4py'):
            return None
        if not isinstance(f, Unk) or f.args is not None:
            return None
        p = f.path
        last = p.rsplit('.', 1)[-1]
        if p == 'ewckey':
            m = self.mark[self.cint(args[0])]
            return m if isinstance(m, str) else f'unique{m}'
        if last in OPEN_BASIS:
            self.opened.add('basis')
            return self.basis(p.split('.')[0], args)
        if last in OPEN_RM and p.split('.')[0] in self.forms:
            return self.rm(p.split('.')[0], args)
        if last == 'inner' and p.split('.')[0] in self.forms and args and isinstance(args[0], Obj):
            return Unk(f'INNER:{p.split(".")[0]}:{args[0].path}')
        m = re.match(r'(INNER:\w+:\w+\[\d+\])\.(toarray|todense|tocsr|tocsc)$', p)
        if m:
            return Unk(m.group(1))
        if last == 'reconstruct' and p.split('.')[0] in self.forms:
            return self.rec(p.split('.')[0], args, kw)
        if p in ('space.___PRIVATE_do_evaluate_quadrature___', 'space.evaluation.quadrature'):
            typ = kw.get('quad_type', args[1] if len(args) > 1 else None)
            return tuple(self.quad(args[0], typ or 'Gauss'))
        m = re.match(r'(\w+)\.cochain\.___PRIVATE_local_on_axis___$', p)
        if m and m.group(1) in self.forms:
            F = self.forms[m.group(1)]
            c = 'xyz'.index(args[0])
            return T(self.cval(F, self.cint(args[1]), c), (f'{F.name}.{c}',))
        m = re.match(r'mesh\.elements\[(\d+)\]\.coordinate_transformation\.(\w+)$', p)
        if m:
            return self.geo(m.group(2), args, kw, int(m.group(1)))
        m = re.match(r'mesh\.elements\.coordinate_transformation\.(vectorized\.|QUAD_1d\.)?(\w+)$', p)
        if m:
            if m.group(1) == 'vectorized.':
                return self.geo(m.group(2), args, kw, None, True)
            if m.group(1) == 'QUAD_1d.':
                nodes, _, _ = self.quad(args[0], args[1])
                lab = 'F:' + ','.join(n.ax[0] for n in nodes)
                args = [T(n.v, (lab,)) for n in nodes]
            out = {}
            for i in range(len(self.mark)):
                k = {a: (b[i] if isinstance(b, dict) else b) for a, b in kw.items()}
                out[i] = self.geo(m.group(2), args, k, i)
            return out
        m = re.match(r'(.*CF\..*evaluate_func_at_time(?:___)?)$', p)
        if m:
            return [Unk(f'{p.split(".")[0]}.FUNC[{k}]') for k in range(self.ndim)]
        m = re.match(r'(\w+)\.FUNC\[(\d)\]$', p)
        if m:
            pts = [self.arr(a) for a in args]
            from .tens import join_axes
            ax = ()
            for q in pts:
                ax = join_axes(ax, q.ax, 'a function of the coordinates')
            return T(alg.app(f'{m.group(1)}.F{m.group(2)}', [q.v for q in pts]), ax)
        if last in ('allreduce', 'bcast') and 'COMM' in p:
            return args[0]
        if last == 'gather' and 'COMM' in p:
            return [args[0]]
        return None

    def ext(self, name, args, kw, depth):
        last = name.split('.')[-1]
        if last == 'len' and len(args) == 1 and isinstance(args[0], Unk) and args[0].path == 'mesh.elements':
            return lift(len(self.mark))
        if name.startswith('mpi4py.') and last in ('Get_rank', 'Get_size'):
            return lift(0 if last == 'Get_rank' else 1)
        if name.startswith('mpi4py.') and args:
            # the sum over the processes of what each of them holds: one process stands for all
            if last in ('allreduce', 'bcast', 'reduce'):
                return args[0]
            if last in ('gather', 'allgather'):
                return [args[0]]
        return super().ext(name, args, kw, depth)

    def rm(self, form, args):
        F = self.forms[form]
        lab = 'F:' + ','.join(a.ax[0] for a in args)
        out = {}
        for i in range(len(self.mark)):
            e = self.mark[i] if isinstance(self.mark[i], str) else i
            v = tuple(T(alg.app(f'RM[{e}]:{form}.{a}', [x.v for x in args]), (lab, F.total)) for a in range(F.ncomp))
            out[i] = v if F.ncomp > 1 else v[0]
        return out

    def rec(self, form, args, kw):
        F = self.forms[form]
        lab = 'F:' + ','.join(a.ax[0] for a in args)
        if kw.get('ravel') is not True:
            raise Unsup('reconstruction on a grid')
        vals = [x.v for x in args]
        if kw.get('vectorized') is True:
            return tuple(T(alg.app(f'REC:{form}.{a}', vals), ('e', lab)) for a in range(F.ncomp))
        xyz = {i: [T(contracts._f(self, self.base(i, True), k, vals), (lab,)) for k in range(self.ndim)]
               for i in range(len(self.mark))}
        val = {i: [T(alg.app(f'REC@{i}:{form}.{a}', vals), (lab,)) for a in range(F.ncomp)]
               for i in range(len(self.mark))}
        return xyz, val

    def cmp(self, op, a, b):
        import ast
        if isinstance(a, Unk) and isinstance(b, Unk) and a.args is None and b.args is None:
            x, y = a.path.rsplit('.', 1)[-1], b.path.rsplit('.', 1)[-1]
            if {x, y} == {'RANK', 'MASTER_RANK'}:
                return isinstance(op, ast.Eq)
            if a.path == b.path == 'mesh':
                return isinstance(op, (ast.Eq, ast.Is))
        if isinstance(a, Unk) and a.path == 'ewckey' and isinstance(b, str):
            return isinstance(op, ast.NotEq)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Unk) and b.path == 'mesh.elements':
            return isinstance(op, ast.In)
        return super().cmp(op, a, b)


def add_form(ev, cls, name, ndim, k=None, orient=None):
    """an instance of a form class; k and orientation as its constructor sets them"""
    o = Obj(cls, name)
    F = Form(name, ndim, 0, orient, o)
    init = cls.find('__init__')
    ev.forms[name] = F
    F.k = None
    if init is not None:
        env = {init.params[0]: o}
        for n in init.params[1:]:
            env[n] = Unk(n)
        if init.vararg:
            env[init.vararg] = ()
        if init.kwarg:
            env[init.kwarg] = {}
        init_body(ev, init, env, o)
    kk = o.attrs.get('_k_')
    if kk is not None:
        k = ev.cint(kk)
    ori = o.attrs.get('_orientation_')
    if isinstance(ori, str):
        orient = ori
    F2 = Form(name, ndim, k, orient, o)
    ev.forms[name] = F2
    ev.COMPS[name] = [101 + 10 * i for i in range(F2.ncomp)]
    o.path = name
    return F2
