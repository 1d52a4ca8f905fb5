"""C11: every closed-form Jacobian is the exact derivative of the mapping it belongs to, and every component accessor is
the component of the mapping."""
import re
from .. import alg
from ..contracts import geo_model, zero_offdiag, AX
from ..fcheck import Oblig, setup, loc
from ..form import Ev, Fn, Unk, Obj
from .c16 import is_lazy, is_trace

GEO = re.compile(r'(?:Jacobian_)?([XYZ])([rstpqo])$')


def in_scope(c):
    m = c.mod
    return not (m.is_test or m.is_legacy)


def attr_model(ev, b, name):
    return None


def own(c, names):
    """methods of c that are not abstract"""
    from ..form import is_abstract
    out = {}
    for n in names:
        f = c.find(n)
        if f is not None and f.kind == 'method' and not is_abstract(f):
            out[n] = f
    return out


def method_names(c):
    s = set()
    for k in c.mro:
        s |= set(k.methods)
    return s


def run(t, r, sample=False):
    r.rule = ('For every geometric map (region interpolation, edge and side geometry, boundary curve, mesh element and '
              'trace element transformation) the normal form of each Jacobian entry equals the symbolic derivative of '
              'the normal form of the mapping component, on every branch; component accessors equal the components.')
    ev = Ev(t.p)
    ev.call_model = geo_model
    O = Oblig(t, r, ev)
    O.post = zero_offdiag
    ncls = 0
    jac = comp = 0
    for c in sorted(t.p.classes.values(), key=lambda c: c.qual):
        if not in_scope(c) or any(b for b in c.ext_bases if b not in ('object',)):
            continue
        if is_lazy(c) or is_trace(c):      # restrictions and collections of element maps: rule C16
            continue
        names = method_names(c)
        plan = plans(c, names)
        if not plan:
            continue
        # a base class whose map is abstract has nothing to compare
        done = False
        for kind, key, f, pars, thunk in plan:
            res = O.run(f'{c.qual}.{key}', loc(f), f'{c.name}.{key}', lambda: thunk(ev))
            if res is not None:
                done = True
                if kind == 'jac':
                    jac += 1
                else:
                    comp += 1
        ncls += done
    r.floor('geometric map classes', ncls, 1 if sample else 12)
    r.floor('Jacobian obligations', jac, 1 if sample else 60)
    r.counts['component obligations'] = comp
    r.counts['obligations discharged'] = O.decided
    r.assumptions += [
        'open maps (user supplied functions, the region map seen by an element) satisfy the same rule: their Jacobian '
        'accessor is the derivative of their mapping accessor; proven here for every map the library defines itself',
        'maps whose Jacobian is computed by numerical differentiation are taken as exact',
    ]


def inst(ev, c):
    args = {}
    init = c.find('__init__')
    if init is not None and any(k.name in ('EdgeGeometryBase', 'SideGeometryBase') for k in c.mro) and \
            len(init.params) > 2:
        args[init.params[2]] = Unk('geometry_type')
    return setup(ev, c, args=args)


def syms(ns):
    return [alg.sym('$' + n) for n in ns]


def call(ev, o, name, args):
    m = o.cls.find(name)
    return ev.call(Fn(m, o), args)


def plans(c, names):
    out = []
    from ..form import is_abstract

    def ok(n):
        f = c.find(n)
        return f is not None and f.kind in ('method', 'static') and not is_abstract(f)

    def params(n):
        f = c.find(n)
        ps = list(f.params)
        if f.kind == 'method':
            ps = ps[1:]
        return ps

    # 1. maps with `mapping`
    if ok('mapping') and not c.find('mapping').kwarg:
        f = c.find('mapping')
        va = f.vararg is not None
        ps = params('mapping')
        dims = None
        if va and not ps:
            # evaluation points given as a star argument: the dimension is the one of the components
            dims = 3 if ('Z' in names or 'J22' in names) else (2 if 'J11' in names or 'Jacobian_matrix' in names else None)
            if dims is None:
                return out
            args_n = ['r', 's', 't'][:dims]
        elif not va and ps and all(p in 'rstxyz' or p in ('xi', 'eta', 'sigma') for p in ps):
            args_n = ['r', 's', 't'][:len(ps)]
        else:
            args_n = None
        if args_n and 'Jacobian_matrix' in names and ok('Jacobian_matrix'):
            n = len(args_n)

            def jm(ev, c=c, args_n=args_n):
                o = inst(ev, c)
                a = syms(args_n)
                m = call(ev, o, 'mapping', a)
                J = call(ev, o, 'Jacobian_matrix', a)
                pr = []
                if isinstance(m, Obj):      # a lazily evaluated collection of the element maps
                    return pr
                for i in range(len(args_n)):
                    for j, x in enumerate(args_n):
                        pr.append((f'd{AX[i]}/d{x}', J[i][j], alg.diff(ev.num(m[i]), '$' + x)))
                return pr
            if not numeric(c.find('Jacobian_matrix')):
                out.append(('jac', 'Jacobian_matrix', c.find('Jacobian_matrix'), args_n, jm))
        if args_n:
            n = len(args_n)
            for i in range(n):
                for nm in (f'mapping_{AX[i]}', AX[i], AX[i].lower()):
                    if nm in names and ok(nm) and (params(nm) or c.find(nm).vararg) and \
                            len(params(nm)) in (0, n):
                        def cm(ev, c=c, args_n=args_n, nm=nm, i=i):
                            o = inst(ev, c)
                            a = syms(args_n)
                            return [(f'{nm}=mapping[{i}]', call(ev, o, nm, a), call(ev, o, 'mapping', a)[i])]
                        out.append(('comp', nm, c.find(nm), args_n, cm))
                for j, x in enumerate(args_n):
                    for nm in (f'Jacobian_{AX[i]}{x}', f'J{i}{j}', f'd{AX[i].lower()}_d{x}'):
                        if nm in names and ok(nm) and not numeric(c.find(nm)):
                            def jc(ev, c=c, args_n=args_n, nm=nm, i=i, x=x):
                                o = inst(ev, c)
                                a = syms(args_n)
                                m = call(ev, o, 'mapping', a)[i]
                                return [(f'{nm}=d{AX[i]}/d{x}', call(ev, o, nm, a), alg.diff(ev.num(m), '$' + x))]
                            out.append(('jac', nm, c.find(nm), args_n, jc))
                for nm in (f'Jacobian_{AX[i]}_', f'J{i}_'):
                    if nm in names and ok(nm) and not numeric(c.find(nm)):
                        def jr(ev, c=c, args_n=args_n, nm=nm, i=i):
                            o = inst(ev, c)
                            a = syms(args_n)
                            m = call(ev, o, 'mapping', a)[i]
                            row = call(ev, o, nm, a)
                            return [(f'{nm}[{j}]=d{AX[i]}/d{x}', row[j], alg.diff(ev.num(m), '$' + x))
                                    for j, x in enumerate(args_n)]
                        out.append(('jac', nm, c.find(nm), args_n, jr))
            if 'tangent_vector' in names and ok('tangent_vector'):
                pass
    # 2. curves and surfaces given by components: X / Xo, Xp, Xq
    for ax in AX:
        if ax in names and ok(ax):
            ps = params(ax)
            if not ps or c.find(ax).vararg or not all(p in ('o', 'p', 'q') for p in ps):
                continue
            for x in ps:
                nm = ax + x
                if nm in names and ok(nm):
                    def cu(ev, c=c, ps=tuple(ps), ax=ax, nm=nm, x=x):
                        o = inst(ev, c)
                        a = syms(ps)
                        return [(f'{nm}=d{ax}/d{x}', call(ev, o, nm, a), alg.diff(ev.num(call(ev, o, ax, a)), '$' + x))]
                    out.append(('jac', nm, c.find(nm), ps, cu))
    if 'XY' in names and 'XoYo' in names and ok('XY') and ok('XoYo') and not is_abstract(c.find('X') or c.find('XY')):
        def xy(ev, c=c):
            o = inst(ev, c)
            a = syms(['o'])
            m = call(ev, o, 'XY', a)
            J = call(ev, o, 'XoYo', a)
            return [(f'd{AX[i]}/do', J[i], alg.diff(ev.num(m[i]), '$o')) for i in range(2)]
        out.append(('jac', 'XoYo', c.find('XoYo'), ['o'], xy))
    if '_gamma' in names and '_dgamma' in names and ok('_gamma') and ok('_dgamma'):
        def g(ev, c=c):
            o = inst(ev, c)
            a = syms(['o'])
            m = call(ev, o, '_gamma', a)
            J = call(ev, o, '_dgamma', a)
            return [(f'dgamma[{i}]', J[i], alg.diff(ev.num(m[i]), '$o')) for i in range(2)]
        out.append(('jac', '_dgamma', c.find('_dgamma'), ['o'], g))
    # 3. tangent vectors along an edge
    if 'tangent_vector' in names and 'mapping' in names and ok('tangent_vector') and params('mapping') == ['t']:
        def tv(ev, c=c):
            o = inst(ev, c)
            a = syms(['t'])
            m = call(ev, o, 'mapping', a)
            J = call(ev, o, 'tangent_vector', a)
            return [(f'd{AX[i]}/dt', J[i], alg.diff(ev.num(m[i]), '$t')) for i in range(len(J))]
        out.append(('jac', 'tangent_vector', c.find('tangent_vector'), ['t'], tv))
    return out


def numeric(f):
    """the accessor differentiates numerically"""
    import ast
    return any(isinstance(n, ast.Name) and n.id.startswith('Numerical') for n in ast.walk(f.node))
