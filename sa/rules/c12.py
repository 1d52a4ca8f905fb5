"""C12: operations on continuous fields and function wrappers are the vector calculus operations they are named after."""
import re
from .. import alg
from ..fcheck import Oblig, setup, loc
from ..form import Ev, Fn, Unk, Obj, Unsup, Part, Deriv, NPD, Ext, Dead
from ..project import ClassInfo
from ..alg import lift

FIELD = re.compile(r'^(?:t([23])d(Scalar|Vector|Tensor)|_([23])dCSCG_(Scalar|Vector|Tensor)Field|'
                   r'miUsGrid_Triangular_(Scalar|Vector))$')


def kind(c):
    """(family, dimension, 'Scalar' | 'Vector' | 'Tensor')"""
    m = FIELD.match(c.name)
    if not m:
        return None
    if m.group(1):
        return 'wrapper', int(m.group(1)), m.group(2)
    if m.group(3):
        return 'CSCG', int(m.group(3)), m.group(4)
    return 'tri', 2, m.group(5)


def ncomp(d, k):
    return {'Scalar': 1, 'Vector': d, 'Tensor': d * d}[k]


def opens(ev, tag, d, k):
    fs = [Unk(f'{tag}{i}') for i in range(ncomp(d, k))]
    ev.funcs |= {f.path for f in fs}
    return fs


def nest(d, k, fs):
    if k == 'Tensor':
        return [tuple(fs[i * d:(i + 1) * d]) for i in range(d)]
    return list(fs)


def make(ev, c, fs, tag, ftype='standard'):
    """symbolic instance of a field class over the open functions fs"""
    fam, d, k = kind(c)
    if fam == 'wrapper':
        return ev.construct(c, list(fs), {}, 1)
    func = nest(d, k, fs) if k != 'Scalar' else fs[0]
    return field(ev, c, dict(mesh=Unk('mesh'), func=func, ftype='standard', valid_time=Unk(f'valid_time:{tag}'), name=tag))


def field(ev, c, b):
    args = dict(b)
    args['valid_time'] = None
    o = setup(ev, c, 'field', args)
    o.attrs['$mesh'] = b.get('mesh')
    o.attrs['$vt'] = b.get('valid_time')
    o.attrs['$ftype'] = b.get('ftype')
    o.attrs['$func'] = b.get('func')
    return o


def model(ev, f, args, kw):
    if isinstance(f, ClassInfo):
        k = kind(f)
        if k and k[0] != 'wrapper':
            init = f.find('__init__')
            if init is None:
                return None
            b = {}
            for n, dflt in zip(init.params[len(init.params) - len(init.node.args.defaults):], init.node.args.defaults):
                b[n] = ev.expr(dflt, {}, init, 1)
            b.update(zip(init.params[1:], args))
            b.update(kw)
            return field(ev, f, b)
    if isinstance(f, Fn) and isinstance(f.self, Obj) and kind(f.self.cls) and f.f.name == 'reconstruct':
        ev.rec.append((args, kw))
        return Unk('xyz'), Unk('w')
    if isinstance(f, Unk) and f.args is None and f.path.endswith('.unit_normal_vector'):
        return Unk('n@' + f.path)
    return None


def attrs(ev, b, name):
    if isinstance(b, Obj) and kind(b.cls) and kind(b.cls)[0] != 'wrapper':
        if name == 'mesh':
            return b.attrs.get('$mesh')
        if name == 'valid_time':
            return b.attrs.get('$vt')
        if name == 'ftype' and b.attrs.get('$ftype') is not None:
            return b.attrs['$ftype']
        if name == 'standard_properties':
            return Unk('standard_properties')
        if name == 'func':
            f = b.attrs['$func']
            k = kind(b.cls)
            if isinstance(f, Obj) and kind(f.cls):
                return comps_of(ev, f)
            return [f] if k[2] == 'Scalar' and not isinstance(f, (list, tuple, dict)) else f
    if isinstance(b, Unk) and b.path == '$num' and name == '__class__':
        return Ext('float')
    return None


def comps_of(ev, w):
    """component functions of a wrapper"""
    return [Fld(ev, w, i) for i in range(ncomp(*kind(w.cls)[1:]))]


class Fld:
    def __init__(self, ev, w, i):
        self.ev, self.w, self.i = ev, w, i


def value(ev, o, X):
    """components of a field at the point X"""
    fam, d, k = kind(o.cls)
    if fam == 'wrapper':
        v = ev.call(o, list(X))
        return list(v) if isinstance(v, (list, tuple)) else [v]
    f = ev.attr(o, 'func', None, 1)
    fs = []
    for g in (f if isinstance(f, (list, tuple)) else [f]):
        fs += list(g) if isinstance(g, (list, tuple)) else [g]
    return [ev.call(g, list(X)) for g in fs]


def items(ev, o, X):
    """components of a field at the point X through indexing"""
    n = ncomp(*kind(o.cls)[1:])
    m = o.cls.find('__getitem__')
    return [ev.call(ev.call_fn(Fn(m, o), [lift(i)], {}, 1), list(X)) for i in range(n)]


def D(ev, v, name):
    return alg.diff(ev.num(v), name)


def run(t, r, sample=False):
    r.rule = ('every operation of a continuous field or function wrapper (time derivative, gradient, curl, rot, divergence, '
              'convection, products, sums, trace components), evaluated on open component functions, has the components of '
              'the vector calculus operation of that name, the right rank, the operand\'s mesh and valid time; the numerical '
              'derivative classes differentiate in the variable they are asked for')
    ev = Ev(t.p)
    ev.call_model, ev.attr_model = model, attrs
    ev.rec = []
    ob = Oblig(t, r, ev)
    classes = {}
    for c in t.p.classes.values():
        if kind(c) and not (c.mod.is_test or c.mod.is_legacy):
            classes[kind(c)] = c
    nops = 0
    for (fam, d, k), c in sorted(classes.items()):
        nops += check_class(ev, ob, r, classes, c, fam, d, k)
    r.floor('field operations', nops, 0 if sample else 60)
    n = numerical(t, r)
    r.floor('numerical derivative obligations', n, 0 if sample else 15)
    r.floor('obligations discharged', ob.decided, 0 if sample else 55)
    r.assumptions.append('finite differences are read as exact derivatives (step-size error is not the subject)')


def check_class(ev, ob, r, classes, c, fam, d, k):
    names = ['t', 'x', 'y', 'z'][:d + 1]
    X = [alg.sym(n) for n in names]
    S = names[1:]
    n = 0

    def val(fs):
        return [ev.num(ev.call(f, list(X))) for f in fs]

    def cls(kk):
        return classes.get((fam, d, kk))

    def emit(op, rk, thunk, expect, other=None):
        """thunk(self object, other object) -> result; expect(self comps, other comps) -> components"""
        nonlocal n
        kk = rk
        f = getter.get(op)
        where = loc(f) if f is not None else loc_c(c)
        n += 1
        oc = cls(other) if other and other != 'num' else None
        if other and other != 'num' and oc is None:
            n -= 1
            return

        def run_():
            fs = opens(ev, 'f', d, k)
            o = make(ev, c, fs, 'self')
            oo, go = None, []
            if other == 'num':
                oo = Unk('$num')
                go = [alg.sym('$num')]
            elif oc is not None:
                gs = opens(ev, 'g', d, other)
                oo = make(ev, oc, gs, 'other')
                go = val(gs)
            res = thunk(o, oo)
            if not isinstance(res, Obj) or not kind(res.cls):
                raise Unsup(f'result {res!r}')
            out = [('rank of the result', lift(ncomp(*kind(res.cls)[1:])), lift(ncomp(d, kk))),
                   ('family of the result', lift(int(kind(res.cls)[:2] == (fam, d))), lift(1))]
            out.append(('components', value(ev, res, X), expect(val(fs), go)))
            if fam == 'wrapper' and res.cls.find('__getitem__'):
                out.append(('components by index', items(ev, res, X), expect(val(fs), go)))
            if fam != 'wrapper':
                out.append(('mesh of the result', lift(int(ev.attr(res, 'mesh', None, 1) == Unk('mesh'))), lift(1)))
                vt = ev.attr(res, 'valid_time', None, 1)
                ok = vt == Unk('valid_time:self') or (vt == Unk('valid_time:other') and other not in (None, 'num'))
                out.append(('valid time of the result', lift(int(bool(ok))), lift(1)))
                ft = ev.attr(res, 'ftype', None, 1)
                out.append(('type of the result', lift(int(ft in ('standard', None))), lift(1)))
            # the operand is as it was
            out.append(('operand after the operation', value(ev, o, X), val(fs)))
            return out
        ob.run(f'{c.name}.{op}' + (f'({other})' if other else ''), where, f'{op} of {c.name}', run_)

    def sub(o, *path):
        for p in path:
            o = ev.attr(o, p, None, 1)
        return o

    getter = {}

    def find(op):
        """access path of an operation: directly, through .numerical, through .do"""
        for pre in ((), ('numerical',), ('do',)):
            cc = c
            for p in pre:
                cc = owner(ev, cc, p, c, d, k)
            if cc is None:
                continue
            f = cc.find(op)
            if f is not None and f.kind in ('prop', 'method') and not abstract(f):
                getter[op] = f
                return pre + (op,), f
        return None, None

    def prop(op, rk, expect):
        path, f = find(op)
        if path:
            emit(op, rk, lambda o, oo: sub(o, *path), expect)

    def meth(op, rk, expect, other):
        path, f = find(op)
        if path:
            emit(op, rk, lambda o, oo: ev.call(sub(o, *path), [oo]), expect, other)

    def op2(op, rk, expect, other):
        f = c.find(op)
        if f is not None and not abstract(f):
            getter[op] = f
            emit(op, rk, lambda o, oo: ev.call_fn(Fn(f, o), [oo], {}, 1), expect, other)

    def grad(v):
        return [D(ev, v, s) for s in S]

    prop('time_derivative', k, lambda a, b: [D(ev, x, 't') for x in a])
    f = c.find('__neg__')
    if f is not None and not abstract(f):
        getter['__neg__'] = f
        emit('__neg__', k, lambda o, oo: ev.call_fn(Fn(f, o), [], {}, 1), lambda a, b: [-x for x in a])
    op2('__add__', k, lambda a, b: [x + y for x, y in zip(a, b)], k)
    op2('__sub__', k, lambda a, b: [x - y for x, y in zip(a, b)], k)
    if k == 'Scalar':
        for g in ('gradient', 'grad'):
            prop(g, 'Vector', lambda a, b: grad(a[0]))
        if d == 2:
            prop('curl', 'Vector', lambda a, b: [D(ev, a[0], 'y'), -D(ev, a[0], 'x')])
        meth('cross_product', 'Vector', lambda a, b: [-a[0] * b[1], a[0] * b[0]], 'Vector')
        meth('inner_product', 'Scalar', lambda a, b: [a[0] * b[0]], 'Scalar')
        meth('convection_by', 'Scalar', lambda a, b: [dot(b, grad(a[0]))], 'Vector')
        if fam == 'wrapper':
            op2('__mul__', 'Scalar', lambda a, b: [a[0] * b[0]], 'Scalar')
        else:
            for m in ('__mul__', '__rmul__'):
                op2(m, 'Vector', lambda a, b: [a[0] * y for y in b], 'Vector')
    if k == 'Vector':
        if d == 3:
            for g in ('gradient', 'grad'):
                prop(g, 'Tensor', lambda a, b: [y for x in a for y in grad(x)])
            prop('curl', 'Vector', lambda a, b: curl(ev, a))
            meth('cross_product', 'Vector', lambda a, b: cross(a, b), 'Vector')
        else:
            prop('rot', 'Scalar', lambda a, b: [D(ev, a[1], 'x') - D(ev, a[0], 'y')])
        for g in ('divergence', 'div'):
            prop(g, 'Scalar', lambda a, b: [sum((D(ev, x, s) for x, s in zip(a, S)), lift(0))])
        meth('convection_by', 'Vector', lambda a, b: [dot(b, grad(x)) for x in a], 'Vector')
        for g in ('dot', 'inner_product'):
            meth(g, 'Scalar', lambda a, b: [dot(a, b)], 'Vector')
        if fam != 'wrapper':
            for m in ('__mul__', '__rmul__'):
                op2(m, 'Vector', lambda a, b: [b[0] * y for y in a], 'Scalar')
    if k == 'Tensor':
        for g in ('divergence', 'div'):
            prop(g, 'Vector', lambda a, b: [sum((D(ev, a[i * d + j], S[j]) for j in range(d)), lift(0)) for i in range(d)])
    if fam != 'wrapper':
        for m in ('__mul__', '__rmul__'):
            op2(m, k, lambda a, b: [x * b[0] for x in a], 'num')
        n += times(ev, ob, r, c, d, k, X)
    if fam == 'CSCG' and d == 3 and k == 'Vector':
        n += traces(ev, ob, r, c, X)
    return n


def times(ev, ob, r, c, d, k, X):
    """the functions of an instant are the functions at that time, also after another instant was asked for"""
    f = c.find('___DO_evaluate_func_at_time___') or c.find('evaluate_func_at_time')
    if f is None or abstract(f):
        return 0
    P = X[1:]

    def run_():
        fs = opens(ev, 'f', d, k)
        o = make(ev, c, fs, 'self')
        out = []
        for lab, tt in (('first instant', 3), ('second instant', 5), ('first instant again', 3)):
            tt = lift(tt) / lift(7)
            g = ev.call_fn(Fn(f, o), [tt], {}, 1)
            v = [ev.call(h, list(P)) for h in flatten(g)]
            out.append((lab, v, [ev.num(ev.call(h, [tt] + list(P))) for h in fs]))
        return out
    ob.run(f'{c.name}.evaluate_func_at_time', loc(f), f'functions of an instant of {c.name}', run_)
    return 1


def traces(ev, ob, r, c, X):
    n = 0
    comp = owner(ev, c, 'components', c, 3, 'Vector')
    w = [alg.sym(f'w[i][{j}]') for j in range(3)]
    npath = 'n@mesh.trace.elements[i].coordinate_transformation.unit_normal_vector'
    nn = [alg.sym(f'{npath}[{j}]') for j in range(3)]
    table = {'norm': lambda: [dot(w, nn) * x for x in nn], 'T_perp': lambda: cross(w, nn),
             'T_para': lambda: cross(nn, cross(w, nn)), 'flux': lambda: [dot(w, nn)]}
    ev.iter_model = lambda e, v: [Unk('i')] if isinstance(v, Unk) and (v.path == 'mesh.trace.elements' or
                                                                      'range_of_trace_elements' in v.path) else None
    for op, ex in table.items():
        f = comp.find(op) if comp is not None and op != 'flux' else c.find(op)
        if f is None or f.kind != 'prop':
            continue
        n += 1

        def run_(op=op, ex=ex):
            fs = opens(ev, 'f', 3, 'Vector')
            o = make(ev, c, fs, 'self')
            if op == 'flux':
                o.attrs['___flux_range___'] = 'all'
                res = ev.attr(o, 'flux', None, 1)
            else:
                res = ev.attr(ev.attr(o, 'components', None, 1), op, None, 1)
            g = res.attrs['$func']
            (key, h), = g.items()
            ev.rec.clear()
            v = ev.call(h, [alg.sym(s) for s in ('t', 'xi', 'et', 'sg')])
            val = v[1]
            val = list(val) if isinstance(val, (list, tuple)) else [val]
            (ra, rk), = ev.rec
            tt = rk.get('time')
            return [('value', val, ex()),
                    ('time', ev.num(tt) if tt is not None else lift(0), alg.sym('t')),
                    ('coordinates', [ev.num(q) for q in ra[:3]], [alg.sym(s) for s in ('xi', 'et', 'sg')])]
        ob.run(f'{c.name}.trace.{op}', loc(f), f'{op} of a vector field on a trace element', run_)
    ev.iter_model = None
    return n


def flatten(g):
    if isinstance(g, (list, tuple)):
        out = []
        for x in g:
            out += flatten(x)
        return out
    return [g]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), lift(0))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def curl(ev, a):
    return [D(ev, a[2], 'y') - D(ev, a[1], 'z'), D(ev, a[0], 'z') - D(ev, a[2], 'x'), D(ev, a[1], 'x') - D(ev, a[0], 'y')]


def abstract(f):
    from ..form import is_abstract
    return is_abstract(f)


def loc_c(c):
    return f'{c.mod.rel}:{c.node.lineno}'


_own = {}


def owner(ev, c, name, base, d, k):
    """class of the object behind an accessor of a field"""
    if c is None:
        return None
    key = (ev.p, c.qual, name)
    if key not in _own:
        out = None
        try:
            def th():
                o = make(ev, c, opens(ev, 'f', d, k), 'self')
                return ev.attr(o, name, None, 1)
            for _, v in ev.paths(th):
                if isinstance(v, Obj):
                    out = v.cls
        except Exception:
            out = None
        _own[key] = out
    return _own[key]


# ------------------------------------------------------------------------------------------- numerical derivatives
NUM = re.compile(r'^NumericalPartialDerivative_(t?xyz?)(_Functions)?$')
JAC = re.compile(r'^NumericalJacobian_.*_([123])([123])$')


def numerical(t, r):
    ev = Ev(t.p)
    ev.numderiv = False
    ob = Oblig(t, r, ev)
    n = 0
    for c in t.p.classes.values():
        if c.mod.is_test or c.mod.is_legacy:
            continue
        m = NUM.match(c.name)
        if m:
            names = m.group(1)
            X = [alg.sym(s) for s in names]
            for i, s in enumerate(names):
                n += 1

                def th(i=i, s=s):
                    f = Unk('f')
                    ev.funcs.add('f')
                    want = alg.diff(ev.num(ev.call(f, X)), s)
                    if m.group(2):
                        o = ev.construct(c, [f], {}, 1)
                        g = ev.call(o, [s])
                        return [(f'derivative in {s}', ev.call(g, X), want)]
                    o = ev.construct(c, [f] + X, {}, 1)
                    return [(f'derivative in {s}', ev.call(ev.attr(o, 'scipy_partial', None, 1), [s]), want),
                            (f'total derivative, entry {s}', ev.attr(o, 'scipy_total', None, 1)[i], want)]
                ob.run(f'{c.name}:{s}', loc_c(c), f'numerical derivative in {s}', th)
        m = JAC.match(c.name)
        if m and c.find('scipy_derivative'):
            a, b = int(m.group(2)), int(m.group(1))
            n += 1
            names = 'rst'[:a]
            X = [alg.sym(s) for s in names]

            def th():
                f = Unk('f')
                ev.funcs.add('f')
                o = ev.construct(c, [f], {}, 1)
                J = ev.call(ev.attr(o, 'scipy_derivative', None, 1), X)
                comps = [Unk(f'f#{i}', tuple(X)) for i in range(b)]
                J = flatten(J)
                return [(f'entry {i}', J[i], alg.diff(ev.num(comps[i // a]), names[i % a])) for i in range(a * b)]
            ob.run(f'{c.name}', loc_c(c), 'numerical Jacobian', th)
        if c.name == 'NumericalDerivative_fx':
            n += 1

            def th():
                f = Unk('f')
                ev.funcs.add('f')
                o = ev.construct(c, [f, alg.sym('x')], {}, 1)
                return [('derivative', ev.call(ev.attr(o, 'scipy_derivative', None, 1), []),
                         alg.diff(ev.num(ev.call(f, [alg.sym('x')])), 'x'))]
            ob.run(c.name, loc_c(c), 'numerical derivative', th)
    return n
