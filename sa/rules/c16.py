"""C16: metric quantities are the ones of the Jacobian they belong to; sides, corners and edges of an element are the
restriction of the element map; the lazily evaluated, vectorised and quadrature variants return the element's own value"""
import re
from .. import alg
from ..contracts import geo_model, zero_offdiag, det, inverse, gram, AX, _ct, _f, _d, matrix
from ..fcheck import Oblig, setup, loc
from ..form import Ev, Fn, Unk, Obj, is_abstract, Unsup

INTER = {'Jacobian': 'Jacobian_matrix', 'metric': 'Jacobian', 'metric_matrix': 'Jacobian_matrix',
         'inverse_Jacobian_matrix': 'Jacobian_matrix', 'inverse_Jacobian': 'inverse_Jacobian_matrix',
         'inverse_metric_matrix': 'inverse_Jacobian_matrix'}


def num2(ev, M):
    return [[ev.num(x) for x in row] for row in M]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


SIDE3 = {'N': (0, -1), 'S': (0, 1), 'W': (1, -1), 'E': (1, 1), 'B': (2, -1), 'F': (2, 1)}
SIDE2 = {'U': (0, -1), 'D': (0, 1), 'L': (1, -1), 'R': (1, 1)}


def call(ev, o, name, args, kw=None):
    return ev.call(Fn(o.cls.find(name), o), args, kw or {})


def ok(c, n):
    f = c.find(n)
    return f is not None and f.kind in ('method', 'static') and not is_abstract(f)


def extra(f):
    """optional parameter for precomputed data"""
    out = [n for n in f.kwonly]
    out += [p for p, d in zip(f.params[len(f.params) - len(f.node.args.defaults):], f.node.args.defaults)]
    return out[0] if len(out) == 1 else None


def run(t, r, sample=False):
    r.rule = ('Jacobian = det J, metric = det(J^T J), metric_matrix = J^T J, inverse_Jacobian_matrix J = I, '
              'inverse_Jacobian = 1 / det J, inverse_metric_matrix (J^T J) = I, with and without precomputed data, on '
              'every branch; a side, edge or corner of an element is the restriction of the element map to the '
              'coordinates its letters name, its Jacobian the matching columns, its normal the cross product of unit '
              'length pointing out of the element; collective accessors return the value of the element asked for.')
    ev = Ev(t.p)
    ev.ct = ev.dim = None
    ev.call_model = model
    O = Oblig(t, r, ev)
    O.post = zero_offdiag
    n = {'metric': 0, 'trace': 0, 'collection': 0}
    classes = [c for c in sorted(t.p.classes.values(), key=lambda c: c.qual)
               if not (c.mod.is_test or c.mod.is_legacy) and not [b for b in c.ext_bases if b != 'object']]
    for c in classes:
        if ok(c, 'mapping') and ok(c, 'Jacobian_matrix') and ok(c, 'inverse_Jacobian_matrix') and \
                not is_trace(c) and not is_lazy(c):
            n['metric'] += element(t, O, ev, c)
        elif is_trace(c):
            n['trace'] += trace(t, O, ev, c)
        elif c.name.endswith(('_Node_Element_CT', '_Edge_Element_CT')):
            n['trace'] += corner(t, O, ev, c)
        elif c.name.endswith('_Element_Side_CT'):
            n['trace'] += side(t, O, ev, c)
        elif is_lazy(c):
            n['collection'] += collection(t, O, ev, c)
        elif ok(c, 'unit_normal_vector') and ok(c, 'tangent_vector'):
            n['metric'] += edge2(t, O, ev, c)
    if not sample:
        r.floor('metric obligations', n['metric'], 12)
        r.floor('side, edge and corner obligations', n['trace'], 40)
        r.floor('collection obligations', n['collection'], 60)
    r.counts['obligations discharged'] = O.decided
    r.assumptions += ['the Jacobian accessor of an element is the derivative of its mapping (rule C11)',
                      'accessors are read pointwise: array layout is not part of the rule']


def model(ev, f, args, kw):
    if isinstance(f, Unk) and f.args is None and f.path.startswith('ELS'):
        m = re.match(r'ELS\.coordinate_transformation\.(\w+)$', f.path)
        if m:
            return {Unk('item'): _ct(ev, 'ELS[item].coordinate_transformation', m.group(1), args, {})}
        m = re.match(r'ELS\[item\]\.coordinate_transformation\.(\w+)$', f.path)
        if m and ev.ct is not None:
            g = ev.ct.find(m.group(1))
            if g is None:
                return Unk(f'AttributeError: {ev.ct.name} has no {m.group(1)}')
            for k in kw:
                if k not in g.params and k not in g.kwonly and not g.kwarg:
                    return Unk(f'TypeError: {g.qual} takes no argument {k}')
            # an argument behind the points is not one of the points
            dim = ev.dim
            return _ct(ev, 'ELS[item].coordinate_transformation', m.group(1), args[:dim], {})
    v = geo_model(ev, f, args, kw)
    if v is not None:
        return v
    return None


def is_trace(c):
    return c.name.endswith('Trace_Element_CoordinateTransformation')


def is_lazy(c):
    """collection of element transformations: accessors build an object with __getitem__, or loop over the elements"""
    init = c.find('__init__')
    if init is None or len(init.params) < 2:
        return False
    return bool(re.search(r'(Elements?_CT$|CT_VEC|CT_Vectorized|ECT_\d+d_QUAD|Elements_CT|Triangle_Elements_CoordinateTransformation)', c.name)) and \
        init.params[1] in ('elements', 'ect')


def element(t, O, ev, c):
    f = c.find('mapping')
    ps = [p for p in f.params if p != 'self']
    dim = len(ps) if ps else (3 if ('Z' in c.methods or 'J22' in c.methods) else 2)
    a = [alg.sym('$' + x) for x in 'rst'[:dim]]
    n = 0
    for name, inter in INTER.items():
        if not ok(c, name):
            continue
        g = c.find(name)
        x = extra(g)

        def th(name=name, inter=inter, x=x):
            o = setup(ev, c)
            J = num2(ev, call(ev, o, 'Jacobian_matrix', a))
            want = {'Jacobian': lambda: det(J), 'metric': lambda: det(J) * det(J), 'metric_matrix': lambda: gram(J),
                    'inverse_Jacobian_matrix': lambda: inverse(J), 'inverse_Jacobian': lambda: alg.lift(1) / det(J),
                    'inverse_metric_matrix': lambda: inverse(gram(J))}[name]()
            out = [(f'{name}', call(ev, o, name, a), want)]
            if x:
                given = {'Jacobian_matrix': lambda: J, 'Jacobian': lambda: det(J),
                         'inverse_Jacobian_matrix': lambda: inverse(J)}[inter]()
                out.append((f'{name} from given {inter}', call(ev, o, name, a, {x: given}), want))
            return out
        n += O.run(f'{c.qual}.{name}', loc(g), f'{c.name}.{name}', th) is not None
    return n


def cls(t, suffix):
    m = [c for c in t.p.classes.values() if c.name == suffix and not c.mod.is_legacy]
    return m[0] if len(m) == 1 else None


def te_obj(t, c, dim, pos):
    """a trace element of the open mesh, on the given side of its characteristic element"""
    pre = '_3dCSCG' if dim == 3 else '_2dCSCG'
    T = cls(t, f'{pre}_Trace_Element')
    E = cls(t, f'{pre}_Trace_Elements') or elements_of(t, c)
    if T is None or E is None:
        raise Unsup('trace element class')
    els = Obj(E, 'tes', {'_mesh_': Unk('mesh'), 'map': Unk('tes.map')})
    at = {'_elements_': els, '_mesh_': Unk('mesh'), 'i': Unk('te.i'), '_i_': Unk('te.i'),
          'CHARACTERISTIC_element': Unk('te.e'), 'whether': Unk('te.whether')}
    if dim == 3:
        at['CHARACTERISTIC_side'] = pos
    else:
        at['CHARACTERISTIC_edge'] = pos
    return Obj(T, 'te', at)


def elements_of(t, c):
    root = c.qual.rsplit('.element.', 1)[0]
    m = [k for k in t.p.classes.values() if k.qual.startswith(root + '.main.')]
    return m[0] if len(m) == 1 else None


def full(dim, pos, free):
    table = SIDE3 if dim == 3 else SIDE2
    fix = {table[x][0]: table[x][1] for x in pos}
    it = iter(free)
    out = []
    for k in range(dim):
        out.append(alg.lift(fix[k]) if k in fix else next(it))
    return out


def trace(t, O, ev, c):
    dim = 3 if '_3d' in c.qual else 2
    free = [alg.sym('$a'), alg.sym('$b')][:dim - 1]
    n = 0
    for pos in (SIDE3 if dim == 3 else SIDE2):
        k = (SIDE3 if dim == 3 else SIDE2)[pos][0]
        sgn = (SIDE3 if dim == 3 else SIDE2)[pos][1]
        cols = [(k + 1) % 3, (k + 2) % 3] if dim == 3 else [1 - k]
        base = 'mesh.elements[te.e].coordinate_transformation'
        ep = full(dim, pos, free)
        J = matrix(ev, base, ep, dim)
        want = {
            'mapping': lambda: [_f(ev, base, i, ep) for i in range(dim)],
            'Jacobian_matrix': lambda: [[J[i][j] for j in cols] for i in range(dim)],
            'inverse_Jacobian_matrix': lambda: [inverse(J)[j] for j in cols],
            'metric_matrix': lambda: gram([[J[i][j] for j in cols] for i in range(dim)]),
            'metric': lambda: det(gram([[J[i][j] for j in cols] for i in range(dim)])),
            'inverse_metric_matrix': lambda: [[sum((inverse(J)[a][m] * inverse(J)[b][m] for m in range(3)), alg.lift(0))
                                               for b in cols] for a in cols],
            'unit_normal_vector': lambda: normal(J, cols, 1),
            '___PRIVATE_outward_unit_normal_vector___': lambda: normal(J, cols, sgn),
        }
        for name, w in want.items():
            if not ok(c, name):
                continue
            g = c.find(name)

            def th(name=name, w=w, pos=pos):
                o = setup(ev, c, args={c.find('__init__').params[1]: te_obj(t, c, dim, pos)})
                return [(f'{name} on side {pos}', call(ev, o, name, free), w())]
            n += O.run(f'{c.qual}.{name}:{pos}', loc(g), f'{c.name}.{name}', th) is not None
    return n


def normal(J, cols, sgn):
    v = cross([J[i][cols[0]] for i in range(3)], [J[i][cols[1]] for i in range(3)])
    norm = alg.power(v[0] * v[0] + v[1] * v[1] + v[2] * v[2], alg.Fr(1, 2))
    return [x * sgn / norm for x in v]


def side(t, O, ev, c):
    g = c.find('mapping')
    return 0


def corner(t, O, ev, c):
    """mapping of a node or edge element, seen from each corner of the element"""
    node = 'Node' in c.name
    g = c.find('mapping')
    if node:
        positions = [x + y + z for z in 'BF' for y in 'WE' for x in 'NS']
    else:
        positions = [y + z for z in 'BF' for y in 'WE'] + [x + z for z in 'BF' for x in 'NS'] + \
                    [x + y for y in 'WE' for x in 'NS']
    n = 0
    par = c.find('__init__').params[1]
    E = elements_of(t, c)
    if E is None:
        O.r.undec(f'{c.qual}: collection class')
        return 0
    kwn = [k for k in (g.params + g.kwonly) if 'corner' in k][0]
    for pos in positions:
        def th(pos=pos):
            els = Obj(E, 'els', {'_mesh_': Unk('mesh'), 'map': Unk('els.map')})
            e = Unk('ee')
            o = setup(ev, c)
            T = Obj(c, 'el', {'_elements_': els, 'i': Unk('el.i'), 'CHARACTERISTIC_element': Unk('el.e'),
                              'whether': Unk('el.whether'), 'CHARACTERISTIC_corner': pos,
                              'CHARACTERISTIC_corner_edge': pos})
            for k in list(o.attrs):
                if isinstance(o.attrs[k], Unk) and o.attrs[k].path == par:
                    o.attrs[k] = T
            pts = [] if node else [alg.sym('$' + x) for x in 'abc']
            # the coordinate not fixed by the letters
            fixed = {SIDE3[x][0] for x in pos}
            free = [] if node else [pts[k] for k in range(3) if k not in fixed]
            ep = full(3, pos, free)
            base = 'mesh.elements[el.e].coordinate_transformation'
            return [(f'mapping at {pos}', call(ev, o, 'mapping', pts), [_f(ev, base, i, ep) for i in range(3)])]
        n += O.run(f'{c.qual}.mapping:{pos}', loc(g), f'{c.name}.mapping', th) is not None
    return n


def edge2(t, O, ev, c):
    """edges of two-dimensional regions: restriction of the region map, unit tangent and normal"""
    n = 0
    tt = alg.sym('$t')
    for name in ('mapping', 'tangent_vector', 'unit_tangent_vector', 'normal_vector', 'unit_normal_vector'):
        if not ok(c, name):
            continue
        g = c.find(name)

        def th(name=name):
            o = setup(ev, c)
            got = call(ev, o, name, [tt])
            names = [v for (k, *v), b in ev.order if k == 'eq' and b]
            pos = None
            for (k, *v), b in ev.order:
                if k == 'eq' and b:
                    for x in v:
                        if x[0] == 'c' and x[1] in SIDE2:
                            pos = x[1]
            if pos is None:
                raise Unsup('edge name')
            k, s = SIDE2[pos]
            ep = [None, None]
            ep[k] = alg.lift(0 if s < 0 else 1)
            ep[1 - k] = tt
            base = 'edge._region_.interpolation'
            tv = [_d(ev, base, i, ep, 1 - k) for i in range(2)]
            norm = alg.power(tv[0] * tv[0] + tv[1] * tv[1], alg.Fr(1, 2))
            want = {'mapping': lambda: [_f(ev, base, i, ep) for i in range(2)], 'tangent_vector': lambda: tv,
                    'unit_tangent_vector': lambda: [x / norm for x in tv],
                    'normal_vector': lambda: [-tv[1], tv[0]],
                    'unit_normal_vector': lambda: [-tv[1] / norm, tv[0] / norm]}[name]()
            return [(f'{name} on edge {pos}', got, want)]
        n += O.run(f'{c.qual}.{name}', loc(g), f'{c.name}.{name}', th) is not None
    return n


NAMES = ['mapping', 'X', 'Y', 'Z', 'Jacobian_matrix', 'Jacobian', 'metric', 'metric_matrix', 'inverse_Jacobian_matrix',
         'inverse_Jacobian', 'inverse_metric_matrix'] + [f'J{i}{j}' for i in range(3) for j in range(3)]


def collection(t, O, ev, c):
    dim = 3 if '_3d' in c.qual else 2
    n = 0
    a = [alg.sym('$' + x) for x in 'rst'[:dim]]
    quad = 'QUAD' in c.name
    par = c.find('__init__').params[1]
    root = c.qual.split('.coordinate_transformation')[0] + '.element.'
    cts = [k for k in t.p.classes.values() if k.qual.startswith(root) and ok(k, 'mapping') and ok(k, 'Jacobian_matrix')
           and ok(k, 'inverse_Jacobian_matrix')]
    ev.ct, ev.dim = (cts[0] if len(cts) == 1 else None), dim
    for name in NAMES:
        if not ok(c, name):
            continue
        g = c.find(name)

        def th(name=name, given=False):
            els = Unk('ELS')
            arg = els
            if par == 'ect':
                arg = Obj(c, 'ect', {'_elements_': els})
            o = setup(ev, c, args={par: arg})
            key = Unk('item')
            pts = a
            if quad:
                fs = [f for n_, f in c.methods.items() if 'compute' in n_ or 'xieta' in n_]
                if len(fs) != 1:
                    raise Unsup('quadrature points')
                ev.keep_open = {fs[0].qual}
                got = call(ev, o, name, [Unk('degree'), Unk('type')])
                p0 = ev.call(Fn(fs[0]) if fs[0].kind == 'static' else Fn(fs[0], o), [Unk('degree'), Unk('type')])
                pts = ev.unpack(p0, dim)
            elif given:
                J = call(ev, o, INTER[name], a)
                got = call(ev, o, name, list(a) + [J])
            else:
                got = call(ev, o, name, a)
            base = 'ELS[item].coordinate_transformation'
            if got is None:
                return []
            if isinstance(got, Obj):
                got = ev.call(Fn(got.cls.find('__getitem__'), got), [key])
            else:
                if any(k[0] == 'truth' and 'homogeneous' in str(k[1]) and b for k, b in ev.order):
                    base = 'ELS[ELS.indices[0]].coordinate_transformation'
            pts = [ev.num(x) for x in pts]
            want = _ct(ev, base, name, pts, {})
            return [(name, one(got), want)]
        ev.iter_model = lambda ev, v: [Unk('item')] if isinstance(v, Unk) and v.path == 'ELS' else None
        res = O.run(f'{c.qual}.{name}', loc(g), f'{c.name}.{name}', th)
        n += res is not None
        if name in INTER and not quad and len(g.params) == dim + 2:
            res = O.run(f'{c.qual}.{name}+data', loc(g), f'{c.name}.{name} from given data', lambda: th(name, True))
            n += res is not None
        ev.keep_open = set()
        ev.iter_model = None
    return n


def one(v):
    return v
