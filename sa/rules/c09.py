"""C09: element-wise cached matrices and vectors, evaluated over opaque local matrices."""
import ast
import itertools

from .. import alg
from ..alg import lift
from ..form import Unsup, Dead, Fn, Obj, NoFork, Unk
from ..ewc import CEv, PyFn, Gm, NArr, Mx, Nd, Sp, Gl, mx, madd, mscale, mmul, mT

FAILS = (Unsup, Dead, NoFork, alg.TooBig, TypeError, AttributeError, KeyError, IndexError, ValueError,
         RecursionError, ZeroDivisionError)
ELS = (0, 1, 2)
PAT = {                                  # element -> identity of the value; None: a new value at every call
    'constant': {0: 'c', 1: 'c', 2: 'c'},
    'uncached': None,
    'type01': {0: 'p', 1: 'p', 2: 'q'},
    'type12': {0: 'p', 1: 'q', 2: 'q'},
    'alldiff': {0: 'x', 1: 'y', 2: 'z'},
}
ADD, SUB, MUL, DIV, MM = ast.Add(), ast.Sub(), ast.Mult(), ast.Div(), ast.MatMult()


def cls_named(p, name):
    cs = [c for c in p.classes.values() if c.name == name and c.mod.name.startswith(('tools', 'BAD', 'GOOD'))]
    return cs[0] if len(cs) == 1 else None


def func_named(p, name, part):
    fs = [f for f in p.funcs.values() if f.name == name and f.cls is None and f.outer is None and part in f.mod.name]
    return fs[0] if len(fs) == 1 else None


def loc(f):
    return f'{f.mod.rel}:{f.node.lineno}'


class World:
    """one evaluator with three local elements"""
    def __init__(self, p, rule):
        self.ev = ev = CEv(p)
        self.rule = rule
        ev.elements = {e: Gm('Element', f'el{e}') for e in ELS}
        self.els = ev.elements
        self.epoch = 0
        ev.attr_model = self.attr
        ev.stub_ctor = {'Chain_Gathering_Matrix': self.cgm, 'iR_Chain_Gathering_Matrix': self.cgm,
                        'GatheringMatrixChaining': self.chain}
        self.M, self.V, self.D = rule.M, rule.V, rule.D

    def attr(self, ev, b, name):
        return None

    def flat(self, gms):
        out = []
        for g in (gms if isinstance(gms, (list, tuple)) else [gms]):
            if isinstance(g, Gm) and 'GMs' in g.attrs and 'Chain' in g.cname:
                out += g.attrs['GMs']
            elif isinstance(g, Gm) and 'numbering' in g.attrs:
                out.append(g.attrs['numbering'].attrs['gathering'])
            else:
                out.append(g)
        return out

    def cgm(self, ev, args, kw):
        return self.mk_cgm(self.flat(args[0]))

    def chain(self, ev, args, kw):
        g = self.flat(args)
        return PyFn('chain', lambda *a, **k: self.mk_cgm(g))

    def mk_cgm(self, gms):
        sizes = [g.attrs['n'] for g in gms]
        starts = [sum(sizes[:i]) for i in range(len(sizes))]
        return Gm('Chain_Gathering_Matrix', '+'.join(g.name for g in gms), GMs=list(gms), chain_method='silly',
                  **{'___Pr_IS_regular___': True, 'num_GMs': lift(len(gms)), 'mesh_type': 'm',
                     '___Pr_regular__local_dofs_ranges___': [Gm('range', f'r{i}', start=lift(s), stop=lift(s + n))
                                                             for i, (s, n) in enumerate(zip(starts, sizes))]})

    def gm(self, name, n=4, cname='Gathering_Matrix'):
        return Gm(cname, name, n=n, stamp=name, mesh_type='m', global_shape=(lift(3), lift(n)))

    def val(self, name, pat, e, vec=False):
        d = PAT[pat]
        atom = (name, d[e]) if d is not None else (name, e, self.epoch)
        return mx(atom, 'csc' if vec else 'csr')

    def operand(self, name, pat, vec=False):
        dg = PyFn(f'DG_{name}', lambda e, *a: self.val(name, pat, self.ev.cint(e), vec))
        d = PAT[pat]
        if pat == 'uncached':
            kg = 'no_cache'
        elif pat == 'constant' and not vec:
            kg = 'constant'
        elif pat == 'constant':
            kg = PyFn('KG', lambda e: self.rule.CT)
        elif pat == 'alldiff' and not vec:
            kg = 'all_diff'
        else:
            kg = PyFn(f'KG_{name}', lambda e: f'{name}.{d[self.ev.cint(e)]};')
        return self.ev.construct(self.V if vec else self.M, [self.els, dg, kg], {}, 5)

    def get(self, obj, e):
        m = obj.cls.find('__getitem__')
        return self.ev.call_fn(Fn(m, obj), [lift(e)], {}, 5)

    def do(self, obj, name, *args, **kw):
        return self.ev.call(self.ev.attr(obj, name, None, 0), list(args), kw)


class Rule:
    def __init__(self, t, r):
        self.t, self.r, self.p = t, r, t.p
        self.M = cls_named(self.p, 'EWC_SparseMatrix')
        self.V = cls_named(self.p, 'EWC_ColumnVector')
        self.D = cls_named(self.p, 'MultiDimMatrix')
        self.CT = '>CT<'

    def case(self, key, where, what, thunk):
        """thunk(world) -> list of (label, got, want); got/want comparable through repr of normal form"""
        r = self.r
        w = World(self.p, self)
        try:
            paths = w.ev.paths(lambda: thunk(w))
        except FAILS as e:
            r.undec(f'{key}: {type(e).__name__} {str(e)[:150]}')
            return
        if not paths:
            r.violation(key, where, f'{what}: every path raises an exception')
            r.count('instances')
            return
        ok = True
        for cond, res in paths:
            for label, g, want in res:
                r.count('values compared')
                k = self.norm(w, g)
                kw = self.norm(w, want)
                if k != kw:
                    if cond and not all(isinstance(c, tuple) for c in cond):
                        continue
                    r.violation(key, where, f'{what}, {label}: gives {str(k)[:200]} instead of {str(kw)[:200]}')
                    ok = False
                    break
        if ok:
            r.count('instances')
            r.sample(f'{key} ({where})')

    def norm(self, w, v):
        if isinstance(v, Mx):
            return ('M', v.key())
        if isinstance(v, Nd):
            return v.key()
        if isinstance(v, Gl):
            return ('G', tuple(sorted((k, str(c.key())) for k, c in v.d.items() if not c.is_zero())), v.shape)
        if isinstance(v, Gm):
            if 'GMs' in v.attrs:
                return ('GM', tuple(g.name for g in v.attrs['GMs']))
            return ('GM', (v.name,))
        if isinstance(v, (list, tuple)):
            return tuple(self.norm(w, x) for x in v)
        if isinstance(v, alg.R):
            c = w.ev.const(v)
            return ('n', c) if c is not None else ('r', str(v.key()))
        if isinstance(v, (str, bool)) or v is None:
            return v
        if isinstance(v, Obj):
            return ('obj', id(v))
        if isinstance(v, Unk):
            raise Unsup('open value')
        raise Unsup(f'value {type(v).__name__}')


def sweep(w, obj, want):
    """read every element twice, uncached operands changing in between, in two orders"""
    out = []
    for ep, order in ((0, (0, 1, 2)), (1, (2, 0, 1))):
        w.epoch = ep
        for e in order:
            out.append((f'element {e} (pass {ep})', w.get(obj, e), want(e)))
    return out


C = alg.sym('c')


def unary(w):
    ev = w.ev
    two = lift(2)
    return {
        '-A': (lambda a: ev.call_fn(Fn(a.cls.find('__neg__'), a), [], {}, 5), lambda m: mscale(m, lift(-1))),
        'A*c': (lambda a: ev.binop(MUL, a, two), lambda m: mscale(m, two)),
        'c*A': (lambda a: ev.binop(MUL, two, a), lambda m: mscale(m, two)),
    }, {
        'A/c': (lambda a: ev.binop(DIV, a, two), lambda m: mscale(m, lift(1) / two)),
        'A.T': (lambda a: ev.attr(a, 'T', None, 0), mT),
        'A.inv': (lambda a: ev.attr(a, 'inv', None, 0), lambda m: mx(('inv', m.key()))),
    }


BIN = {'A+B': (ADD, madd), 'A-B': (SUB, lambda x, y: madd(x, y, -1)), 'A@B': (MM, mmul)}


def meth_loc(c, *names):
    for n in names:
        m = c.find(n)
        if m is not None:
            return loc(m)
    return f'{c.mod.rel}:{c.node.lineno}'


DN = {'-A': '__neg__', 'A*c': '__mul__', 'c*A': '__rmul__', 'A/c': '__truediv__', 'A.T': 'T', 'A.inv': 'inv',
      'A+B': '__add__', 'A-B': '__sub__', 'A@B': '__matmul__'}


def operators(ru):
    M, V = ru.M, ru.V
    w0 = World(ru.p, ru)
    um, um2 = unary(w0)
    for pat in PAT:
        for vec in (False, True):
            cl = V if vec else M
            names = list(um) + ([] if vec else list(um2))
            for n in names:
                def th(w, n=n, pat=pat, vec=vec):
                    a, b = unary(w)
                    op, want = {**a, **b}[n]
                    x = op(w.operand('A', pat, vec))
                    return sweep(w, x, lambda e: want(w.val('A', pat, e, vec)))
                ru.case(f'{cl.name}:{n}:{pat}', meth_loc(cl, DN[n]), f'{n} of an element-wise object, operand {pat}', th)

                def thc(w, n=n, pat=pat, vec=vec):
                    a, b = unary(w)
                    op, want = {**a, **b}[n]
                    A = w.operand('A', pat, vec)
                    custom(w, A, vec)
                    x = op(A)
                    return sweep(w, x, lambda e: want(cval(w, w.val('A', pat, e, vec), e, vec)))
                ru.case(f'{cl.name}:{n}:{pat}:customized', meth_loc(cl, DN[n]),
                        f'{n} of an element-wise object customized on element 1, operand {pat}', thc)

            def th0(w, pat=pat, vec=vec):
                return sweep(w, w.operand('A', pat, vec), lambda e: w.val('A', pat, e, vec))
            ru.case(f'{cl.name}:A:{pat}', meth_loc(cl, '__getitem__'), f'reading an element-wise object, {pat}', th0)

            def th1(w, pat=pat, vec=vec):
                A = w.operand('A', pat, vec)
                out = sweep(w, A, lambda e: w.val('A', pat, e, vec))
                custom(w, A, vec)
                out += sweep(w, A, lambda e: cval(w, w.val('A', pat, e, vec), e, vec))
                w.do(w.ev.attr(A, 'customize', None, 0), 'clear')
                return out + sweep(w, A, lambda e: w.val('A', pat, e, vec))
            ru.case(f'{cl.name}:A:{pat}:customized', meth_loc(cl, '__getitem__'),
                    f'reading before and after customizing, {pat}', th1)
    for p1, p2 in itertools.product(PAT, PAT):
        for vec in (False, True):
            cl = V if vec else M
            for n, (op, want) in BIN.items():
                if vec and n == 'A@B':
                    continue
                for cus in (None, 'A', 'B'):
                    if cus and not (p1 == p2 or 'constant' in (p1, p2)):
                        continue

                    def th(w, op=op, want=want, p1=p1, p2=p2, vec=vec, cus=cus):
                        A, B = w.operand('A', p1, vec), w.operand('B', p2, vec)
                        if cus:
                            custom(w, A if cus == 'A' else B, vec)
                        f = lambda nm, pt, e: (cval(w, w.val(nm, pt, e, vec), e, vec) if cus == nm else w.val(nm, pt, e, vec))
                        return sweep(w, w.ev.binop(op, A, B), lambda e: want(f('A', p1, e), f('B', p2, e)))
                    ru.case(f'{cl.name}:{n}:{p1}:{p2}' + (f':customized {cus}' if cus else ''), meth_loc(cl, DN[n]),
                            f'{n} of element-wise objects, operands {p1} and {p2}' +
                            (f', {cus} customized on element 1' if cus else ''), th)

            def ths(w, p1=p1, p2=p2, vec=vec):
                A, B, D = w.operand('A', p1, vec), w.operand('B', p2, vec), w.operand('D', 'type12', vec)
                x = w.do(A, '___PRIVATE_sum___', [B, D])
                return sweep(w, x, lambda e: madd(madd(w.val('A', p1, e, vec), w.val('B', p2, e, vec)),
                                                  w.val('D', 'type12', e, vec)))
            if cl.find('___PRIVATE_sum___') is not None:
                ru.case(f'{cl.name}:sum:{p1}:{p2}', meth_loc(cl, '___PRIVATE_sum___'),
                        f'sum of element-wise objects, operands {p1}, {p2}, type12', ths)

        def thv(w, p1=p1, p2=p2):
            A, v = w.operand('A', p1), w.operand('v', p2, True)
            return sweep(w, w.ev.binop(MM, A, v), lambda e: mmul(w.val('A', p1, e), w.val('v', p2, e, True)))
        ru.case(f'matvec:{p1}:{p2}', meth_loc(M, '__matmul__'), f'A@v, operands {p1} and {p2}', thv)

        def th2(w, p1=p1, p2=p2):
            A, B = w.operand('A', p1), w.operand('B', p2)
            v = w.operand('v', 'type01', True)
            ev = w.ev
            x = ev.binop(SUB, ev.attr(ev.binop(MM, A, B), 'T', None, 0), ev.binop(MUL, B, lift(3)))
            y = ev.binop(ADD, ev.binop(MM, ev.binop(ADD, A, B), v), v)
            f = lambda e: (w.val('A', p1, e), w.val('B', p2, e), w.val('v', 'type01', e, True))

            def wx(e):
                a, b, _ = f(e)
                return madd(mT(mmul(a, b)), mscale(b, lift(3)), -1)

            def wy(e):
                a, b, c = f(e)
                return madd(mmul(madd(a, b), c), c)
            return sweep(w, x, wx) + sweep(w, y, wy)
        ru.case(f'nested:{p1}:{p2}', meth_loc(M, '__matmul__'), f'(A@B).T - 3*B and (A+B)@v + v, operands {p1} and {p2}', th2)


def custom(w, A, vec):
    """customize one row of element 1 the way the customize methods do"""
    c = w.ev.attr(A, 'customize', None, 0)
    cu = c.attrs['___customizations___']
    cu[1] = [('slet', (lift(2), lift(9)))] if vec else [('clr', lift(2))]


def setat(m, where, v):
    return mx(('set', m.key(), where, v), 'lil')


def cval(w, m, e, vec):
    if e != 1:
        return m
    if vec:
        return setat(m, (('l', ('n', 2)), ('n', 0)), ('l', ('n', 9)))
    return setat(m, (('n', 2), ':'), ('n', 0))


def block_ops(ru):
    bm = func_named(ru.p, 'bmat', 'operators.bmat')
    cc = func_named(ru.p, 'concatenate', 'operators.concatenate')
    if bm is not None:
        for p1, p2 in itertools.product(PAT, PAT):
            for lay in ([['A', 'B'], [None, 'D']], [['A', None], ['B', 'A']], [['B']], [['A', 'B']], [[None, 'A', 'B']]):
                def th(w, p1=p1, p2=p2, lay=lay):
                    ops = {'A': w.operand('A', p1), 'B': w.operand('B', p2), 'D': w.operand('D', 'constant')}
                    pt = {'A': p1, 'B': p2, 'D': 'constant'}
                    x = w.ev.call_fn(Fn(bm), [[[ops.get(n) for n in row] for row in lay]], {}, 5)
                    return sweep(w, x, lambda e: mx(('bmat', tuple(tuple(
                        ('none',) if n is None else w.val(n, pt[n], e).key() for n in row) for row in lay))))
                ru.case(f'bmat:{lay}:{p1}:{p2}', loc(bm), f'bmat of {lay}, A {p1}, B {p2}', th)

        def thb(w):
            g = [w.gm(f'R{i}', 4 + i) for i in range(2)]
            h = [w.gm(f'C{i}', 7 + i) for i in range(2)]
            def blk(n, i, j):
                a = w.operand(n, 'type01')
                w.ev.assign_attr(a, 'gathering_matrices', (w.mk_cgm([g[i]]), w.mk_cgm([h[j]])))
                return a
            A, B, D = blk('A', 0, 0), blk('B', 0, 1), blk('D', 1, 1)
            x = w.ev.call_fn(Fn(bm), [[[A, B], [None, D]]], {}, 5)
            gms = w.ev.attr(x, 'gathering_matrices', None, 0)
            out = [('row gathering', gms[0], w.mk_cgm(g)), ('column gathering', gms[1], w.mk_cgm(h))]
            return out
        ru.case('bmat:gathering', loc(bm), 'gathering matrices of a bmat', thb)
    if cc is not None:
        for p1, p2 in itertools.product(PAT, PAT):
            for lay in (['A', 'B'], ['B', 'A', 'A'], ['A']):
                def th(w, p1=p1, p2=p2, lay=lay):
                    ops = {'A': w.operand('A', p1, True), 'B': w.operand('B', p2, True)}
                    pt = {'A': p1, 'B': p2}
                    x = w.ev.call_fn(Fn(cc), [[ops[n] for n in lay]], {}, 5)
                    return sweep(w, x, lambda e: mx(('vstack', tuple(w.val(n, pt[n], e, True).key() for n in lay))))
                ru.case(f'concatenate:{lay}:{p1}:{p2}', loc(cc), f'concatenation of {lay}, A {p1}, B {p2}', th)

        def thg(w):
            g = [w.gm(f'R{i}', 4 + i) for i in range(2)]
            vs = []
            for i in range(2):
                v = w.operand(f'v{i}', 'type01', True)
                w.ev.assign_attr(v, 'gathering_matrix', w.mk_cgm([g[i]]))
                vs.append(v)
            x = w.ev.call_fn(Fn(cc), [vs], {}, 5)
            return [('gathering', w.ev.attr(x, 'gathering_matrix', None, 0), w.mk_cgm(g))]
        ru.case('concatenate:gathering', loc(cc), 'gathering matrix of a concatenation', thg)


def gathering(ru):
    M, V = ru.M, ru.V
    w0 = World(ru.p, ru)
    a, b = unary(w0)
    for n in list(a) + list(b):
        if n == 'A.inv':
            continue
        for vec in (False, True):
            if vec and n in b:
                continue

            def th(w, n=n, vec=vec):
                x, y = unary(w)
                op = {**x, **y}[n][0]
                A = w.operand('A', 'type01', vec)
                G, H = w.mk_cgm([w.gm('G')]), w.mk_cgm([w.gm('H')])
                if vec:
                    w.ev.assign_attr(A, 'gathering_matrix', G)
                    return [('gathering', w.ev.attr(op(A), 'gathering_matrix', None, 0), G)]
                w.ev.assign_attr(A, 'gathering_matrices', (G, H))
                got = w.ev.attr(op(A), 'gathering_matrices', None, 0)
                return [('gathering', got, (H, G) if n == 'A.T' else (G, H))]
            ru.case(f'gathering:{(V if vec else M).name}:{n}', meth_loc(V if vec else M, DN[n]),
                    f'gathering of {n}', th)
    kinds = {
        'chain': lambda w, n: w.mk_cgm([w.gm(n)]),
        'form': lambda w, n: Gm('_2dCSCG_1Form', n, numbering=Gm('Numbering', n, gathering=w.gm(n))),
        'dual form': lambda w, n: Gm('_3dCSCG_T_ADF', 'ad' + n, **{'___IS_ADF___': True}, prime=Gm(
            '_3dCSCG_Trace', n, numbering=Gm('Numbering', n, gathering=w.gm(n)))),
        'matrix': lambda w, n: w.gm(n),
        'irregular matrix': lambda w, n: w.gm(n, cname='iR_Gathering_Matrix'),
    }
    for k1, k2 in itertools.product(kinds, kinds):
        for wrap in (False, True):
            def th(w, k1=k1, k2=k2, wrap=wrap):
                A = w.operand('A', 'type01')
                g, h = kinds[k1](w, 'G'), kinds[k2](w, 'H')
                if wrap:
                    g, h = [g, kinds[k2](w, 'K')], [h]
                w.ev.assign_attr(A, 'gathering_matrices', (g, h))
                want = (w.mk_cgm([w.gm('G')] + ([w.gm('K')] if wrap else [])), w.mk_cgm([w.gm('H')]))
                return [('gathering', w.ev.attr(A, 'gathering_matrices', None, 0), want)]
            if wrap and 'chain' in (k1, k2):
                continue
            ru.case(f'gathering set:{k1}:{k2}:{wrap}', meth_loc(M, 'gathering_matrices'),
                    f'gathering matrices given as {k1}, {k2}' + (' in lists' if wrap else ''), th)

            def thv(w, k1=k1, k2=k2, wrap=wrap):
                A = w.operand('A', 'type01', True)
                g = kinds[k1](w, 'G')
                if wrap:
                    g = [g, kinds[k2](w, 'K')]
                w.ev.assign_attr(A, 'gathering_matrix', g)
                want = w.mk_cgm([w.gm('G')] + ([w.gm('K')] if wrap else []))
                return [('gathering', w.ev.attr(A, 'gathering_matrix', None, 0), want)]
            ru.case(f'gathering set vector:{k1}:{k2}:{wrap}', meth_loc(V, 'gathering_matrix'),
                    f'gathering matrix given as {k1}' + (f', {k2} in a list' if wrap else ''), thv)


def itp(w, dofs, cochains=None):
    loc_ = Gm('Local', 'local', dofs={e: [lift(i) for i in v] for e, v in dofs.items()},
              cochains={e: [alg.sym(f'z{e}_{i}') for i in v] for e, v in dofs.items()})
    return Gm('Interpret', 'itp', _mesh_=Gm('Mesh', 'mesh'), local=loc_)


def lst(xs):
    return ('l',) + tuple(('n', x) for x in xs)


def customize(ru):
    M, V = ru.M, ru.V
    DOFS = {0: [0, 2], 2: [1, 3]}
    COLS = {0: [1, 0], 2: [2, 3]}
    ns = [3, 5, 4]

    def world_mat(w, bshape=(3, 3)):
        A = w.ev.construct(M, [w.els, PyFn('DG', lambda e: w.val('A', 'type01', w.ev.cint(e))),
                               PyFn('KG', lambda e: f"A.{PAT['type01'][w.ev.cint(e)]}")],
                           {'bmat_shape': tuple(lift(x) for x in bshape)}, 5)
        g = [w.gm(f'R{i}', n) for i, n in enumerate(ns)]
        h = [w.gm(f'C{i}', n + 1) for i, n in enumerate(ns)]
        w.ev.assign_attr(A, 'gathering_matrices', (w.mk_cgm(g), w.mk_cgm(h)))
        return A
    cu = lambda w, A: w.ev.attr(A, 'customize', None, 0)
    for i in range(3):
        def th(w, i=i):
            A = world_mat(w)
            w.do(cu(w, A), 'identify_global_rows_according_to', lift(i), itp(w, DOFS))

            def want(e):
                m = w.val('A', 'type01', e)
                if e in DOFS:
                    d = lst([x + sum(ns[:i]) for x in DOFS[e]])
                    m = setat(setat(m, (d, ':'), ('n', 0)), (d, d), ('n', 1))
                return m
            return sweep(w, A, want)
        ru.case(f'identify rows:{i}', meth_loc_c(ru, M, 'customize', 'identify_global_rows_according_to'),
                f'identifying the rows of block row {i}', th)
        for j in range(3):
            def th2(w, i=i, j=j):
                A = world_mat(w)
                w.do(cu(w, A), 'off_diagonally_identify_rows_according_to', lift(i), lift(j), itp(w, DOFS), itp(w, COLS))

                def want(e):
                    m = w.val('A', 'type01', e)
                    if e in DOFS:
                        d = lst([x + sum(ns[:i]) for x in DOFS[e]])
                        c = lst([x + sum(n + 1 for n in ns[:j]) for x in COLS[e]])
                        m = setat(setat(m, (d, ':'), ('n', 0)), (d, c), ('n', 1))
                    return m
                return sweep(w, A, want)
            ru.case(f'off-diagonal identify:{i}:{j}',
                    meth_loc_c(ru, M, 'customize', 'off_diagonally_identify_rows_according_to'),
                    f'identifying rows of block ({i},{j})', th2)

        def thv(w, i=i, const=False):
            v = w.ev.construct(V, [w.els, PyFn('DG', lambda e: w.val('v', 'type01', w.ev.cint(e), True)),
                                   PyFn('KG', lambda e: f"v.{PAT['type01'][w.ev.cint(e)]}")],
                               {'con_shape': (lift(3),)}, 5)
            w.ev.assign_attr(v, 'gathering_matrix', w.mk_cgm([w.gm(f'R{k}', n) for k, n in enumerate(ns)]))
            if const:
                w.do(cu(w, v), 'set_constant_entries_according_to', lift(i), itp(w, DOFS), lift(7))
            else:
                w.do(cu(w, v), 'set_entries_according_to', lift(i), itp(w, DOFS))

            def want(e):
                m = w.val('v', 'type01', e, True)
                if e in DOFS:
                    vals = ('l',) + tuple(('n', 7) if const else ('r', str(alg.sym(f'z{e}_{x}').key())) for x in DOFS[e])
                    m = setat(m, (lst([x + sum(ns[:i]) for x in DOFS[e]]), ('n', 0)), vals)
                return m
            return sweep(w, v, want)
        ru.case(f'set entries:{i}', meth_loc_c(ru, V, 'customize', 'set_entries_according_to'),
                f'setting the entries of block {i} to the cochain', thv)
        ru.case(f'set constant entries:{i}', meth_loc_c(ru, V, 'customize', 'set_constant_entries_according_to'),
                f'setting the entries of block {i} to a constant', lambda w, i=i: thv(w, i, True))
    # adjust: a new object, the operand unchanged
    for pat in ('constant', 'type01', 'uncached'):
        def adj(w, name, pat=pat, col=False):
            A = w.operand('A', pat)
            G, H = w.mk_cgm([w.gm('G')]), w.mk_cgm([w.gm('H')])
            w.ev.assign_attr(A, 'gathering_matrices', (G, H))
            kw = {'col_itp': itp(w, COLS)} if col else {}
            w.epoch = 0
            x = w.do(w.ev.attr(A, 'adjust', None, 0), name, itp(w, DOFS), **kw)

            def want(e):
                m = w.val('A', pat, e)
                if e in DOFS:
                    d = lst(DOFS[e])
                    m = setat(m, (d, ':'), ('n', 0))
                    if name.startswith('identify'):
                        m = setat(m, (d, lst(COLS[e]) if col else d), ('n', 1))
                return m
            out = [(f'element {e}', w.get(x, e), want(e)) for e in ELS]
            out += [(f'operand, element {e}', w.get(A, e), w.val('A', pat, e)) for e in ELS]
            out.append(('gathering', w.ev.attr(x, 'gathering_matrices', None, 0), (G, H)))
            return out
        for name, col in (('clear_rows_according_to', False), ('identify_rows_according_to', False),
                          ('identify_rows_according_to', True)):
            ru.case(f'adjust:{name}:{col}:{pat}', meth_loc_c(ru, M, 'adjust', name), f'adjust.{name}',
                    lambda w, name=name, col=col: adj(w, name, col=col))

        def adjv(w, pat=pat):
            v = w.operand('v', pat, True)
            G = w.mk_cgm([w.gm('G')])
            w.ev.assign_attr(v, 'gathering_matrix', G)
            x = w.do(w.ev.attr(v, 'adjust', None, 0), 'set_entries_according_to', itp(w, DOFS))

            def want(e):
                m = w.val('v', pat, e, True)
                if e in DOFS:
                    m = setat(m, (lst(DOFS[e]), ('n', 0)),
                              ('l',) + tuple(('r', str(alg.sym(f'z{e}_{i}').key())) for i in DOFS[e]))
                return m
            return [(f'element {e}', w.get(x, e), want(e)) for e in ELS] + \
                [(f'operand, element {e}', w.get(v, e), w.val('v', pat, e, True)) for e in ELS] + \
                [('gathering', w.ev.attr(x, 'gathering_matrix', None, 0), G)]
        ru.case(f'adjust:vector:{pat}', meth_loc_c(ru, V, 'adjust', 'set_entries_according_to'),
                'adjust.set_entries_according_to', adjv)
    # the basic customizations, in sequence
    keys = {'clr': (lift(2), [((('n', 2), ':'), ('n', 0))]),
            'salv': (((lift(1), lift(2)), lift(5)), [((('n', 1), ('n', 2)), ('n', 5))])}
    for a, b in itertools.product(keys, keys):
        def thk(w, a=a, b=b):
            A = w.operand('A', 'constant')
            cu(w, A).attrs['___customizations___'][1] = [(a, keys[a][0]), (b, keys[b][0])]

            def want(e):
                m = w.val('A', 'constant', e)
                if e == 1:
                    for k in (a, b):
                        for wh, v in keys[k][1]:
                            m = setat(m, wh, v)
                return m
            return sweep(w, A, want)
        ru.case(f'customization order:{a}:{b}', meth_loc(M, '__getitem__'), f'customizations {a} then {b}', thk)


def meth_loc_c(ru, c, prop, name):
    """location of method `name` on the helper object behind property `prop`"""
    try:
        w = World(ru.p, ru)
        o = w.operand('A', 'type01', c is ru.V)
        h = w.ev.attr(o, prop, None, 0)
        return loc(h.cls.find(name))
    except FAILS:
        return meth_loc(c, prop)


def assemble(ru):
    """assembled matrix = sum over the elements of the scattered local entries, for csr/csc storage and cached sparsity"""
    M, V = ru.M, ru.V
    GI = {0: [0, 1, 2], 1: [2, 3, 1], 2: [3, 4, 0]}
    GJ = {0: [1, 0], 1: [2, 1], 2: [0, 3]}
    pats = {'full': [[0, 1], [0, 1], [0, 1]], 'sparse': [[1], [], [0, 1]]}
    for fmts, pat, out, lock in itertools.product((('csr',) * 3, ('csc',) * 3, ('csr', 'csc', 'csr')), pats, ('csc', 'csr'),
                                                  (False, True)):
        def th(w, fmts=fmts, pat=pat, out=out, lock=lock):
            ev = w.ev

            def local(e):
                rows = pats[pat]
                ent = [(i, j, alg.sym(f'm{e}_{i}_{j}_{w.epoch}')) for i in range(3) for j in rows[i]]
                if fmts[e] == 'csr':
                    ptr = [sum(len(r) for r in rows[:i]) for i in range(4)]
                    return Sp('csr', [lift(x) for x in ptr], [lift(j) for _, j, _ in ent], [v for _, _, v in ent])
                ent.sort(key=lambda t: (t[1], t[0]))
                ptr = [sum(1 for x in ent if x[1] < j) for j in range(3)]
                return Sp('csc', [lift(x) for x in ptr], [lift(i) for i, _, _ in ent], [v for _, _, v in ent])

            def glob():
                d = {}
                for e in ELS:
                    for i in range(3):
                        for j in pats[pat][i]:
                            k = (GI[e][i], GJ[e][j])
                            d[k] = d.get(k, lift(0)) + alg.sym(f'm{e}_{i}_{j}_{w.epoch}')
                return Gl(d, (5, 4), out)
            A = ev.construct(M, [w.els, PyFn('DG', lambda e: local(ev.cint(e))), 'no_cache'], {}, 5)
            A.attrs['_gathering_matrices_0_'] = cg('I', GI, 5)
            A.attrs['_gathering_matrices_1_'] = cg('J', GJ, 4)
            w.ev.stub_ctor['GlobalMatrix'] = lambda e_, a, k: a[0]
            asm = ev.attr(A, 'assembler', None, 0)
            ev.assign_attr(asm, 'format', out)
            if lock:
                w.do(ev.attr(A, 'do', None, 0), 'lock_sparsity')
            ev.assembling = True
            res = []
            for ep in (0, 1, 2):
                w.epoch = ep
                g = ev.attr(A, 'assembled', None, 0)
                res.append((f'assembled matrix ({ep})', Gl(g.d, g.shape, ''), Gl(glob().d, (5, 4), '')))
            return res
        ru.case(f'assemble:{fmts}:{pat}:{out}:{lock}', meth_loc(M, 'assembled'),
                f'assembling local {"/".join(fmts)} matrices ({pat}) into {out}' + (' with locked sparsity' if lock else ''), th)

    def thl(w):
        """a locked assembled matrix is kept, an unlocked one follows the local matrices"""
        ev = w.ev

        def local(e):
            return Sp('csr', [lift(x) for x in (0, 1, 2, 2)], [lift(0), lift(1)],
                      [alg.sym(f'a{e}_{w.epoch}'), alg.sym(f'b{e}_{w.epoch}')])

        def glob(ep):
            d = {}
            for e in ELS:
                for (i, j, n) in ((0, 0, 'a'), (1, 1, 'b')):
                    k = (GI[e][i], GJ[e][j])
                    d[k] = d.get(k, lift(0)) + alg.sym(f'{n}{e}_{ep}')
            return Gl(d, (5, 4), '')
        A = ev.construct(M, [w.els, PyFn('DG', lambda e: local(ev.cint(e))), 'no_cache'], {}, 5)
        A.attrs['_gathering_matrices_0_'] = cg('I', GI, 5)
        A.attrs['_gathering_matrices_1_'] = cg('J', GJ, 4)
        w.ev.stub_ctor['GlobalMatrix'] = lambda e_, a, k: a[0]
        ev.assembling = True
        do = ev.attr(A, 'do', None, 0)
        out = []

        def read(label, ep, want):
            w.epoch = ep
            g = ev.attr(A, 'assembled', None, 0)
            out.append((label, Gl(g.d, g.shape, ''), glob(want)))
        read('before locking', 0, 0)
        w.do(do, 'lock_assembled_matrix')
        read('locked', 1, 1)
        read('still locked', 2, 1)
        w.do(do, 'unlock_assembled_matrix')
        read('unlocked', 3, 3)
        read('still unlocked', 4, 4)
        return out
    ru.case('assemble:lock', meth_loc(M, 'assembled'), 'locking the assembled matrix', thl)

    def thv(w):
        ev = w.ev

        def local(e):
            idx = {0: [0, 2], 1: [1], 2: [0, 1, 2]}[e]
            return Sp('csc', [lift(0), lift(len(idx))], [lift(i) for i in idx], [alg.sym(f'v{e}_{i}') for i in idx])
        v = ev.construct(V, [w.els, PyFn('DG', lambda e: local(ev.cint(e))), 'no_cache'], {}, 5)
        v.attrs['_gathering_matrix_'] = cg('I', GI, 5)
        w.ev.stub_ctor['GlobalVector'] = lambda e_, a, k: a[0]
        g = ev.attr(v, 'assembled', None, 0)
        d = {}
        for e, idx in {0: [0, 2], 1: [1], 2: [0, 1, 2]}.items():
            for i in idx:
                k = (GI[e][i], 0)
                d[k] = d.get(k, lift(0)) + alg.sym(f'v{e}_{i}')
        return [('assembled vector', Gl(g.d, g.shape, ''), Gl(d, (5, 1), ''))]
    ru.case('assemble:vector', meth_loc(V, 'assembled'), 'assembling a vector', thv)


def cg(name, table, n):
    arr = {e: NArr(lift(i) for i in v) for e, v in table.items()}
    return Gm('Chain_Gathering_Matrix', name, global_num_dofs=lift(n), chain_method='silly', iter=list(table),
              getitem=lambda k: arr[int(k.const())])


def mdm(ru):
    D = ru.D
    if D is None:
        return
    for pat in ('uncached', 'type01', 'constant'):
        def mk(w, nd, name='X', pat=pat):
            forms = [form(w, f'f{i}') for i in range(nd)]
            d = PAT[pat]

            def dg(e, *a):
                e = w.ev.cint(e)
                return Nd((name, d[e]) if d is not None else (name, e, w.epoch), [None] * nd, range(nd), lift(1))
            kg = 'no_cache' if pat == 'uncached' else PyFn('KG', lambda e: ru.CT if pat == 'constant' else f'{name}{d[w.ev.cint(e)]}')
            return w.ev.construct(D, [w.els, PyFn('DG', dg), list(forms), kg], {}, 5), forms, dg

        def form(w, n):
            vals = {e: Gm('cochain', f'{n}@{e}') for e in ELS}
            return Gm('Form', n, cochain=Gm('Cochain', n, local=vals), numbering=Gm('Numbering', n, gathering=w.gm(n)))

        def con(nd, dims, base, out, c=1):
            return Nd(base.name, dims, out, base.c * lift(c))
        for nd in (2, 3, 4):
            for dim in range(nd):
                def th(w, nd=nd, dim=dim):
                    X, fs, dg = mk(w, nd)
                    g = form(w, 'g')
                    do = w.ev.attr(X, 'do', None, 0)
                    Y = w.do(do, 'eliminate', lift(dim), g)

                    def want(e):
                        dims = [None] * nd
                        dims[dim] = f'g@{e}'
                        return con(nd, dims, dg(lift(e)), [i for i in range(nd) if i != dim])
                    out = sweep(w, Y, want)
                    cor = w.ev.attr(Y, 'correspondence', None, 0)
                    out.append(('correspondence', [x.name for x in cor], [f.name for i, f in enumerate(fs) if i != dim]))
                    return out
                ru.case(f'mdm:eliminate:{nd}:{dim}:{pat}', meth_loc(D, 'do'), f'elimination of dimension {dim} of {nd}', th)

                def thr(w, nd=nd, dim=dim):
                    X, fs, dg = mk(w, nd)
                    v = w.do(w.ev.attr(X, 'do', None, 0), 'reduce_to_vector', fs[dim])

                    def want(e):
                        dims = [None if i == dim else f'f{i}@{e}' for i in range(nd)]
                        return con(nd, dims, dg(lift(e)), [dim]).mx('csc')
                    return sweep(w, v, want)
                ru.case(f'mdm:reduce_to_vector:{nd}:{dim}:{pat}', meth_loc(D, 'do'), f'reduction of {nd} dimensions to form {dim}', thr)

                def the(w, nd=nd, dim=dim):
                    X, fs, dg = mk(w, nd)
                    pairs = [(fs[i], form(w, f's{i}')) for i in reversed(range(nd)) if i != dim]
                    pairs.insert(1, (form(w, 'alien'), form(w, 'other')))
                    v = w.do(w.ev.attr(X, 'do', None, 0), 'evaluate', pairs)

                    def want(e):
                        dims = [None if i == dim else f's{i}@{e}' for i in range(nd)]
                        return con(nd, dims, dg(lift(e)), [dim]).mx('csc')
                    return sweep(w, v, want)
                ru.case(f'mdm:evaluate:{nd}:{dim}:{pat}', meth_loc(D, 'do'),
                        f'evaluation of {nd} dimensions, dimension {dim} remaining', the)
        for tr_ in (False, True):
            def ths(w, tr_=tr_):
                X, fs, dg = mk(w, 2)
                S = w.do(w.ev.attr(X, 'do', None, 0), 'sparse_matrix', transpose=tr_)
                out = sweep(w, S, lambda e: con(2, [None] * 2, dg(lift(e)), [1, 0] if tr_ else [0, 1]).mx('csr'))
                g = w.ev.attr(S, 'gathering_matrices', None, 0)
                a, b = w.mk_cgm([w.gm('f0')]), w.mk_cgm([w.gm('f1')])
                out.append(('gathering', g, (b, a) if tr_ else (a, b)))
                return out
            ru.case(f'mdm:sparse_matrix:{tr_}:{pat}', meth_loc(D, 'do'), f'sparse matrix of a 2d array, transpose={tr_}', ths)
        for t_, u_ in itertools.permutations(range(3), 2):
            def thd(w, t_=t_, u_=u_):
                X, fs, dg = mk(w, 3)
                k = ({0, 1, 2} - {t_, u_}).pop()
                sh = [form(w, f's{i}') for i in range(3)]
                S = w.do(w.ev.attr(X, 'do', None, 0), 'derivative_contribution_to', fs[t_], (fs[u_], sh[u_]),
                         (form(w, 'alien'), form(w, 'other')), (fs[k], sh[k]))

                def want(e):
                    dims = [None] * 3
                    dims[k] = f's{k}@{e}'
                    return con(3, dims, dg(lift(e)), [t_, u_]).mx('csr')
                g = w.ev.attr(S, 'gathering_matrices', None, 0)
                return sweep(w, S, want) + [('gathering', g, (w.mk_cgm([w.gm(f'f{t_}')]), w.mk_cgm([w.gm(f'f{u_}')])))]
            ru.case(f'mdm:derivative:{t_}:{u_}:{pat}', meth_loc(D, 'do'),
                    f'derivative contribution, test dimension {t_}, unknown dimension {u_}', thd)
        for n, f, c in (('neg', lambda w, X: w.ev.call_fn(Fn(X.cls.find('__neg__'), X), [], {}, 5), -1),
                        ('mul', lambda w, X: w.ev.binop(MUL, X, lift(3)), 3), ('rmul', lambda w, X: w.ev.binop(MUL, lift(3), X), 3)):
            def tho(w, f=f, c=c):
                X, fs, dg = mk(w, 3)
                Y = f(w, X)
                cor = w.ev.attr(Y, 'correspondence', None, 0)
                return sweep(w, Y, lambda e: con(3, [None] * 3, dg(lift(e)), [0, 1, 2], c)) + \
                    [('correspondence', [x.name for x in cor], [x.name for x in fs])]
            ru.case(f'mdm:{n}:{pat}', meth_loc(D, f'__{n}__'), f'{n} of a multi-dimensional array', tho)


def constants(ru):
    M, V = ru.M, ru.V

    def th(w):
        A = w.ev.construct(M, [w.els, (lift(3), lift(5))], {}, 5)
        B = w.ev.construct(M, [w.els, ('identity', lift(4))], {}, 5)
        data = {e: mx(('given', e)) for e in ELS}
        D = w.ev.construct(M, [w.els, data], {}, 5)
        k = mx(('k',))
        K = w.ev.construct(M, [w.els, k, 'constant'], {}, 5)
        v = w.ev.construct(V, [w.els, lift(4)], {}, 5)
        u = w.ev.construct(V, [w.els, {e: mx(('gv', e), 'csc') for e in ELS}], {}, 5)
        out = []
        for e in ELS:
            out += [(f'empty {e}', w.get(A, e), mx(('empty', ('l', ('n', 3), ('n', 5))))),
                    (f'identity {e}', w.get(B, e), mx(('id', ('n', 4)))),
                    (f'dictionary {e}', w.get(D, e), mx(('given', e))), (f'constant {e}', w.get(K, e), k),
                    (f'empty vector {e}', w.get(v, e), mx(('empty', ('l', ('n', 4), ('n', 1))))),
                    (f'dictionary vector {e}', w.get(u, e), mx(('gv', e)))]
        return out
    ru.case('constructors', meth_loc(M, '__init__'), 'constructors', th)


def assign_attr(self, o, name, v):
    st = o.cls.find_setter(name)
    if st is not None:
        self.call_fn(Fn(st, o), [v], {}, 5)
    else:
        o.attrs[name] = v


CEv.assign_attr = assign_attr


def run(t, r, sample=False):
    r.rule = ('every element-wise operator, block operator, customization, adjustment, array reduction and the assembly, evaluated '
              'on opaque local matrices for every combination of cache-key patterns of the operands, equals the operation on the local values')
    ru = Rule(t, r)
    if ru.M is None or ru.V is None:
        r.floor('instances', 0, 1)
        return
    for f in (constants, operators, block_ops, gathering, customize, assemble, mdm):
        f(ru)
    if not sample:
        r.floor('instances', r.counts.get('instances', 0), 500)
