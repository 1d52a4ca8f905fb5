"""Local operators of forms act as the pull-back of their degree demands.

For every form class of the CSCG 2d, CSCG 3d and triangular families the reconstruction, the reconstruction matrices, the
mass / inner / wedge matrices, the cross product tensors, the energies and the L^n error are folded into the normal form
of their generic entry (with the open metric of an element, open basis values, open cochains) and compared with what the
pull-back of the degree of the form gives, for every kind of metric mark.  Every product is taken on labelled axes: points
in different order or basis functions of different owners under one index are reported."""
import re
from .. import alg
from ..alg import lift
from .. import contracts
from ..core import Broken
from ..tens import T, Blocks, Mismatch, sigma
from ..forms import FEv, Form, Stub, add_form, OPEN_RM
from ..form import Obj, Unk, Fn, Unsup, Dead
from ..fcheck import FAIL
from ..contracts import zero_offdiag

FAILS = FAIL + (Mismatch,)
MARKS = [('Orth.a', 'Orth.a'), ('P.a', 'P.a'), (11, 12)]
FAMS = [('objects.CSCG._3d.forms.standard.', 3, False), ('objects.CSCG._2d.forms.standard.', 2, False),
        ('objects.miUsGrid.triangular.forms.standard.', 2, True)]


def loc(f):
    return f'{f.mod.rel}:{f.node.lineno}'


def form_classes(p):
    """leaf classes that own both a reconstruction and a discretization"""
    out = []
    for c in p.classes.values():
        for pre, n, tri in FAMS:
            if c.mod.name.startswith(pre):
                break
        else:
            continue
        if c.find('reconstruct') is None or c.find('discretize') is None or c.find('__init__') is None:
            continue
        if any(c is not d and c in d.mro for d in p.classes.values()):
            continue
        ev = FEv(p, n, MARKS[0], tri)
        k = add_form(ev, c, 'self', n).k
        if k is not None:
            KOF[c] = k
            out.append((c, n, tri))
    return out


def orth(ev, v):
    """an orthogonal element has a diagonal Jacobian"""
    if isinstance(ev.mark[0], str) and ev.mark[0].startswith('Orth'):
        return zero_offdiag([(('eq', ('c', 'Orth')), True)], v)
    return v


class Chk:
    def __init__(self, t, r):
        self.t, self.r = t, r
        self.n = 0

    def same(self, ev, key, where, what, got, want):
        """got and want: T / Blocks / nested lists"""
        if isinstance(want, (list, tuple)):
            if isinstance(got, T) and len(want) == 1:
                return self.same(ev, key, where, what, got, want[0])
            if not isinstance(got, (list, tuple)) or len(got) != len(want):
                raise Unsup(f'result shape {type(got).__name__}')
            return all([self.same(ev, f'{key}[{i}]', where, what, g, w) for i, (g, w) in enumerate(zip(got, want))])
        if isinstance(want, Blocks):
            if isinstance(got, T) and got.v.is_zero():
                got = Blocks([[None] * len(want.grid[0]) for _ in want.grid])
            if isinstance(got, T) and len(want.grid) == len(want.grid[0]) == 1:
                got = Blocks([[got]])
            if not isinstance(got, Blocks):
                raise Unsup(f'result {type(got).__name__}')
            if len(got.grid) != len(want.grid) or len(got.grid[0]) != len(want.grid[0]):
                raise Unsup('block layout')
            ok = True
            for i, (gr, wr) in enumerate(zip(got.grid, want.grid)):
                for j, (g, w) in enumerate(zip(gr, wr)):
                    ok &= self.same(ev, f'{key}({i},{j})', where, what, T(0, w.ax) if g is None else g, w)
            return ok
        if not isinstance(got, T):
            got = ev.arr(got)
        d = orth(ev, got.v - want.v)
        if not d.is_zero():
            if alg.surely_nonzero(d):
                self.r.violation(key, where, f'{what}: generic entry {str(orth(ev, got.v))[:220]} instead of '
                                             f'{str(orth(ev, want.v))[:220]}')
            else:
                self.r.undec(f'{key}: normal forms differ but values agree')
            return False
        if not got.v.is_zero() and not axes_ok(got.ax, want.ax):
            if len(got.ax) == len(want.ax):
                self.r.violation(key + ':axes', where, f'{what}: axes {got.ax} instead of {want.ax}')
                return False
            raise Unsup(f'axes {got.ax} instead of {want.ax}')
        return True

    def run(self, key, where, what, ev, thunk):
        """thunk() -> list of (label, got, want) or None when the case does not apply"""
        r = self.r
        try:
            paths = ev.paths(lambda: guard(thunk))
        except FAILS as e:
            r.undec(f'{key}: {type(e).__name__} {e}')
            return
        done = False
        for cond, res in paths:
            if res is None:
                continue
            if isinstance(res, Mismatch):
                r.violation(key + ':mismatch', where, f'{what}: {res}')
                done = True
                continue
            if isinstance(res, Exception):
                r.undec(f'{key}: {type(res).__name__} {res}')
                continue
            for label, g, w in res:
                try:
                    if self.same(ev, f'{key}:{label}', where, what, g, w):
                        self.n += 1
                        done = True
                    r.count('entries compared')
                except FAILS as e:
                    r.undec(f'{key}:{label}: {type(e).__name__} {e}')
        if done:
            r.count('operator instances')
            r.sample(f'{key} ({where})')
        elif not paths or all(x is None for _, x in paths):
            r.count('cases not offered by the code')


def guard(thunk):
    """a mismatch on one path must not hide the others"""
    try:
        return thunk()
    except Mismatch as e:
        return e
    except Dead:
        raise
    except FAILS as e:
        return e


def axes_ok(a, b):
    return len(a) == len(b) and all(x == y or x in '1?' or y in '1?' for x, y in zip(a, b))


def nodes_of(ev, tag='x'):
    return [T(alg.sym(f'{tag}{i}'), (f'{tag}{i}',)) for i in range(ev.ndim)]


def lab(nodes):
    return 'F:' + ','.join(n.ax[0] for n in nodes)


def target(ev, form, name):
    o = form.obj
    v = ev.attr(o, name, None, 0)
    return v


def where_of(ev, v, name='__call__'):
    if isinstance(v, Obj):
        m = v.cls.find(name)
        return loc(m), m
    if isinstance(v, Fn):
        return loc(v.f), v.f
    raise Unsup(f'{name} of {v!r}')


def short(c):
    return c.mod.name.replace('objects.', '').replace('.main', '') + '.' + c.name


def reconstruct(ck, t, cls, n, tri):
    for mark in MARKS:
        for vec in (False, True):
            for ravel in (True, False):
                for hom in ((True, False) if vec else (None,)):
                    if hom and not isinstance(mark[0], str):
                        continue
                    ev = FEv(t.p, n, mark, tri)
                    ev.homog = hom
                    F = add_form(ev, cls, 'self', n)
                    if F.k is None:
                        return
                    try:
                        rec = target(ev, F, 'reconstruct')
                        where, m = where_of(ev, rec)
                    except FAILS as e:
                        ck.r.undec(f'{short(cls)}.reconstruct: {e}')
                        return
                    key = f'reconstruct:{short(cls)}:{mark[0]}:' + ('vec' if vec else 'loop') + \
                          (':ravel' if ravel else ':grid') + ('' if hom is None else f':hom{int(hom)}')
                    what = f'reconstruction of a {F.k}-form ({F.orient or ""} {n}d)'

                    def thunk():
                        nd = nodes_of(ev)
                        kw = {'ravel': ravel}
                        if vec:
                            kw['vectorized'] = True
                            kw['value_only'] = True
                        for a in list(kw):
                            if a not in m.params and a not in m.kwonly:
                                if vec:
                                    raise Dead()
                                kw.pop(a)
                        res = ev.call(rec, nd, kw)
                        vals = [x.v for x in nd]
                        ax = (lab(nd),) if ravel else ('G:' + lab(nd)[2:],)
                        out = []
                        if vec:
                            if res is None or res == (None,) or (isinstance(res, tuple) and None in res):
                                return None
                            J = ev.jac(vals, None)
                            want = expect_rec(ev, F, J, vals, None, ('e',) + ax)
                            return [('value', tuple(res), want)]
                        xyz, val = res
                        for i in range(len(mark)):
                            J = ev.jac(vals, i)
                            out.append((f'value@{i}', val[i], expect_rec(ev, F, J, vals, i, ax)))
                            out.append((f'coordinates@{i}', list(xyz[i]),
                                        [T(contracts._f(ev, ev.base(i, True), k, vals), ax) for k in range(n)]))
                        return out
                    ck.run(key, where, what, ev, thunk)


def expect_rec(ev, F, J, vals, i, ax):
    P = F.pullback(J)
    out = []
    for a in range(F.ncomp):
        s = lift(0)
        for c in range(F.ncomp):
            l = f'{F.name}.{c}'
            s = s + ev.bval(F, c, vals, i) * ev.cval(F, i, c) * P[a][c] * sigma(l)
        out.append(T(s, ax))
    return out


def recmatrix(ck, t, cls, n, tri):
    for mark in MARKS:
        ev = FEv(t.p, n, mark, tri)
        F = add_form(ev, cls, 'self', n)
        key = f'reconstruction matrix:{short(cls)}:{mark[0]}'
        try:
            do = ev.attr(F.obj, 'do', None, 0)
            fn = ev.attr(do, OPEN_RM[0], None, 0)
            m = F.obj.cls.find(OPEN_RM[1])
            where = loc(m) if m is not None else where_of(ev, fn)[0]
        except FAILS as e:
            ck.r.undec(f'{key}: {e}')
            continue

        def thunk():
            nd = nodes_of(ev)
            res = ev.call(fn, nd, {})
            vals = [x.v for x in nd]
            out = []
            for i in range(len(mark)):
                J = ev.jac(vals, i)
                P = F.pullback(J)
                want = [Blocks([[T(ev.bval(F, c, vals, i) * P[a][c], (lab(nd), f'{F.name}.{c}'))
                                 for c in range(F.ncomp)]]) for a in range(F.ncomp)]
                got = res[i]
                out.append((f'@{i}', list(got) if isinstance(got, (tuple, list)) else [got], want))
            return out
        ck.run(key, where, f'reconstruction matrix of a {F.k}-form ({F.orient or ""} {n}d)', ev, thunk)


def expect_inner(ev, R, C, J, vals, wq, label, i):
    """rows: basis functions of R, columns: basis functions of C"""
    PR, PC = R.pullback(J), C.pullback(J)
    det = contracts.det(J)
    g = []
    for a in range(R.ncomp):
        row = []
        for b in range(C.ncomp):
            s = lift(0)
            for k in range(len(PR)):
                s = s + PR[k][a] * PC[k][b]
            row.append(T(s * det * wq * ev.bval(R, a, vals, i) * ev.bval(C, b, vals, i) * sigma(label),
                         (f'{R.name}.{a}', f'{C.name}.{b}')))
        g.append(row)
    return Blocks(g)


def inner(ck, t, cls, n, tri):
    """the inner product matrix with another form, and the mass matrix"""
    for mark in MARKS:
        for mode in ('mass', 'self', 'other'):
            ev = FEv(t.p, n, mark, tri)
            F = add_form(ev, cls, 'self', n)
            G = F if mode != 'other' else add_form(ev, cls, 'other', n)
            key = f'{mode}:{short(cls)}:{mark[0]}'
            hook = EWCHook(ev)
            try:
                if mode == 'mass':
                    ms = ev.attr(F.obj, 'matrices', None, 0)
                    thing = ms
                    where, m = where_of(ev, thing, 'mass')
                else:
                    ops = ev.attr(F.obj, 'operators', None, 0)
                    thing = ops
                    where, m = where_of(ev, thing, 'inner')
            except FAILS as e:
                ck.r.undec(f'{key}: {type(e).__name__} {e}')
                continue

            def thunk():
                hook.got = None
                if mode == 'mass':
                    v = ev.attr(thing, 'mass', None, 0)
                else:
                    v = ev.call(ev.attr(thing, 'inner', None, 0), [G.obj], {})
                gen = hook.got
                if gen is None:
                    raise Unsup('no generator of local matrices')
                out = []
                nonlocal where
                for i in range(len(mark)):
                    M = ev.call(gen, [lift(i)], {})
                    if isinstance(gen, Obj):
                        where = loc(gen.cls.find('__call__'))
                    wq, vals, lb = quad_of(ev, M)
                    J = ev.jac(vals, i)
                    R, C = (F, G) if tri else (G, F)
                    out.append((f'@{i}', M, expect_inner(ev, R, C, J, vals, wq, lb, i)))
                return out
            ck.run(key, where, f'inner product of {F.k}-forms ({F.orient or ""} {n}d)', ev, thunk)


def quad_of(ev, M):
    """the quadrature a local matrix was computed with"""
    ws = set()
    for v in all_t(M):
        for a in alg.atoms_of(v.v):
            k = alg.INFO[a]
            if k[0] == 'sym' and k[1].startswith('w<'):
                ws.add(k[1])
    if len(ws) != 1:
        raise Unsup(f'quadratures {ws}')
    w = ws.pop()
    tag = w[2:-1]
    names = [f'q{i}<{tag}>' for i in range(ev.ndim)]
    return alg.sym(w), [alg.sym(x) for x in names], 'F:' + ','.join(names)


def all_t(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, Blocks):
        return [x for r in v.grid for x in r if x is not None]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in all_t(x)]
    return []


class EWCHook:
    """element-wise containers are opaque: the generator given to them is what is checked"""

    def __init__(self, ev):
        self.got = None
        prev = ev.call_model

        def model(e, f, args, kw):
            from ..project import ClassInfo
            if isinstance(f, ClassInfo) and (f.name.startswith('EWC_') or f.name == 'MultiDimMatrix'):
                g = args[1] if len(args) > 1 else kw.get('data_generator', kw.get('mdm_generator'))
                if isinstance(g, (Obj, Fn, dict)):
                    self.got = g
                return Obj(Stub(), 'EWC')
            return prev(e, f, args, kw)
        ev.call_model = model


def wedge(ck, t, classes):
    for cls, n, tri in classes:
        if tri:
            continue
        for cls2, n2, tri2 in classes:
            if n2 != n or tri2:
                continue
            ev = FEv(t.p, n, MARKS[1], tri)
            F = add_form(ev, cls, 'self', n)
            G = add_form(ev, cls2, 'other', n)
            if F.k + G.k != n or (n == 2 and F.orient == G.orient):
                continue
            m = cls.find('___PRIVATE_operator_wedge___')
            key = f'wedge:{short(cls)}:{short(cls2)}'
            if m is None:
                ck.r.undec(f'{key}: no wedge')
                continue

            def thunk():
                W = ev.call_fn(Fn(m, F.obj), [G.obj], {}, 0)
                wq, vals, lb = quad_of(ev, W)
                want = Blocks([[T(ev.bval(G, a, vals, 0) * ev.bval(F, b, vals, 0) * wq * sigma(lb) *
                                  (1 if a == b else 0), (f'other.{a}', f'self.{b}')) for b in range(F.ncomp)]
                               for a in range(G.ncomp)])
                return [('', W, want)]
            ck.run(key, loc(m), f'wedge product of a {F.k}-form and a {G.k}-form', ev, thunk)


def embed(v, n):
    """components of a field as a 3d vector"""
    if len(v) == 3:
        return v
    if len(v) == 2:
        return [v[0], v[1], lift(0)]
    return [lift(0), lift(0), v[0]]


def triple(ev, W, U, E, vals, i):
    """(w x u) . e with open reconstruction matrices"""
    e = ev.mark[i] if isinstance(ev.mark[i], str) else i
    w, u, q = [embed([alg.app(f'RM[{e}]:{F.name}.{a}', vals) for a in range(F.ncomp)], ev.ndim) for F in (W, U, E)]
    c = [w[1] * u[2] - w[2] * u[1], w[2] * u[0] - w[0] * u[2], w[0] * u[1] - w[1] * u[0]]
    return c[0] * q[0] + c[1] * q[1] + c[2] * q[2]


OUTS = ('MDM', '2-M-1', '2-M-0')


def cross(ck, t, classes):
    """triple products (self x u, e) offered by the forms"""
    r = ck.r
    for cls, n, tri in classes:
        for holder in ('special', 'do', 'operators'):
            ev = FEv(t.p, n, MARKS[0], tri)
            F = add_form(ev, cls, 'self', n)
            try:
                h = ev.attr(F.obj, holder, None, 0)
            except FAILS:
                continue
            if not isinstance(h, Obj):
                continue
            names = sorted({m for c in h.cls.mro for m in c.methods if 'cross' in m and not m.startswith('_')})
            for nm in names:
                m = h.cls.find(nm)
                need = len(m.params) - len(m.node.args.defaults) - 1
                if need == 1:
                    curlself(ck, t, cls, n, tri, holder, nm, classes)
                if need != 2:
                    continue
                done = False
                for cu, nu, tu in reps(classes, n, tri):
                    for ce, ne, te in reps(classes, n, tri):
                        for out in OUTS:
                            for mark in MARKS:
                                done |= cross1(ck, t, (cls, cu, ce), n, tri, holder, nm, out, mark)
                if not done:
                    r.undec(f'cross:{short(cls)}.{nm}: no combination of degrees is accepted')


def reps(classes, n, tri):
    """one class per degree"""
    seen, out = {}, []
    for c, m, tr in classes:
        if m == n and tr == tri:
            ev = FEv(c.mod.project if hasattr(c.mod, 'project') else None, n, MARKS[0], tri) if False else None
            k = KOF.get(c)
            if k not in seen:
                seen[k] = c
                out.append((c, m, tr))
    return out


KOF = {}


def cross1(ck, t, cs, n, tri, holder, nm, out, mark):
    ev = FEv(t.p, n, mark, tri)
    ev.open_rm = True
    W, U, E = (add_form(ev, c, x, n) for c, x in zip(cs, ('w', 'u', 'e')))
    key = f'cross:{short(cs[0])}.{nm}:{U.k}{E.k}:{out}:{mark[0]}'
    hook = EWCHook(ev)
    h = ev.attr(W.obj, holder, None, 0)
    m = h.cls.find(nm)
    where = loc(m)
    hit = []

    def thunk():
        hook.got = None
        try:
            ev.call(ev.attr(h, nm, None, 0), [U.obj, E.obj], {'output': out} if 'output' in m.params else {})
        except Dead:
            raise
        gen = hook.got
        if gen is None:
            raise Unsup('no generator of local matrices')
        res = []
        for i in range(len(mark)):
            hit.append(1)
            M = gen.get(i) if isinstance(gen, dict) else ev.call(gen, [lift(i)], {})
            if M is None:
                raise Unsup('no local matrix')
            wq, vals, lb = quad_of(ev, M)
            J = ev.jac(vals, i)
            v = triple(ev, W, U, E, vals, i) * contracts.det(J) * wq * sigma(lb)
            if out == 'MDM':
                want = T(v, (W.total, U.total, E.total))
            else:
                g, c = (W, U) if out == '2-M-1' else (U, W)
                want = T(v * ev.cval(g, i) * sigma(g.total), (E.total, c.total))
            res.append((f'@{i}', M, want))
        return res
    ck.run(key, where, f'triple product ({W.k}-form x {U.k}-form, {E.k}-form), output {out}', ev, thunk)
    return bool(hit)


def curlself(ck, t, cls, n, tri, holder, nm, classes):
    """(d(self) x self, e)"""
    done = False
    for ce, ne, te in reps(classes, n, tri):
        for mark in MARKS:
            ev = FEv(t.p, n, mark, tri)
            ev.open_rm = True
            ev.form_classes = {c for c, m, tr in classes if m == n and tr == tri}
            F, E = add_form(ev, cls, 'u', n), add_form(ev, ce, 'e', n)
            key = f'cross:{short(cls)}.{nm}:{E.k}:{mark[0]}'
            hook = EWCHook(ev)
            h = ev.attr(F.obj, holder, None, 0)
            m = h.cls.find(nm)
            hit = []

            def thunk():
                hook.got = None
                ev.forms.pop('new', None)
                ev.call(ev.attr(h, nm, None, 0), [E.obj], {})
                gen = hook.got
                if gen is None:
                    raise Unsup('no generator')
                if 'new' not in ev.forms:
                    raise Unsup('no form of the derivative')
                W = ev.forms['new']
                res = []
                for i in range(len(mark)):
                    hit.append(1)
                    M = ev.call(gen, [lift(i)], {})
                    wq, vals, lb = quad_of(ev, M)
                    J = ev.jac(vals, i)
                    c = ev.cval(F, i)
                    w = alg.sym(f'E@{i}:u') * c * sigma(F.total) * sigma(W.total)
                    v = triple(ev, W, F, E, vals, i) * contracts.det(J) * wq * sigma(lb) * w * c * sigma(F.total)
                    res.append((f'@{i}', M, T(v, (E.total,))))
                return res
            ck.run(key, loc(m), f'triple product (d u x u, {E.k}-form)', ev, thunk)
            done |= bool(hit)
    if not done:
        ck.r.undec(f'cross:{short(cls)}.{nm}: no degree is accepted')


def recval(ev, F, vals, i, a):
    return alg.app(f'REC{"" if i is None else f"@{i}"}:{F.name}.{a}', vals)


def integral(ev, terms, n, w, vals, lb, i):
    """integral over element i (or, with i None, over every element of the vectorized arrays)"""
    s = lift(0)
    for x in terms:
        s = s + alg.power(x, lift(n))
    return s * contracts.det(ev.jac(vals, i)) * w * sigma(lb) * (sigma('e') if i is None else lift(1))


def energies(ck, t, cls, n, tri):
    """L^n energies, norms, differences and errors, L^2 products"""
    for mark in MARKS:
        for name in ('compute_Ln_energy', 'compute_Ln_norm', 'compute_Ln_diff_from', 'L', 'compute_L2_energy_with'):
            for n_ in (2, 4) if name != 'compute_L2_energy_with' else (2,):
                for vec in (False, True):
                    for hom in (True, False) if vec else (None,):
                        if hom and not isinstance(mark[0], str):
                            continue
                        energy1(ck, t, cls, n, tri, mark, name, n_, vec, hom)


def energy1(ck, t, cls, n, tri, mark, name, n_, vec, hom):
    ev = FEv(t.p, n, mark, tri)
    ev.open_rec = True
    ev.homog = bool(hom)
    F = add_form(ev, cls, 'self', n)
    G = add_form(ev, cls, 'other', n)
    try:
        h = ev.attr(F.obj, 'error' if name == 'L' else 'do', None, 0)
        m = h.cls.find(name)
    except FAILS:
        return
    if m is None:
        return
    l2 = name == 'compute_L2_energy_with'
    if vec and not l2 and 'vectorized' not in m.params and name != 'compute_Ln_norm':
        return
    key = f'{name}:{short(cls)}:{mark[0]}:n{n_}' + ((':vec' if vec else ':loop') if hom is None else f':hom{int(hom)}')

    def thunk():
        kw = {}
        args = []
        if name in ('compute_Ln_diff_from', 'compute_L2_energy_with'):
            args.append(G.obj)
        if not l2:
            kw['n'] = lift(n_)
        if 'vectorized' in m.params:
            kw['vectorized'] = vec
        got = ev.call(ev.attr(h, name, None, 0), args, kw)
        if l2:
            arr = hom and 'SUM<e>' in str(ev.arr(got).v)
            es = [0] if arr else range(len(mark))
            want = lift(0)
            for i in es:
                v = alg.sym(f'M@{i}') * sigma(F.total) * sigma(G.total)
                if arr:
                    want = want + v * ev.cval(F, None) * ev.cval(G, None) * sigma('e')
                else:
                    want = want + v * ev.cval(F, i) * ev.cval(G, i)
            return [('', got, T(want, ()))]
        root = name != 'compute_Ln_energy'
        g = ev.arr(got).v
        wq, vals, lb = quad_of(ev, T(g))
        terms = []
        want = lift(0)
        for i in ([None] if 'SUM<e>' in str(g) else range(len(mark))):
            terms = []
            for a in range(F.ncomp):
                x = recval(ev, F, vals, i, a)
                if name == 'compute_Ln_diff_from':
                    x = x - recval(ev, G, vals, i, a)
                if name == 'L':
                    xyz = [contracts._f(ev, ev.base(i, True), k, vals) for k in range(n)]
                    x = x - alg.app(f'self.F{a}', xyz)
                terms.append(x)
            want = want + integral(ev, terms, n_, wq, vals, lb, i)
        if root:
            want = alg.power(want, lift(1) / lift(n_))
        return [('', got, T(want, ()))]
    ck.run(key, loc(m), f'{name} of a {F.k}-form', ev, thunk)


def run(t, r, sample=False):
    r.rule = ('the generic entry of every local operator of a form (reconstruction, reconstruction matrix, mass, inner, '
              'wedge, cross product, energy, error) equals the pull-back of its degree, on labelled axes')
    cls = form_classes(t.p)
    ck = Chk(t, r)
    for c, n, tri in cls:
        reconstruct(ck, t, c, n, tri)
        recmatrix(ck, t, c, n, tri)
        inner(ck, t, c, n, tri)
        energies(ck, t, c, n, tri)
    wedge(ck, t, cls)
    cross(ck, t, cls)
    r.count('form classes', len(cls))
    if not sample:
        r.floor('form classes', len(cls), 8)
        r.floor('operator instances', r.counts.get('operator instances', 0), 500)
