"""C14: the fields an exact solution publishes are what their names say, derived from the same basic fields."""
import re
from .. import alg
from ..alg import lift, R
from ..fcheck import setup, loc, FAIL, flat
from ..form import Ev, Fn, Unk, Obj, Dead, Unsup, is_abstract, NPD, Part, Deriv
from ..project import ClassInfo

DER = re.compile(r'(.+)_([txyz]+)$')
TP = re.compile(r'_(tp|ke)_([xyz])_$')


class Fld:
    """a scalar or vector field built from functions"""
    def __init__(self, comps):
        self.comps = comps


def is_field_class(c):
    n = c.name
    return bool(re.search(r'(Scalar|Vector)(Field)?$', n)) and 'fields' in c.mod.rel.split('/')


def in_scope(c, sample):
    m = c.mod
    if m.is_test or m.is_legacy:
        return False
    return sample or any('exactsolution' in p.lower() for p in m.rel.split('/'))


def model(ev, f, args, kw):
    if isinstance(f, ClassInfo) and (is_field_class(f) or f.name in ('ScalarField', 'VectorField')):
        init = f.find('__init__')
        names = init.params[1:] if init else ['mesh', 'func']
        b = dict(zip(names, args))
        b.update(kw)
        fn = b.get('func')
        if isinstance(fn, (list, tuple)):
            return Fld(list(fn))
        if isinstance(fn, (Fn, Part, Deriv, Unk)):
            return Fld([fn])
        raise Unsup('field built from something else than functions')
    if isinstance(f, Fn) and f.f.name == 'genpiecewise' and len(args) >= 3 and \
            all(isinstance(b, bool) for b in args[1]) and list(args[1]).count(True) == 1:
        return ev.call(args[2][list(args[1]).index(True)], list(args[0]))
    if isinstance(f, Fn) and f.f.name in ('_freeze_self_', '___PreFrozenChecker___'):
        return ()
    return None


class Sol:
    def __init__(self, ev, c):
        self.ev, self.c = ev, c
        names = set()
        for k in c.mro:
            names |= set(k.methods)
        self.names = names
        self.axes = None
        for n in ('u', 'p', 'phi', 'psi'):
            f = c.find(n)
            if f is not None and f.kind in ('method', 'static'):
                ps = f.params[1:] if f.kind == 'method' else f.params
                if ps and ps[0] == 't':
                    self.axes = ps
                    break
        if self.axes:
            self.args = [alg.sym(a) for a in self.axes]
            self.sp = self.axes[1:]
            self.dim = len(self.sp)

    @property
    def open_base(self):
        """the class that declares its basic fields itself and leaves them open"""
        return any(n in self.c.methods and is_abstract(self.c.methods[n]) for n in ('u', 'p', 'phi', 'psi'))

    def own_names(self):
        """methods a concrete solution defines on top of the class that declares the open basic fields"""
        out = set()
        for k in self.c.mro:
            if any(n in k.methods and is_abstract(k.methods[n]) for n in ('u', 'p', 'phi', 'psi')):
                return out
            out |= set(k.methods)
        return None

    def has(self, *ns):
        return all(n in self.names for n in ns)

    def concrete(self, n):
        f = self.c.find(n)
        return f is not None and not is_abstract(f)

    def fresh(self):
        return setup(self.ev, self.c)

    def val(self, o, n):
        return self.ev.num(self.ev.call(self.ev.attr(o, n, None, 0), list(self.args)))

    def field(self, o, n):
        v = self.ev.attr(o, n, None, 0)
        if isinstance(v, (Fn, Part)):     # a plain method of (t, x, ...)
            return [self.ev.num(self.ev.call(v, list(self.args)))]
        if not isinstance(v, Fld):
            raise Unsup(f'{n} is not a field')
        return [self.ev.num(self.ev.call(g, list(self.args))) for g in v.comps]

    # ------------------------------------------------------------------ calculus
    def d(self, e, a):
        return alg.diff(e, a)

    def grad(self, e):
        return [self.d(e, a) for a in self.sp]

    def div(self, v):
        r = lift(0)
        for e, a in zip(v, self.sp):
            r = r + self.d(e, a)
        return r

    def curl(self, v):
        if self.dim == 3:
            x, y, z = self.sp
            return [self.d(v[2], y) - self.d(v[1], z), self.d(v[0], z) - self.d(v[2], x),
                    self.d(v[1], x) - self.d(v[0], y)]
        x, y = self.sp
        if len(v) == 1:
            return [self.d(v[0], y), -self.d(v[0], x)]
        return [self.d(v[1], x) - self.d(v[0], y)]

    def lap(self, e):
        return self.div(self.grad(e))

    def vec(self, o, ns):
        return [self.val(o, n) for n in ns]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    r = lift(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def ke(u):
    return dot(u, u) / lift(2)


def neg(v):
    return [-x for x in v]


def recip(ev, v):
    """1/Re with the literal 'infty' for a vanishing inverse"""
    if isinstance(v, Unk):
        key = ('eq', ('u', v.path, None), ('c', 'infty'))
        if ev.dec.get(key):
            return lift(0)
    return lift(1) / ev.num(v)


def truths(S, ev, o):
    """name -> list of alternative expected component lists (lazily evaluated)"""
    T = {}
    has = S.has
    if has('Bx', 'By', 'Bz'):
        fam = 'mhd'
    elif has('phi', 'psi', 'f'):
        fam = 'wave'
    elif has('phi', 'f'):
        fam = 'poisson'
    elif has('psi', 'V'):
        fam = 'tise'
    elif has('sf', 'vf'):
        fam = 'ph'
    elif has('p', 'f') and not has('u'):
        fam = 'laplace'
    elif has('u', 'v', 'p', 'body_force'):
        fam = 'ns' if has('u_t') and has('nu') else 'euler' if has('u_t') else 'stokes'
    elif has('u', 'v'):
        fam = 'flow'
    else:
        return None, {}
    vel = ['u', 'v', 'w'][:S.dim]
    U = lambda: S.vec(o, vel)
    P = lambda: S.val(o, 'p')
    timed = S.c.find('valid_time')
    vt = None
    if timed is not None:
        vt = ev.attr(o, 'valid_time', None, 0)
    if fam in ('mhd', 'ns', 'euler', 'stokes', 'flow'):
        T['velocity'] = lambda: [U()]
        T['vorticity'] = T['curl_of_velocity'] = lambda: [S.curl(U())]
        for k, i in (('omega_x', 0), ('omega_y', 1), ('omega_z', 2)):
            if S.dim == 3 and has(k):
                T['@' + k] = lambda i=i: [[S.curl(U())[i]]]
        if S.dim == 2:
            for k in ('omega', 'omega_z'):
                if has(k):
                    T['@' + k] = lambda: [S.curl(U())]
        T['divergence_of_velocity'] = lambda: [[S.div(U())]]
        T['divergence_of_vorticity'] = lambda: [[lift(0)]]

        def cw():
            u = U()
            return [S.curl(S.curl(u)), neg([S.lap(e) for e in u])]
        T['curl_of_vorticity'] = T['curl_of_omega'] = cw
        T['Laplace_of_velocity'] = lambda: [[S.lap(e) for e in U()]]
        T['pressure'] = lambda: [[P()]]
        T['gradient_of_pressure'] = lambda: [S.grad(P())]
        # a class may give the total pressure itself
        if S.c.find('_tp_') is not None and S.dim == 2:
            base = [k for k in S.c.mro if '_tp_' in k.methods]
            own_tp = base and any('_tp_x_' in k.methods for k in S.c.mro) and \
                '_tp_x_' not in base[0].methods
        else:
            own_tp = False
        if not own_tp:
            T['total_pressure'] = lambda: [[P() + ke(U())]]
            T['gradient_of_total_pressure'] = lambda: [S.grad(P() + ke(U()))]
        T['kinetic_energy_distribution'] = lambda: [[ke(U())]]
        T['helicity_distribution'] = T['fluid_helicity_distribution'] = lambda: [[dot(U(), S.curl(U()))]]
        T['enstrophy_distribution'] = lambda: [[ke(S.curl(U()))]]
        T['palinstrophy_distribution'] = lambda: [[ke(S.grad(S.curl(U())[0]))]]

        def force():
            u = U()
            w = S.curl(u)
            lapu = [S.lap(e) for e in u]
            adv = cross(w, u) if S.dim == 3 else [-w[0] * u[1], w[0] * u[0]]
            if fam == 'stokes':
                gp = S.grad(P())
                return [[-a + b for a, b in zip(lapu, gp)],
                        [a + b for a, b in zip(S.curl(w), gp)]]
            gp = S.grad(P() + ke(u))
            base = [S.d(e, 't') + a + g for e, a, g in zip(u, adv, gp)]
            if fam == 'euler':
                return [base]
            if fam == 'mhd':
                nu = recip(ev, ev.attr(o, 'Rf', None, 0))
                B = S.vec(o, ['Bx', 'By', 'Bz'])
                c = ev.num(ev.attr(o, 'c', None, 0))
                jb = cross(S.curl(B), B)
                base = [b - c * j for b, j in zip(base, jb)]
            else:
                nu = ev.num(ev.attr(o, 'nu', None, 0))
            return [[b - nu * x for b, x in zip(base, lapu)],
                    [b + nu * x for b, x in zip(base, S.curl(w))]]
        allc = all(S.concrete(n) for n in vel + ['p'])
        if vt is None and (allc or S.open_base):
            T['body_force'] = force
            for i, k in enumerate(('fx', 'fy', 'fz')[:S.dim]):
                if has(k):
                    T['@' + k] = lambda i=i: [[a[i]] for a in force()]
        if all(S.concrete(n) for n in vel):
            for k in ('source_term', 'mass_source_term'):
                T[k] = lambda: [[S.div(U())]]
    if fam == 'mhd':
        B = lambda: S.vec(o, ['Bx', 'By', 'Bz'])
        T['magnetic_field'] = lambda: [B()]
        T['divergence_of_magnetic_field'] = lambda: [[S.div(B())]]
        T['volume_current_density'] = T['curl_of_magnetic_field'] = lambda: [S.curl(B())]
        for i, k in enumerate(('j_x', 'j_y', 'j_z')):
            if has(k):
                T['@' + k] = lambda i=i: [[S.curl(B())[i]]]

        def E():
            rm = recip(ev, ev.attr(o, 'Rm', None, 0))
            b = B()
            return [rm * a - c for a, c in zip(S.curl(b), cross(U(), b))]
        T['electric_field'] = lambda: [E()]
        T['electric_source_term'] = lambda: [[S.d(b, 't') + c for b, c in zip(B(), S.curl(E()))]]
        if all(S.concrete(n) for n in ('Bx', 'By', 'Bz')):
            T['magnetic_source_term'] = lambda: [[S.div(B())]]
        T['cross_helicity_distribution'] = lambda: [[dot(U(), B())]]
    if fam == 'poisson':
        phi = lambda: S.val(o, 'phi')
        T['potential'] = lambda: [[phi()]]
        T['velocity'] = lambda: [S.grad(phi())]
        T['source_term'] = lambda: [[-S.lap(phi())]]
        T['kinetic_energy_distribution'] = lambda: [[ke(S.grad(phi()))]]
    if fam == 'wave':
        phi = lambda: S.val(o, 'phi')
        T['wave_function'] = lambda: [[phi()]]
        T['potential'] = lambda: [[S.d(phi(), 't')]]
        T['velocity'] = lambda: [S.grad(phi())]
        T['source_term'] = lambda: [[S.d(S.d(phi(), 't'), 't') - S.lap(phi())]]
    if fam == 'tise':
        psi = lambda: S.val(o, 'psi')
        T['wave_function'] = lambda: [[psi()]]
        T['potential'] = lambda: [[S.val(o, 'V')]]
        T['flux'] = lambda: [S.grad(psi())]

        def src():
            h = ev.num(ev.attr(o, 'hbar', None, 0))
            m = ev.num(ev.attr(o, 'm', None, 0))
            e = ev.num(ev.attr(o, 'E', None, 0))
            p = psi()
            return [[(S.val(o, 'V') - e) * p * lift(2) * m / (h * h)]]
        T['source_term'] = src
    if fam == 'ph':
        T['sf'] = lambda: [[P()]]
        T['vf'] = lambda: [U()]
        if S.concrete('p') and all(S.concrete(n) for n in vel):
            T['!velocity rate is minus the pressure gradient'] = lambda: (
                [S.d(e, 't') for e in U()], neg(S.grad(P())))
            T['!pressure rate is minus the divergence'] = lambda: ([S.d(P(), 't')], [-S.div(U())])
    if fam == 'laplace':
        T['potential'] = lambda: [[P()]]
        T['velocity'] = lambda: [S.grad(P())]
        T['source_term'] = lambda: [[S.lap(P())]]
    return fam, T


def derivs(S):
    """(method, basic method, letters)"""
    out = []
    for n in sorted(S.names):
        m = TP.match(n)
        if m:
            f = S.c.find(n)
            if f.kind == 'method':
                out.append((n, '#' + m.group(1), m.group(2)))
            continue
        m = DER.match(n)
        if not m or n in ('omega_x', 'omega_y', 'omega_z') and 'omega' not in S.names:
            continue
        base, let = m.groups()
        f, g = S.c.find(n), S.c.find(base)
        if g is None or f.kind not in ('method', 'static') or g.kind not in ('method', 'static'):
            continue
        if any(a not in S.axes for a in let):
            continue
        out.append((n, base, let))
    return out


ONLY_CONCRETE = {'source_term', 'mass_source_term', 'magnetic_source_term'}


def own_plain(c, own, ok):
    """no method of the family below the open base is overridden except basic fields, named derivatives and checked fields"""
    known = set(PUBLISHED)
    fam = set()
    seen = False
    for k in c.mro:
        if any(n in k.methods and is_abstract(k.methods[n]) for n in ('u', 'p', 'phi', 'psi')):
            seen = True
        if seen:
            fam |= set(k.methods)
    return not [n for n in own if n in fam and n not in ok and n not in known and not n.startswith('___Pre')]


PUBLISHED = ['velocity', 'vorticity', 'curl_of_velocity', 'omega', 'omega_x', 'omega_y', 'omega_z',
             'divergence_of_velocity', 'divergence_of_vorticity', 'curl_of_vorticity', 'curl_of_omega',
             'Laplace_of_velocity', 'pressure', 'gradient_of_pressure', 'total_pressure',
             'gradient_of_total_pressure', 'kinetic_energy_distribution', 'helicity_distribution',
             'fluid_helicity_distribution', 'enstrophy_distribution', 'palinstrophy_distribution', 'body_force', 'fx',
             'fy', 'fz', 'f', 's', 'm', 'Re', 'nu', 'source_term', 'mass_source_term', 'magnetic_field',
             'divergence_of_magnetic_field', 'volume_current_density', 'curl_of_magnetic_field', 'j_x', 'j_y', 'j_z',
             'electric_field', 'electric_source_term', 'magnetic_source_term', 'cross_helicity_distribution',
             'potential', 'wave_function', 'flux', 'sf', 'vf']


def compare(ev, r, key, where, what, got, alts, stat):
    best = None
    for alt in alts:
        if len(alt) != len(got):
            best = best or ('shape', f'{len(got)} components instead of {len(alt)}')
            continue
        bad = None
        for i, (a, b) in enumerate(zip(got, alt)):
            d = a - b
            if not d.is_zero():
                bad = (i, d)
                break
        if bad is None:
            stat['ok'] += 1
            r.sample(f'{key} ({where})')
            return
        if alg.surely_nonzero(bad[1]):
            best = best or ('val', f'component {bad[0]}: difference {str(bad[1])[:250]}')
        else:
            best = ('undec', '')
    if best[0] == 'undec':
        r.undec(f'{key}: normal forms differ but values agree')
        return
    stat['bad'] += 1
    cs = ', '.join(str(c)[:60] for c in ev.order) or 'always'
    r.violation(key, where, f'{what} is not what its name says: {best[1]} (when {cs})')


def run(t, r, sample=False):
    r.rule = ('For every exact solution class (open base classes and each concrete solution): the normal form of a '
              'method named X_y equals the symbolic derivative of X, and the components of every published field equal '
              'the field its name says (gradient, curl, divergence, Laplacian, energies, force of the momentum '
              'balance, sources) computed symbolically from the basic fields of the same class; whatever was asked '
              'before on the same object.')
    ev = Ev(t.p)
    ev.call_model = model
    ncls = nder = nfld = 0
    for c in sorted(t.p.classes.values(), key=lambda c: c.qual):
        if not in_scope(c, sample):
            continue
        S = Sol(ev, c)
        if not S.axes:
            continue
        ncls += 1
        und = set()
        ds = derivs(S)
        own = None if S.open_base else S.own_names()
        basic = {'u', 'v', 'w', 'p', 'phi', 'psi', 'V', 'Bx', 'By', 'Bz', 'E', '__init__', 'valid_time'}
        named = {n for n, _, _ in ds}
        # formulas inherited from the open base are proven there for every basic field; a concrete class is asked for
        # what it defines itself and for what only concrete fields can satisfy
        narrow = own is not None and own_plain(c, own, basic | named)
        if narrow:
            ds = [x for x in ds if x[0] in own]

        def deriv_thunk(order):
            def go():
                o, o2 = S.fresh(), S.fresh()
                out = []
                for n, base, let in order:
                    try:
                        if base in ('#tp', '#ke'):
                            vel = ['u', 'v', 'w'][:S.dim]
                            e = ke(S.vec(o2, vel))
                            if base == '#tp':
                                if S.c.find('_tp_') is not None:
                                    e = S.val(o2, '_tp_')
                                else:
                                    e = e + S.val(o2, 'p')
                        else:
                            e = S.val(o2, base)
                        for a in let:
                            e = alg.diff(e, a)
                        out.append((n, S.val(o, n), e))
                    except FAIL as x:
                        und.add(f'{c.qual}.{n}: {type(x).__name__} {x}')
                    except Dead:
                        pass
                for n, a, b in out:
                    stat = dict(ok=0, bad=0)
                    f = c.find(n)
                    compare(ev, r, f'{c.qual}.{n}', loc(f), f'{c.name}.{n}', [a], [[b]], stat)
                    res[n] = res.get(n, 0) + stat['ok'] + stat['bad']
            return go
        res = {}
        for order in (ds, ds[::-1]):
            try:
                ev.paths(deriv_thunk(order))
            except FAIL as x:
                und.add(f'{c.qual}: derivatives: {type(x).__name__} {x}')
        nder += len(res)
        res = {}

        def fld_thunk(rev):
            def go():
                o, o2 = S.fresh(), S.fresh()
                fam, T = truths(S, ev, o2)
                todo = []
                for n, th in T.items():
                    if n.startswith('!'):
                        todo.append((n, None, th))
                        continue
                    m = n.lstrip('@')
                    f = c.find(m)
                    if f is None:
                        continue
                    if narrow and m not in own and m not in ONLY_CONCRETE:
                        continue
                    todo.append((n, f, th))
                if rev:
                    todo.reverse()
                for n, f, th in todo:
                    m = n.lstrip('@!')
                    try:
                        if n.startswith('!'):
                            got, want = th()
                            alts = [want]
                            where = f'{c.mod.rel}:{c.node.lineno}'
                        else:
                            got = [S.val(o, m)] if n.startswith('@') else S.field(o, m)
                            alts = th()
                            where = loc(f)
                    except FAIL as x:
                        und.add(f'{c.qual}.{m}: {type(x).__name__} {x}')
                        continue
                    except Dead:
                        continue
                    stat = dict(ok=0, bad=0)
                    compare(ev, r, f'{c.qual}.{m}', where, f'{c.name}.{m}', got, alts, stat)
                    res[m] = res.get(m, 0) + stat['ok'] + stat['bad']
            return go
        for rev in (False, True):
            try:
                ev.paths(fld_thunk(rev))
            except FAIL as x:
                und.add(f'{c.qual}: fields: {type(x).__name__} {x}')
        nfld += len(res)
        for u in sorted(und):
            r.undec(u)
    r.floor('exact solution classes', ncls, 1 if sample else 15)
    r.floor('derivative methods decided', nder, 1 if sample else 150)
    r.floor('published fields decided', nfld, 1 if sample else 120)
    r.assumptions += ['numerical differentiation is taken as exact differentiation (its own rule is C12)',
                      'solutions declared valid only at their first instant may prescribe any body force']
