"""obligations over pointwise formulas: shared by the formula rules"""
import ast
from . import alg
from .form import Ev, Fn, Obj, Unk, Unsup, Dead
from .alg import R

FAIL = (Unsup, alg.TooBig, alg.NoDeriv, ZeroDivisionError, RecursionError, OverflowError, TypeError, IndexError, KeyError,
        AttributeError)


def setup(ev, cls, path='self', args=None, run_init=True):
    """symbolic instance: __init__ is folded statement by statement, what it cannot fold stays an open attribute"""
    o = Obj(cls, path)
    init = cls.find('__init__')
    if not run_init or init is None:
        return o
    names = list(init.params)[1:]
    env = {init.params[0]: o}
    dfl = init.node.args.defaults
    for n in names:
        env[n] = (args or {}).get(n, Unk(n))
    if init.vararg:
        env[init.vararg] = ()
    if init.kwarg:
        env[init.kwarg] = {}
    init_body(ev, init, env, o)
    return o


def init_body(ev, init, env, o):
    for s in init.node.body:
        try:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Attribute) and s.value.func.attr == '__init__':
                v = s.value.func.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                    mro = o.cls.mro
                    for c in mro[mro.index(init.cls) + 1:]:
                        if '__init__' in c.methods:
                            g = c.methods['__init__']
                            env2 = {g.params[0]: o}
                            for p, a in zip(g.params[1:], s.value.args):
                                env2[p] = ev.expr(a, env, init, 1)
                            for k in s.value.keywords:
                                env2[k.arg] = ev.expr(k.value, env, init, 1)
                            for p in g.params[1:]:
                                env2.setdefault(p, Unk(p))
                            init_body(ev, g, env2, o)
                            break
                    continue
            ev.body([s], env, init, 1)
        except FAIL:
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == init.params[0]:
                    o.attrs.pop(n.attr, None)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.id] = Unk(n.id)


def shape(v):
    if isinstance(v, (list, tuple)):
        return (len(v),) + (shape(v[0]) if v else ())
    return ()


def flat(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [v]


class Oblig:
    def __init__(self, t, r, ev=None):
        self.t, self.r, self.ev = t, r, ev or Ev(t.p)
        self.decided = 0
        self.post = None        # hook(conditions, value) -> value

    def run(self, key, loc, what, thunk):
        """thunk() -> list of (label, left value, right value); every pair must be equal on every path"""
        r, ev = self.r, self.ev
        try:
            paths = ev.paths(thunk)
        except FAIL as e:
            r.undec(f'{key}: {type(e).__name__} {e}')
            return None
        if not paths:
            r.undec(f'{key}: no path')
            return None
        ok = True
        for cond, pairs in paths:
            for label, a, b in pairs:
                fa, fb = flat(a), flat(b)
                try:
                    if len(fa) != len(fb):
                        r.violation(f'{key}:{label}', loc, f'{what}: {label}: shapes {shape(a)} and {shape(b)} differ')
                        ok = False
                        continue
                    for x, y in zip(fa, fb):
                        d = ev.num(x) - ev.num(y)
                        if self.post is not None:
                            d = self.post(cond, d)
                        if not d.is_zero():
                            if alg.surely_nonzero(d):
                                cs = ', '.join(str(c)[:60] for c in cond) or 'always'
                                r.violation(f'{key}:{label}', loc,
                                            f'{what}: {label} does not hold; difference {str(d)[:300]} (when {cs})')
                                ok = False
                                break
                            r.undec(f'{key}:{label}: normal forms differ but values agree')
                            ok = False
                except FAIL as e:
                    r.undec(f'{key}:{label}: {type(e).__name__} {e}')
                    ok = False
        if ok:
            self.decided += 1
            r.sample(f'{key} ({loc})')
        return ok


def loc(f):
    return f'{f.mod.rel}:{f.node.lineno}'
