"""Exact normal forms for the pointwise formulas of the library.

A value is a quotient of two Laurent polynomials over Q(i) whose indeterminates are
  - symbols (parameters, object attributes),
  - exponentials X_m = exp(m) and E_m = exp(i m) of a monomial m (sin, cos, exp, sinh, cosh, tanh are rewritten to them,
    so every trigonometric identity holds by construction),
  - applications of functions the analysed code leaves open, with a derivative multi-index,
  - powers with fractional exponent of a polynomial, and a few opaque functions (log, arctan, abs ...).
Two values are equal iff the cross-multiplied difference is the zero polynomial.
"""
from fractions import Fraction as Fr

ATOMS = {}      # key -> id
INFO = []       # id -> key
BIG = 60000     # terms; beyond that the formula is not decided


class TooBig(Exception):
    pass


def atom(key):
    i = ATOMS.get(key)
    if i is None:
        i = ATOMS[key] = len(INFO)
        INFO.append(key)
    return i


I_ = atom(('i',))
PI_ = atom(('sym', 'pi'))


# ------------------------------------------------------------------ polynomials: dict monomial -> Fraction
# monomial: tuple of (atom, exponent) sorted by atom; exponent Fraction or int, non zero


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) + e
        if v == 0:
            d.pop(k, None)
        else:
            d[k] = v
    return tuple(sorted(d.items()))


def _norm_mono(m, c):
    """reduce i**n and exp(i pi q); returns (monomial, coefficient, poly factor or None)"""
    d = dict(m)
    if I_ in d:
        e = d.pop(I_) % 4
        if e in (2, 3):
            c = -c
        if e in (1, 3):
            d[I_] = 1
    ex = None
    for k in list(d):
        key = INFO[k]
        if key[0] == 'E' and key[1] == ((PI_, 1),):
            q = d.pop(k) % 2
            if q >= 1:
                c = -c
                q -= 1
            if q == Fr(1, 2):
                e = (d.pop(I_, 0) + 1) % 4
                if e in (2, 3):
                    c = -c
                if e in (1, 3):
                    d[I_] = 1
            elif q != 0:
                d[k] = q
        elif key[0] == 'base' and d[k] >= 1 and d[k] == int(d[k]):
            ex = (k, int(d.pop(k)))
            break
        elif key[0] == 'base' and d[k] > 1:
            n = int(d[k])
            d[k] -= n
            ex = (k, n)
            break
    return tuple(sorted(d.items())), c, ex


class P(dict):
    __slots__ = ()

    def key(self):
        return tuple(sorted(self.items()))


def padd(a, b, s=1):
    r = P(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _acc(r, m, c):
    m, c, ex = _norm_mono(m, c)
    if ex is None:
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    else:
        b = BASES[ex[0]]
        p = P({m: c})
        for _ in range(ex[1]):
            p = pmul(p, b)
        for mm, cc in p.items():
            v = r.get(mm, 0) + cc
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v


def pmul(a, b):
    if len(a) * len(b) > BIG:
        raise TooBig()
    r = P()
    for m, c in a.items():
        for n, d in b.items():
            _acc(r, mono_mul(m, n), c * d)
    return r


def pconst(c):
    return P({(): Fr(c)}) if c else P()


BASES = {}      # base atom -> polynomial it stands for


def base_atom(p):
    k = atom(('base', p.key()))
    BASES[k] = p
    return k


class R:
    """num / den"""
    __slots__ = ('n', 'd', '_k')

    def __init__(self, n, d=None):
        if d is None:
            d = pconst(1)
        if len(d) == 1:
            (m, c), = d.items()
            if m != () or c != 1:
                inv = tuple((k, -e) for k, e in m)
                nn = P()
                for mm, cc in n.items():
                    _acc(nn, mono_mul(mm, inv), cc / c)
                n, d = nn, pconst(1)
        if len(n) + len(d) > BIG:
            raise TooBig()
        if not n:
            d = pconst(1)
        self.n, self.d = n, d

    def key(self):
        # equal values built along different routes may have different keys; zero tests use eq()
        try:
            return self._k
        except AttributeError:
            pass
        n, d = self.n, self.d
        if len(d) > 1:
            # scale so that the leading coefficient of the denominator is 1; cancel n = c*d
            lead = max(d)
            c = d[lead]
            if c != 1:
                d = P({m: v / c for m, v in d.items()})
                n = P({m: v / c for m, v in n.items()})
            if n and len(n) == len(d):
                l2 = max(n)
                r = n[l2]
                sh = mono_mul(l2, tuple((k, -e) for k, e in lead))
                if all(n.get(mono_mul(m, sh)) == v * r for m, v in d.items()):
                    n, d = P({sh: r}), pconst(1)
        self._k = (n.key(), d.key())
        return self._k

    def __add__(self, o):
        o = lift(o)
        if self.d == o.d:
            return R(padd(self.n, o.n), self.d)
        return R(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __sub__(self, o):
        return self + (-lift(o))

    def __neg__(self):
        return R(P({m: -c for m, c in self.n.items()}), self.d)

    def __mul__(self, o):
        o = lift(o)
        if self.n == o.d and self.n:
            return R(o.n, self.d)
        if o.n == self.d and o.n:
            return R(self.n, o.d)
        return R(pmul(self.n, o.n), pmul(self.d, o.d))

    def inv(self):
        if not self.n:
            raise ZeroDivisionError
        return R(self.d, self.n)

    def __truediv__(self, o):
        return self * lift(o).inv()

    def is_zero(self):
        return not self.n

    def const(self):
        """rational constant or None"""
        if not self.n:
            return Fr(0)
        if len(self.d) == 1 and len(self.n) == 1 and () in self.n and () in self.d:
            return self.n[()] / self.d[()]
        return None

    def __repr__(self):
        s = pstr(self.n)
        if self.d != {(): 1}:
            return f'({s}) / ({pstr(self.d)})'
        return s


def lift(x):
    if isinstance(x, R):
        return x
    return R(pconst(Fr(x)))


def sym(name):
    return R(P({((atom(('sym', name)), 1),): Fr(1)}))


def pi():
    return R(P({((PI_, 1),): Fr(1)}))


def eq(a, b):
    return (lift(a) - lift(b)).is_zero()


def pstr(p, limit=6):
    if not p:
        return '0'
    out = []
    for m, c in list(p.items())[:limit]:
        t = '*'.join(astr(k) + (f'^{e}' if e != 1 else '') for k, e in m)
        out.append((f'{c}*{t}' if c != 1 else t) if t else f'{c}')
    return ' + '.join(out) + (' + ...' if len(p) > limit else '')


def mstr(m):
    return '*'.join(astr(k) + (f'^{e}' if e != 1 else '') for k, e in m)


def astr(k):
    key = INFO[k]
    if key[0] == 'sym':
        return key[1]
    if key[0] == 'i':
        return 'i'
    if key[0] == 'E':
        return f'exp(i*{mstr(key[1])})'
    if key[0] == 'X':
        return f'exp({mstr(key[1])})'
    if key[0] == 'base':
        return f'({pstr(BASES[k], 3)})'
    if key[0] == 'app':
        return f"{key[1]}{'_d' + ''.join(map(str, key[3])) if any(key[3]) else ''}"
    return str(key[1])


# ------------------------------------------------------------------ functions


def _exp_like(kind, a):
    """exp(a) (kind X) or exp(i a) (kind E) of a value with polynomial form"""
    if a.d != {(): 1}:
        k = atom((kind, (('q',) + a.key(),)))
        EXPARG[k] = a
        return R(P({((k, 1),): Fr(1)}))
    m = {}
    neg = []
    for mm, c in a.n.items():
        if mm == () or not all(isinstance(k, int) for k, _ in mm):
            pass
        k = atom((kind, mm))
        EXPARG[k] = R(P({mm: Fr(1)}))
        m[k] = m.get(k, 0) + c
    r = P()
    _acc(r, tuple(sorted((k, e) for k, e in m.items() if e)), Fr(1))
    return R(r)


EXPARG = {}


def exp(a):
    a = lift(a)
    return _exp_like('X', a)


def _ei(a):
    return _exp_like('E', a)


def i_():
    return R(P({((I_, 1),): Fr(1)}))


def cos(a):
    a = lift(a)
    return (_ei(a) + _ei(-a)) / 2


def sin(a):
    a = lift(a)
    return (_ei(a) - _ei(-a)) * i_() * Fr(-1, 2)


def cosh(a):
    a = lift(a)
    return (exp(a) + exp(-a)) / 2


def sinh(a):
    a = lift(a)
    return (exp(a) - exp(-a)) / 2


def tanh(a):
    return sinh(a) / cosh(a)


def tan(a):
    return sin(a) / cos(a)


def power(a, e):
    """a ** e for a rational constant e; other exponents become exp(e*log a)"""
    a = lift(a)
    e = lift(e)
    q = e.const()
    if q is None:
        return exp(e * fn('log', a))
    if q == int(q):
        n = abs(int(q))
        if n > 40:
            raise TooBig()
        r = lift(1)
        for _ in range(n):
            r = r * a
        return r if q >= 0 else r.inv()
    c = a.const()
    if c is not None and c > 0:
        root = _exact_root(c, q)
        if root is not None:
            return lift(root)
    if a.is_zero():
        return lift(0)

    def part(p):
        if len(p) == 1:
            (m, cc), = p.items()
            if cc == 1 and m == ():
                return R(pconst(1))
            if cc == 1 and len(m) == 1 and INFO[m[0][0]][0] in ('X', 'E'):
                return R(P({((m[0][0], m[0][1] * q),): Fr(1)}))
        k = base_atom(p)
        r = P()
        _acc(r, ((k, q),), Fr(1))
        return R(r)
    # normalise: positive rational content pulled out is not attempted
    return part(a.n) / part(a.d) if a.d != {(): 1} else part(a.n)


def _exact_root(c, q):
    num = c.numerator ** abs(q.numerator)
    den = c.denominator ** abs(q.numerator)

    def root(n):
        r = round(n ** (1.0 / q.denominator))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** q.denominator == n:
                return x
        return None
    a, b = root(num), root(den)
    if a is None or b is None or (q < 0 and a == 0):
        return None
    r = Fr(a, b)
    return r if q > 0 else 1 / r


FARG = {}       # opaque function atom -> list of argument values


def fn(name, *args):
    args = [lift(x) for x in args]
    k = atom(('fn', name, tuple(x.key() for x in args)))
    FARG[k] = args
    return R(P({((k, 1),): Fr(1)}))


def app(name, args, deriv=None):
    """application of a function symbol whose definition is open; deriv: multi index"""
    args = [lift(x) for x in args]
    if deriv is None:
        deriv = (0,) * len(args)
    k = atom(('app', name, tuple(x.key() for x in args), tuple(deriv)))
    FARG[k] = args
    return R(P({((k, 1),): Fr(1)}))


class NoDeriv(Exception):
    pass


def diff(v, x):
    """derivative with respect to symbol name x"""
    v = lift(v)
    dn = _pdiff(v.n, x)
    if v.d == {(): 1}:
        return dn
    dd = _pdiff(v.d, x)
    return (dn * R(v.d) - R(v.n) * dd) / R(pmul(v.d, v.d))


def _pdiff(p, x):
    r = lift(0)
    for m, c in p.items():
        for j, (k, e) in enumerate(m):
            da = _adiff(k, x)
            if da.is_zero():
                continue
            rest = m[:j] + (((k, e - 1),) if e != 1 else ()) + m[j + 1:]
            q = P()
            _acc(q, rest, c * e)
            r = r + R(q) * da
    return r


_dcache = {}


def _adiff(k, x):
    ck = (k, x)
    if ck in _dcache:
        return _dcache[ck]
    key = INFO[k]
    if key[0] == 'sym':
        out = lift(1 if key[1] == x else 0)
    elif key[0] == 'i':
        out = lift(0)
    elif key[0] in 'XE':
        d = diff(EXPARG[k], x)
        out = d
        if not d.is_zero():
            out = d * R(P({((k, 1),): Fr(1)}))
            if key[0] == 'E':
                out = out * i_()
    elif key[0] == 'base':
        out = diff(R(BASES[k]), x)
    elif key[0] == 'app':
        out = lift(0)
        for j, a in enumerate(FARG[k]):
            d = diff(a, x)
            if d.is_zero():
                continue
            idx = list(key[3])
            idx[j] += 1
            out = out + app(key[1], FARG[k], idx) * d
    else:
        args = FARG[k]
        ds = [diff(a, x) for a in args]
        if all(d.is_zero() for d in ds):
            out = lift(0)
        elif key[1] == 'log':
            out = ds[0] / args[0]
        elif key[1] == 'arctan':
            out = ds[0] / (args[0] * args[0] + 1)
        elif key[1] == 'arcsin':
            out = ds[0] / power(lift(1) - args[0] * args[0], Fr(1, 2))
        elif key[1] == 'arccos':
            out = -ds[0] / power(lift(1) - args[0] * args[0], Fr(1, 2))
        elif key[1] == 'arctan2':
            y, xx = args
            out = (ds[0] * xx - y * ds[1]) / (xx * xx + y * y)
        else:
            raise NoDeriv(key[1])
    _dcache[ck] = out
    return out


def atoms_of(v, seen=None):
    """all atoms a value depends on, through arguments"""
    seen = set() if seen is None else seen
    todo = []
    for p in (v.n, v.d):
        for m in p:
            todo += [k for k, _ in m]
    for k in todo:
        if k in seen:
            continue
        seen.add(k)
        key = INFO[k]
        if key[0] in 'XE':
            atoms_of(EXPARG[k], seen)
        elif key[0] == 'base':
            atoms_of(R(BASES[k]), seen)
        elif key[0] in ('fn', 'app'):
            for a in FARG[k]:
                atoms_of(a, seen)
    return seen


def subst(v, env):
    """replace symbols by values"""
    def P_(p):
        r = lift(0)
        for m, c in p.items():
            t = lift(c)
            for k, e in m:
                t = t * A_(k, e)
            r = r + t
        return r

    def A_(k, e):
        key = INFO[k]
        if key[0] == 'sym':
            return power(env.get(key[1], R(P({((k, 1),): Fr(1)}))), e)
        if key[0] == 'X':
            return exp(subst(EXPARG[k], env) * e)
        if key[0] == 'E':
            return _ei(subst(EXPARG[k], env) * e)
        if key[0] == 'base':
            return power(subst(R(BASES[k]), env), e)
        if key[0] == 'fn':
            return power(fn(key[1], *[subst(a, env) for a in FARG[k]]), e)
        if key[0] == 'app':
            return power(app(key[1], [subst(a, env) for a in FARG[k]], key[3]), e)
        return power(R(P({((k, 1),): Fr(1)})), e)
    return P_(v.n) / P_(v.d)


# ------------------------------------------------------------------ numeric confirmation of a non zero difference

import cmath
import hashlib


def _rnd(key, salt):
    h = hashlib.sha256((repr(key) + salt).encode()).digest()
    return 0.3 + (int.from_bytes(h[:6], 'big') / 2 ** 48) * 0.9


def value(v, salt, memo=None):
    memo = {} if memo is None else memo

    def A(k):
        if k in memo:
            return memo[k]
        key = INFO[k]
        if key[0] == 'sym':
            r = 3.141592653589793 if key[1] == 'pi' else _rnd(key, salt)
        elif key[0] == 'i':
            r = 1j
        elif key[0] == 'X':
            r = cmath.exp(value(EXPARG[k], salt, memo))
        elif key[0] == 'E':
            r = cmath.exp(1j * value(EXPARG[k], salt, memo))
        elif key[0] == 'base':
            r = value(R(BASES[k]), salt, memo)
        elif key[0] == 'app':
            # smooth test function: sum over two modes of c * prod exp(w_j a_j), derivatives analytic
            args = [value(a, salt, memo) for a in FARG[k]]
            r = 0
            for mode in range(2):
                t = _rnd((key[1], 'c', mode), salt)
                for j, a in enumerate(args):
                    w = _rnd((key[1], j, mode), salt)
                    t = t * cmath.exp(w * a) * w ** key[3][j]
                r += t
        else:
            args = [value(a, salt, memo) for a in FARG[k]]
            f = {'abs': abs, 'log': cmath.log, 'arctan': cmath.atan, 'arcsin': cmath.asin, 'arccos': cmath.acos}.get(
                key[1])
            r = f(args[0]) if f else _rnd((key[1], [round(abs(a), 9) for a in args]), salt)
        memo[k] = r
        return r

    def Pv(p):
        t = 0
        s = 0
        for m, c in p.items():
            x = complex(float(c))
            for k, e in m:
                x *= A(k) ** (int(e) if e == int(e) else float(e))
            t += x
            s += abs(x)
        return t, s
    n, ns = Pv(v.n)
    d, ds = Pv(v.d)
    if abs(n) <= 1e-9 * ns:
        n = 0
    return n / d if d else float('nan')


def surely_nonzero(v):
    """a non zero normal form whose value is non zero as well (guards against identities the normal form misses)"""
    if v.is_zero():
        return False
    for salt in 'abc':
        try:
            x = value(v, salt)
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if x == x and abs(x) > 0:
            return True
    return False
