from scipy.misc import derivative


class NumericalPartialDerivative_txy:
    def __init__(self, func, t, x, y, dx=1e-6):
        self.f, self.t, self.x, self.y, self.dx = func, t, x, y, dx

    def ft(self, t):
        return self.f(t, self.x, self.y)

    def fx(self, x):
        return self.f(self.t, x, self.y)

    def fy(self, y):
        return self.f(self.t, self.x, y)

    def scipy_partial(self, d):
        if d == 't':
            return derivative(self.ft, self.t, dx=self.dx)
        elif d == 'x':
            return derivative(self.fx, self.x, dx=self.dx)
        elif d == 'y':
            return derivative(self.fx, self.y, dx=self.dx)
        else:
            raise Exception()

    @property
    def scipy_total(self):
        return tuple(self.scipy_partial(_) for _ in 'txy')


class NumericalPartialDerivative_txy_Functions:
    def __init__(self, f):
        self.f = f

    def __call__(self, d):
        def g(t, x, y):
            return NumericalPartialDerivative_txy(self.f, t, x, y).scipy_partial(d)
        return g


class Sub:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, t, x, y):
        return self.a(t, x, y) - self.b(t, x, y)


class t2dScalar:
    def __init__(self, s):
        self._s_ = s

    def __call__(self, t, x, y):
        return self._s_(t, x, y)


class t2dVector:
    def __init__(self, v0, v1):
        self._v0_ = v0
        self._v1_ = v1
        self._n0_ = None

    def __call__(self, t, x, y):
        return self._v0_(t, x, y), self._v1_(t, x, y)

    @property
    def _NPD0_(self):
        if self._n0_ is None:
            self._n0_ = NumericalPartialDerivative_txy_Functions(self._v0_)
        return self._n0_

    @property
    def rot(self):
        d1 = NumericalPartialDerivative_txy_Functions(self._v1_)
        return t2dScalar(Sub(d1('x'), self._NPD0_('y')))

    def __sub__(self, other):
        if other.__class__ is self.__class__:
            return t2dVector(Sub(self._v0_, other._v0_), Sub(self._v1_, other._v1_))
        raise NotImplementedError()
