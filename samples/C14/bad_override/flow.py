import numpy as np


class ScalarField:
    def __init__(self, mesh, func, valid_time=None):
        self.func = func


class VectorField:
    def __init__(self, mesh, func, valid_time=None):
        self.func = func


class NumericalPartialDerivative_txy_Functions:
    def __init__(self, func):
        self._func_ = func


class Flow:
    def __init__(self, mesh):
        self.mesh = mesh
        self._n_u_ = None
        self._n_v_ = None

    def u(self, t, x, y):
        raise NotImplementedError()

    def v(self, t, x, y):
        raise NotImplementedError()

    def u_x(self, t, x, y):
        if self._n_u_ is None:
            self._n_u_ = NumericalPartialDerivative_txy_Functions(self.u)
        return self._n_u_('x')(t, x, y)

    def u_y(self, t, x, y):
        if self._n_u_ is None:
            self._n_u_ = NumericalPartialDerivative_txy_Functions(self.u)
        return self._n_u_('y')(t, x, y)

    def v_x(self, t, x, y):
        if self._n_v_ is None:
            self._n_v_ = NumericalPartialDerivative_txy_Functions(self.v)
        return self._n_v_('x')(t, x, y)

    def omega(self, t, x, y):
        return self.v_x(t, x, y) - self.u_y(t, x, y)

    @property
    def velocity(self):
        return VectorField(self.mesh, (self.u, self.v))

    @property
    def vorticity(self):
        return ScalarField(self.mesh, self.omega)


class Roll(Flow):
    def u(self, t, x, y):
        return np.sin(x) * np.cos(y)

    def v(self, t, x, y):
        return - np.cos(x) * np.sin(y)

    def v_x(self, t, x, y):
        return - np.sin(x) * np.sin(y)

    @staticmethod
    def source_term(t, x, y):
        return 0 * x
