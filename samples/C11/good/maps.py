import numpy as np


class Map:
    def __init__(self, c):
        self._c_ = c

    def mapping(self, r, s):
        return r + self._c_ * np.sin(2 * np.pi * r) * s, s ** 2

    def Jacobian_Xr(self, r, s):
        return 1 + 2 * np.pi * self._c_ * np.cos(2 * np.pi * r) * s
