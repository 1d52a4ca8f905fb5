class CT:
    def __init__(self, region):
        self._region_ = region

    def mapping(self, r, s):
        return self._region_.interpolation.mapping(r, s)

    def Jacobian_matrix(self, r, s):
        return self._region_.interpolation.Jacobian_matrix(r, s)

    def inverse_Jacobian_matrix(self, r, s):
        J = self.Jacobian_matrix(r, s)
        d = self.Jacobian(r, s)
        return [[J[1][1] / d, - J[0][1] / d], [- J[1][0] / d, J[0][0] / d]]

    def Jacobian(self, r, s):
        J = self.Jacobian_matrix(r, s)
        return J[0][0] * J[1][1] - J[0][1] * J[1][0]
