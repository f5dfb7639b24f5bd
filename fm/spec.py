"""Independent reference computations with rounding-error bounds."""
import numpy as np

EPS = np.finfo(float).eps


def affine(x, g, lb, ub):
    """Coleman-Li scaling: distance to the bound the gradient points to."""
    g = np.asarray(g, float)
    bound = np.where(g < 0, ub, lb)
    fin = np.isfinite(bound)
    v = np.where(g >= 0, 1.0, -1.0)
    v = np.where(fin, x - np.where(fin, bound, 0.0), v)
    return v, fin.astype(float)


class Model:
    """quadratic model in scaled variables at (x, g, H)"""

    def __init__(self, x, g, H, lb, ub):
        self.x, self.g, self.H = np.asarray(x, float), np.asarray(g, float), np.asarray(H, float)
        self.v, self.dv = affine(self.x, self.g, lb, ub)
        self.D = np.sqrt(np.abs(self.v))
        self.M = self.D[:, None] * self.H * self.D[None, :] + np.diag(np.abs(self.g) * self.dv)
        self.sg = self.D * self.g
        # scaled components in these directions are invisible in x
        self.hidden = bool(np.any((self.D == 0) & (self.g == 0)))

    def q(self, ss):
        return 0.5 * ss @ self.M @ ss + self.sg @ ss

    def q_err(self, ss, err):
        """bound on the error of q if ss is off by at most err"""
        a = np.abs(self.M)
        return (
            np.abs(0.5 * (self.M + self.M.T) @ ss + self.sg) @ err
            + err @ a @ err
            + 1e-11 * (np.abs(ss) @ a @ np.abs(ss) + np.abs(self.sg) @ np.abs(ss))
        )

    def scaled(self, s, s_err):
        """scaled displacement and its error; None if undefined"""
        z = self.D == 0
        if np.any(z & (np.abs(s) > s_err)):
            return None, None
        d = np.where(z, 1.0, self.D)
        ss = np.where(z, 0.0, s / d)
        err = np.where(z, 1e-10 * np.linalg.norm(ss), s_err / d) + 1e-13 * np.abs(ss)
        return ss, err


def disp(x, xn):
    """displacement between two iterates and a bound on its rounding error"""
    s = xn - x
    return s, 8 * EPS * np.maximum(np.abs(x), np.abs(xn))


def is_sym(H, tol=1e-12):
    m = np.abs(H).max() if H.size else 0
    return np.abs(H - H.T).max() <= tol * m


def same(a, b):
    """bitwise equality, NaN equal to NaN"""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.array_equal(a, b, equal_nan=True))
