"""Random objective families with analytic derivatives."""
import numpy as np


class Problem:
    """fgh(x) -> (f, g, H); for least squares also rj(x) -> (r, J)."""

    def __init__(self, name, n, fgh=None, rj=None, **attrs):
        self.name, self.n, self._fgh, self.rj = name, n, fgh, rj
        self.convex = attrs.pop('convex', False)
        self.bounded_below = attrs.pop('bounded_below', True)
        self.may_nonfinite = attrs.pop('may_nonfinite', False)
        self.center = attrs.pop('center', np.zeros(n))
        self.attrs = attrs

    def fgh(self, x):
        if self._fgh is not None:
            return self._fgh(x)
        r, J = self.rj(x)
        return 0.5 * r.T.dot(r), r.T.dot(J), J.T.dot(J)


def _sym(a):
    return (a + a.T) / 2


def rand_spd(rng, n, logc):
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    ev = 10 ** rng.uniform(-logc, logc, n)
    return _sym(q @ np.diag(ev) @ q.T)


def qp_convex(rng, n):
    H = rand_spd(rng, n, rng.choice([0.3, 1.0, 2.0]))
    c = rng.normal(size=n) * 10 ** rng.uniform(-1, 1)
    off = rng.normal()

    def fgh(x):
        d = x - c
        g = H @ d
        return float(0.5 * d @ g + off), g, H.copy()

    return Problem('qp_convex', n, fgh, convex=True, center=c)


def qp_indef(rng, n):
    H = rng.normal(size=(n, n))
    H = _sym(H) * 10 ** rng.uniform(-1, 1)
    c = rng.normal(size=n)
    q = 10 ** rng.uniform(-2, 0)

    def fgh(x):
        d = x - c
        return (
            float(0.5 * d @ H @ d + q * np.sum(x**4)),
            H @ d + 4 * q * x**3,
            H + np.diag(12 * q * x**2),
        )

    return Problem('qp_indef', n, fgh)


def qp_singular(rng, n):
    k = int(rng.integers(0, n))
    A = rng.normal(size=(k, n)) if k else np.zeros((1, n))
    H = A.T @ A
    b = rng.normal(size=n) * rng.choice([0.0, 1.0])
    c = rng.normal(size=n)

    def fgh(x):
        d = x - c
        return float(0.5 * d @ H @ d + b @ x), H @ d + b, H.copy()

    return Problem('qp_singular', n, fgh, bounded_below=False)


def linear(rng, n):
    b = rng.normal(size=n) * 10 ** rng.uniform(-2, 2)
    b[rng.random(n) < 0.2] = 0

    def fgh(x):
        return float(b @ x), b.copy(), np.zeros((n, n))

    return Problem('linear', n, fgh, bounded_below=False)


def rosen(rng, n):
    if n == 1:
        return qp_convex(rng, n)
    a = rng.choice([1.0, 10.0, 100.0])

    def fgh(x):
        u = x[1:] - x[:-1] ** 2
        v = 1 - x[:-1]
        f = float(np.sum(a * u**2 + v**2))
        g = np.zeros(n)
        g[:-1] += -4 * a * u * x[:-1] - 2 * v
        g[1:] += 2 * a * u
        H = np.zeros((n, n))
        i = np.arange(n - 1)
        H[i, i] += -4 * a * (u - 2 * x[:-1] ** 2) + 2
        H[i + 1, i + 1] += 2 * a
        H[i, i + 1] += -4 * a * x[:-1]
        H[i + 1, i] += -4 * a * x[:-1]
        return f, g, H

    return Problem('rosen', n, fgh, center=np.ones(n))


def trig(rng, n):
    m = int(rng.integers(1, 4))
    W = rng.normal(size=(m, n)) * 10 ** rng.uniform(-0.5, 0.5)
    b = rng.choice([0.0, 1.0]) * rng.normal(size=m)
    a = rng.normal(size=m)
    q = rng.choice([0.0, 0.05, 0.5])

    def fgh(x):
        z = W @ x + b
        f = float(a @ np.sin(z) + 0.5 * q * x @ x)
        g = W.T @ (a * np.cos(z)) + q * x
        H = _sym(-(W.T * (a * np.sin(z))) @ W) + q * np.eye(n)
        return f, g, H

    return Problem('trig', n, fgh)


def wells(rng, n):
    m = int(rng.integers(1, 4))
    C = rng.normal(size=(m, n)) * 2
    w = rng.uniform(0.5, 3, m)
    s = rng.uniform(0.3, 1.5, m)

    def fgh(x):
        f, g, H = 0.0, np.zeros(n), np.zeros((n, n))
        for c, wi, si in zip(C, w, s):
            d = (x - c) / si
            e = wi * np.exp(-0.5 * d @ d)
            f -= e
            g += e * d / si
            H += e * (np.eye(n) - np.outer(d, d)) / si**2
        return float(f), g, _sym(H)

    return Problem('wells', n, fgh, center=C[0])


def quartic(rng, n):
    A = rng.normal(size=(n, n))
    c = rng.normal(size=n)

    def fgh(x):
        z = A @ (x - c)
        return (
            float(np.sum(z**4)),
            4 * A.T @ z**3,
            _sym((A.T * (12 * z**2)) @ A),
        )

    return Problem('quartic', n, fgh, center=c)


def logsumexp(rng, n):
    m = int(rng.integers(2, 6))
    A = rng.normal(size=(m, n))
    b = rng.normal(size=m)
    q = 10 ** rng.uniform(-2, 0)

    def fgh(x):
        z = A @ x + b
        zm = z.max()
        e = np.exp(z - zm)
        p = e / e.sum()
        f = zm + np.log(e.sum()) + 0.5 * q * x @ x
        g = A.T @ p + q * x
        H = _sym((A.T * p) @ A - np.outer(A.T @ p, A.T @ p)) + q * np.eye(n)
        return float(f), g, H

    return Problem('logsumexp', n, fgh, convex=True)


def barrier(rng, n):
    """-sum log(b - A x) + quadratic: NaN outside its natural domain."""
    m = int(rng.integers(1, 4))
    A = rng.normal(size=(m, n))
    b = rng.uniform(0.5, 2, m)
    t = 10 ** rng.uniform(-2, 0)
    c = rng.normal(size=n) * 3

    def fgh(x):
        z = b - A @ x
        if np.any(z <= 0):
            f = np.nan if z.min() < -0.5 else np.inf
        else:
            f = float(-t * np.sum(np.log(z)) + 0.5 * (x - c) @ (x - c))
        with np.errstate(all='ignore'):
            g = A.T @ (t / z) + x - c
            H = _sym((A.T * (t / z**2)) @ A) + np.eye(n)
        return f, g, H

    return Problem('barrier', n, fgh, may_nonfinite=True)


def badscale(rng, n):
    base = [qp_convex, rosen, logsumexp][rng.integers(3)](rng, n)
    d = 10 ** rng.uniform(-3, 3, n)
    fs = 10 ** rng.uniform(-4, 4)

    def fgh(x):
        f, g, H = base.fgh(x / d)
        return fs * f, fs * g / d, fs * H / np.outer(d, d)

    return Problem('badscale', n, fgh, center=base.center * d)


def flat(rng, n):
    v = rng.normal()

    def fgh(x):
        return float(v), np.zeros(n), np.zeros((n, n))

    return Problem('flat', n, fgh)


def saddle(rng, n):
    """stationary at the centre without being a minimum"""
    s = np.where(rng.random(n) < 0.5, -1.0, 1.0)
    q = 0.1

    def fgh(x):
        return (
            float(0.5 * s @ x**2 + q * np.sum(x**4)),
            s * x + 4 * q * x**3,
            np.diag(s + 12 * q * x**2),
        )

    return Problem('saddle', n, fgh)


def plateau(rng, n):
    """piecewise constant value with the derivatives of the underlying quadratic"""
    base = [qp_convex, qp_indef, logsumexp][rng.integers(3)](rng, n)
    u = 10 ** rng.uniform(-3, 1)

    def fgh(x):
        f, g, H = base.fgh(x)
        return float(np.floor(f / u) * u), g, H

    return Problem('plateau', n, fgh, center=base.center)


def rough(rng, n):
    """smooth function plus tiny high-frequency noise in the value only"""
    base = [qp_convex, rosen, quartic, trig][rng.integers(4)](rng, n)
    a = 10 ** rng.uniform(-8, -1)
    k = 10 ** rng.uniform(1, 6)

    def fgh(x):
        f, g, H = base.fgh(x)
        return float(f + a * np.sin(k * np.sum(x))), g, H

    return Problem('rough', n, fgh, center=base.center)


def liar(rng, n):
    """derivatives that do not belong to the value (wrong sign, scale or direction)"""
    base = [qp_convex, qp_indef, rosen, trig][rng.integers(4)](rng, n)
    kind = rng.integers(4)
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    z = 10 ** rng.uniform(-3, 3)

    def fgh(x):
        f, g, H = base.fgh(x)
        if kind == 0:
            return f, -g, H
        if kind == 1:
            return f, z * g, H
        if kind == 2:
            return f, Q @ g, H
        return f, g, z * H

    return Problem('liar', n, fgh, center=base.center)


def qp_int(rng, n):
    """integer quadratic: values, steps and ratios are exact at integer points"""
    d = rng.integers(1, 4, n) * 2
    if rng.random() < 0.4:
        d[rng.integers(n)] *= -1
    c = rng.integers(-4, 5, n)

    def fgh(x):
        z = x - c
        return float(0.5 * np.sum(d * z**2)), d * z, np.diag(d).astype(float)

    return Problem('qp_int', n, fgh, center=c.astype(float))


# least squares ------------------------------------------------------------
def ls_linear(rng, n):
    m = int(rng.integers(max(1, n - 1), n + 4))
    A = rng.normal(size=(m, n))
    b = rng.normal(size=m) * rng.choice([0.0, 1.0, 3.0])

    def rj(x):
        return A @ x - b, A.copy()

    return Problem('ls_linear', n, rj=rj)


def ls_fletcher(rng, n):
    w = rng.uniform(0.5, 4, n)
    c = rng.uniform(0.5, 5, n)

    def rj(x):
        r = np.concatenate([w * x, c - x**2])
        return r, np.vstack([np.diag(w), np.diag(-2 * x)])

    return Problem('ls_fletcher', n, rj=rj)


def ls_rosen(rng, n):
    if n == 1:
        return ls_fletcher(rng, n)
    a = rng.choice([1.0, 10.0])

    def rj(x):
        r = np.concatenate([a * (x[1:] - x[:-1] ** 2), 1 - x[:-1]])
        J = np.zeros((2 * (n - 1), n))
        i = np.arange(n - 1)
        J[i, i + 1] = a
        J[i, i] = -2 * a * x[:-1]
        J[n - 1 + i, i] = -1
        return r, J

    return Problem('ls_rosen', n, rj=rj, center=np.ones(n))


def ls_trig(rng, n):
    m = int(rng.integers(n, n + 3))
    A = rng.normal(size=(m, n))
    x_ = rng.normal(size=n)
    y = np.sin(A @ x_) + rng.choice([0.0, 0.3]) * rng.normal(size=m)

    def rj(x):
        z = A @ x
        return np.sin(z) - y, A * np.cos(z)[:, None]

    return Problem('ls_trig', n, rj=rj, center=x_)


def ls_expfit(rng, n):
    t = np.linspace(0.1, 2, n + 4)
    k_ = rng.uniform(0.2, 2, n)
    y = sum(np.exp(-k * t) for k in k_) + 0.1 * rng.normal(size=t.size)

    def rj(x):
        e = np.exp(-np.outer(t, x))
        return e.sum(1) - y, -t[:, None] * e

    return Problem('ls_expfit', n, rj=rj, center=k_)


def ls_few(rng, n):
    """fewer residuals than variables (singular Gauss-Newton matrix)"""
    m = max(1, n - 1)
    A = rng.normal(size=(m, n))
    b = rng.normal(size=m)

    def rj(x):
        z = A @ x
        return z + 0.2 * z**2 - b, A * (1 + 0.4 * z)[:, None]

    return Problem('ls_few', n, rj=rj)


FGH = {
    f.__name__: f
    for f in (
        qp_convex, qp_indef, qp_singular, linear, rosen, trig, wells, quartic,
        logsumexp, barrier, badscale, flat, saddle, plateau, rough, liar, qp_int,
    )
}
LS = {
    f.__name__: f
    for f in (ls_linear, ls_fletcher, ls_rosen, ls_trig, ls_expfit, ls_few)
}
ALL = {**FGH, **LS}


def make(name, seed, n):
    return ALL[name](np.random.default_rng(seed), n)


def self_test():
    rng = np.random.default_rng(0)
    worst = 0.0
    for name in ALL:
        if name in ('plateau', 'rough', 'liar'):
            continue  # inconsistent on purpose
        for s in range(4):
            n = 1 + s
            p = make(name, s, n)
            x = p.center + 0.1 * rng.normal(size=n)
            f, g, H = p.fgh(x)
            if not np.isfinite(f):
                continue
            h = 1e-5
            for i in range(n):
                e = np.zeros(n)
                e[i] = h * max(1, abs(x[i]))
                fp, gp, _ = p.fgh(x + e)
                fm, gm, _ = p.fgh(x - e)
                d = 2 * e[i]
                scale = 1 + np.abs(g).max() + abs(f)
                worst = max(worst, abs((fp - fm) / d - g[i]) / scale)
                if p.rj is None:
                    worst = max(worst, np.abs((gp - gm) / d - H[:, i]).max() / (1 + np.abs(H).max()))
    assert worst < 1e-4, worst
    return worst
