"""Independent references for the trust-region subproblems (dual bounds)."""
import numpy as np

EPS = np.finfo(float).eps


def q_of(B, g, s):
    return float(0.5 * s @ B @ s + g @ s)


def q_mag(B, g, s):
    """magnitude entering the evaluation of q at s (bounds its rounding error)"""
    a = np.abs(s)
    return float(0.5 * a @ np.abs(B) @ a + np.abs(g) @ a)


def tr_min_lower(B, g, delta):
    """Lower bound of min 0.5 s'Bs + g's over |s|<=delta from the Lagrangian dual,

    tight because strong duality holds for the trust-region problem.  Works in
    scaled units (delta=1, magnitude 1); returns the bound and the magnitude.
    """
    B = 0.5 * (B + B.T)
    n = len(g)
    scale = max(np.abs(B).max() * delta**2, np.abs(g).max() * delta)
    if scale == 0 or not np.isfinite(scale):
        return 0.0, scale
    Bs, gs = B * (delta**2 / scale), g * (delta / scale)
    e, v = np.linalg.eigh(Bs)
    w2 = (v.T @ gs) ** 2
    base = max(0.0, -e[0])
    sh = np.maximum(e + base, 0.0)  # shifted spectrum >= 0

    def dual(t):  # lam = base + t
        d = sh + t
        z = d > 0
        if np.any(w2[~z] > 0):
            return -np.inf
        return -0.5 * float(np.sum(w2[z] / d[z])) - 0.5 * (base + t)

    # concave in t: maximise over t >= 0 (log grid + golden section)
    grid = np.concatenate([[0.0], np.logspace(-20, 1 + np.log10(1 + np.sqrt(n)), 64)])
    vals = [dual(t) for t in grid]
    i = int(np.argmax(vals))
    lo, hi = grid[max(i - 1, 0)], grid[min(i + 1, len(grid) - 1)]
    best = vals[i]
    phi = (np.sqrt(5) - 1) / 2
    a, b = lo, hi
    c, d = b - phi * (b - a), a + phi * (b - a)
    fc, fd = dual(c), dual(d)
    for _ in range(90):
        if fc > fd:
            b, d, fd = d, c, fc
            c = b - phi * (b - a)
            fc = dual(c)
        else:
            a, c, fc = c, d, fd
            d = a + phi * (b - a)
            fd = dual(d)
    best = max(best, fc, fd)
    return best * scale, scale * n


def line_min(B, g, s, s0, delta):
    """minimum of q(s0 + t s) - over |s0 + t s| <= delta, by interval analysis"""
    B = 0.5 * (B + B.T)
    a = float(s @ s)
    b = float(s0 @ s)
    c = min(float(s0 @ s0) - delta**2, 0.0)
    disc = max(b * b - a * c, 0.0)
    r = np.sqrt(disc)
    q = -(b + np.copysign(r, b))
    ts = [q / a, (c / q) if q != 0 else 0.0]
    lo, hi = min(ts), max(ts)
    cand = [lo, hi]
    A = float(s @ B @ s)
    C = float(s @ (B @ s0 + g))
    if A > 0:
        t = -C / A
        if lo <= t <= hi:
            cand.append(t)
    vals = [q_of(B, g, s0 + t * s) for t in cand]
    return min(vals), lo, hi
