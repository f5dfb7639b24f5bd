"""C25-C27: convergence, clean termination, progress log."""
import io
import logging
import os
import re
import sys
import zlib
from collections import Counter

import numpy as np

from fides import ExitFlag

from .. import cases, loops, oracles, record
from ..spec import disp, same
from . import sub
from .base import VALUE_FAULTS, Check, make_faults, moderate, rand_faults, register, trace_of, trace_sig
from .hess import drop_logger


def strong(kind, rng, n):
    """strongly convex problem with modulus m: (fgh, rj or None, center, m)"""
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    e = 10 ** rng.uniform(-1, 1, n)
    H = Q @ np.diag(e) @ Q.T
    H = (H + H.T) / 2
    c = rng.normal(size=n) * 10 ** rng.uniform(-0.5, 0.7)
    m = e.min()
    s = 10 ** rng.uniform(-2, 2)  # overall scale of the objective
    if kind == 'qp':
        return lambda x: (float(s * 0.5 * (x - c) @ H @ (x - c)), s * H @ (x - c), s * H), None, c, s * m
    if kind == 'quartic':
        q = 10 ** rng.uniform(-2, 0)
        return lambda x: (
            float(s * (0.5 * (x - c) @ H @ (x - c) + q * np.sum((x - c) ** 4))),
            s * (H @ (x - c) + 4 * q * (x - c) ** 3), s * (H + np.diag(12 * q * (x - c) ** 2))), None, c, s * m
    if kind == 'softplus':
        A = rng.normal(size=(n + 2, n))

        def fgh(x):
            z = A @ (x - c)
            p = 1 / (1 + np.exp(-z))
            return (float(s * (np.sum(np.logaddexp(0, z)) + 0.5 * (x - c) @ H @ (x - c))),
                    s * (A.T @ p + H @ (x - c)), s * (A.T @ np.diag(p * (1 - p)) @ A + H))

        return fgh, None, c, s * m
    if kind == 'sqrt':
        def fgh(x):
            d = x - c
            w = np.sqrt(1 + d**2)
            return (float(s * (np.sum(w) + 0.5 * d @ H @ d)), s * (d / w + H @ d), s * (np.diag(1 / w**3) + H))

        return fgh, None, c, s * m
    L = np.linalg.cholesky(H).T
    k = int(rng.integers(0, 3))
    A = np.vstack([L, 0.3 * rng.normal(size=(k, n))])
    off = np.concatenate([np.zeros(n), rng.normal(size=k)]) * rng.choice([0.0, 1.0, 3.0])
    r_s = np.sqrt(s)
    if kind == 'ls':
        return None, lambda x: (r_s * (A @ (x - c) + off), r_s * A), c, s * m
    q = 10 ** rng.uniform(-1.5, 0)  # ls4: extra residuals q (x-c)^2, convex after squaring

    def rj(x):
        d = x - c
        return (r_s * np.concatenate([A @ d, q * d**2]), r_s * np.vstack([A, np.diag(2 * q * d)]))

    return None, rj, c, s * m


def gap(x, g, m, lb, ub):
    """rigorous bound of f(x) - min f over the box, from strong convexity with modulus m"""
    lo, hi = lb - x, ub - x
    d = np.clip(-g / m, lo, hi)
    return float(np.sum(-(g * d + 0.5 * m * d**2)))


def reference(fg, fh, x, m, lb, ub):
    """projected Newton from x -> smallest certified interval for the minimum value"""
    best = (np.inf, -np.inf)
    f, g, H = fh(x)
    for _ in range(200):
        gp = gap(x, g, m, lb, ub)
        best = (min(best[0], f), max(best[1], f - gp))
        if gp <= 1e-12 * (1 + abs(f)):
            break
        act = (x <= lb) & (g > 0) | (x >= ub) & (g < 0)
        fr = ~act
        d = np.zeros(len(x))
        if not fr.any():
            break
        d[fr] = -np.linalg.solve(H[np.ix_(fr, fr)], g[fr])
        for dd in (d, -g * np.where(act, 0, 1) / np.linalg.norm(H, 2)):
            t = 1.0
            done = False
            while t > 1e-12:
                xn = np.clip(x + t * dd, lb, ub)
                fn, gn, Hn = fh(xn)
                if fn <= f + 1e-4 * g @ (xn - x) and np.any(xn != x):
                    x, f, g, H = xn, fn, gn, Hn
                    done = True
                    break
                t /= 2
            if done:
                break
        if not done:
            break
    return best


@register
class C25(Check):
    id = 'C25'
    n = {'quick': 2400, 'thorough': 25000}
    limit = 60.0
    technique = 'runtime monitoring: end point of default runs judged by a strong-convexity duality-gap certificate'
    rule = (
        'random strongly convex problem (quadratic, quartic, softplus, square-root, linear and quartic least squares; '
        'condition up to 1e2 before nonlinear terms), random bounds and feasible start, every solver x strategy x scheme '
        'combination, default options; the value reached is compared with a certified interval for the constrained '
        'minimum; non-trivial: the start was not optimal; distinct: by problem kind, scheme, solver, strategy, bounds, '
        'start, dimension and number of evaluations'
    )

    TOL = 1e-3

    def gen(self, rng, i, tier):
        sch = cases.pick(rng, [q for q in cases.SCHEMES if q != 'BB'] + ['GN'])
        while True:
            so, sb = cases.pick(rng, cases.SOLVERS), cases.pick(rng, cases.STEPBACKS)
            if not (so == 'scg' and sb == 'refine') and (sb != 'refine' or rng.random() < 0.3):
                break
        mode = cases.mode_of(sch)
        return {'problem': cases.pick(rng, ['ls', 'ls4'] if mode == 'res' else ['qp', 'quartic', 'softplus', 'sqrt']),
                'pseed': int(rng.integers(2**31)), 'bseed': int(rng.integers(2**31)),
                'n': int(rng.integers(1, 6 if tier == 'quick' else 11)), 'scheme': sch, 'solver': so, 'stepback': sb,
                'bounds': cases.pick(rng, ['none', 'box', 'box', 'lower', 'upper', 'mixed', 'mixed', 'exclude', 'exclude', 'zero', 'tight']),
                'x0kind': cases.pick(rng, cases.X0)}

    def run(self, spec, cnt):
        rng = np.random.default_rng(spec['pseed'])
        n = spec['n']
        fgh, rj, c, m = strong(spec['problem'], rng, n)
        P = cases.problems.Problem('strong', n, fgh=fgh, rj=rj, center=c)
        b = cases.Built()
        b.spec, b.problem, b.mode, b.hess0 = spec, P, cases.mode_of(spec['scheme']), None
        rng = np.random.default_rng(spec['bseed'])
        b.lb, b.ub = cases.rand_bounds(rng, n, c, spec['bounds'])
        b.x0 = cases.rand_x0(rng, b.lb, b.ub, c, spec['x0kind'])
        b.options = {'subspace_solver': spec['solver'], 'stepback_strategy': spec['stepback']}
        rec = record.Recorder(P, b.mode, peek=False)
        opt = cases.make_opt(b, rec)
        t = record.run_min(opt, rec, b.x0)
        drop_logger(opt)
        if t.exc is not None:
            return [('raised', repr(t.exc))], None
        f0 = t.calls[0]['f']
        f, x, g = t.ret[0], t.ret[1], t.ret[2]
        cnt['runs'] += 1
        cnt['evaluations_observed'] += len(t.calls)
        cnt['flag_' + t.final['exitflag'].name] += 1
        if rj is not None:
            def fh(x):
                r, J = rj(x)
                return 0.5 * r @ r, r @ J, J.T @ J
        else:
            fh = fgh
        gp = gap(x, np.asarray(g), m, b.lb, b.ub)
        lo = f - gp
        if gp > 1e-9 * (abs(f0 - f) + 1e-30):
            up, lo = reference(None, fh, np.array(x), m, b.lb, b.ub)
            cnt['reference_solves'] += 1
            up = min(up, f)
        decr = f0 - lo  # at least the decrease that was possible
        err = f - lo
        spec['_err'] = (err, decr, len(t.calls), t.final['exitflag'].name)
        v = []
        if err > self.TOL * decr + 3e-6 * (1 + abs(f)):
            v.append(('not_converged', f"{t.final['exitflag'].name} after {len(t.calls)} evaluations: value {f!r}, minimum >= {lo!r} (start {f0!r})"))
        return v, (spec['problem'], spec['scheme'], spec['solver'], spec['stepback'], spec['bounds'], spec['x0kind'], n, len(t.calls)) if len(t.calls) > 2 else None


# C26 ------------------------------------------------------------------------
def hashed(x, salt):
    return np.random.default_rng([zlib.crc32(np.ascontiguousarray(x).tobytes()), salt])


def sym(a):
    return (a + a.T) / 2


def hostile(kind, seed, n):
    """well-formed finite objectives of unfriendly shape: (fgh, rj or None)"""
    rng = np.random.default_rng(seed)
    sc = 10 ** rng.uniform(-9, 9) if rng.random() < 0.5 else 1.0
    A = sym(rng.normal(size=(n, n)))
    c = rng.normal(size=n)
    k = kind
    if k == 'const':
        return lambda x: (sc, np.zeros(n), np.zeros((n, n)))
    if k == 'linear0':
        return lambda x: (sc * float(c @ x), sc * c, np.zeros((n, n)))
    if k == 'axis':  # gradient with exact zeros, singular Hessian
        m = rng.random(n) < 0.5
        d = np.where(rng.random(n) < 0.5, 0.0, np.round(3 * c))
        return lambda x: (sc * float(0.5 * x @ (d * x) + np.where(m, c, 0) @ x), sc * (d * x + np.where(m, c, 0)), sc * np.diag(d))
    if k == 'negdef':
        return lambda x: (sc * float(-0.5 * x @ x + c @ x), sc * (c - x), -sc * np.eye(n))
    if k == 'indefquad':
        return lambda x: (sc * float(0.5 * x @ A @ x + c @ x), sc * (A @ x + c), sc * A)
    if k == 'nullgrad':  # gradient entirely in the null space of the Hessian
        u = np.linalg.qr(rng.normal(size=(n, n)))[0]
        e = np.where(np.arange(n) % 2, rng.choice([1.0, -1.0, 1e-9]), 0.0)
        H = u @ np.diag(e) @ u.T
        g = u[:, 0] * sc
        return lambda x: (float(g @ x), g.copy(), H)
    if k == 'noise':
        return lambda x: (lambda r: (sc * float(x @ x + r.normal()), sc * 2 * x, sc * 2 * np.eye(n)))(hashed(x, seed))
    if k == 'randomH':
        def f(x):
            r = hashed(x, seed)
            return sc * float(x @ x), sc * 2 * x, sc * sym(r.normal(size=(n, n))) * 10 ** r.uniform(-6, 6)
        return f
    if k == 'nonsymH':
        return lambda x: (sc * float(x @ x), sc * 2 * x, sc * hashed(x, seed).normal(size=(n, n)))
    if k == 'liar':  # gradient unrelated to the value
        def f(x):
            r = hashed(x, seed)
            return sc * float(np.sum(np.cos(x))), r.normal(size=n) * 10 ** r.uniform(-9, 3), sym(r.normal(size=(n, n)))
        return f
    if k == 'random':
        def f(x):
            r = hashed(x, seed)
            return sc * float(r.normal()), sc * r.normal(size=n), sc * sym(r.normal(size=(n, n)))
        return f
    if k == 'stairs':
        return lambda x: (sc * float(np.sum(np.floor(np.abs(x - c)))), sc * np.sign(x - c), np.zeros((n, n)))
    if k == 'abs':
        return lambda x: (sc * float(np.sum(np.abs(x - c))), sc * np.sign(x - c), np.zeros((n, n)))
    if k == 'descent':  # every trial is better than everything before
        st = [0]

        def f(x):
            st[0] += 1
            return -sc * st[0], sc * c, sc * A
        return f
    if k == 'huge':
        s2 = 10 ** rng.uniform(9, 20)
        return lambda x: (float(0.5 * s2 * (x - c) @ (x - c)), s2 * (x - c), s2 * np.eye(n))
    if k == 'tiny':
        s2 = 10 ** rng.uniform(-40, -9)
        return lambda x: (float(s2 * (0.5 * x @ A @ x + c @ x)), s2 * (A @ x + c), s2 * A)
    if k == 'mixedscale':
        w = 10 ** rng.uniform(-8, 8, n) * np.where(rng.random(n) < 0.3, -1, 1)
        return lambda x: (float(0.5 * (x - c) @ (w * (x - c))), w * (x - c), np.diag(w))
    if k == 'ints':
        B = np.round(2 * A)
        d = np.round(2 * c)
        return lambda x: (float(0.5 * x @ B @ x + d @ x), B @ x + d, B)
    if k == 'zerograd':
        return lambda x: (sc * float(hashed(x, seed).normal()), np.zeros(n), sc * A)
    raise KeyError(kind)


HOSTILE = ['const', 'linear0', 'axis', 'negdef', 'indefquad', 'nullgrad', 'noise', 'randomH', 'nonsymH', 'liar', 'random',
           'stairs', 'abs', 'descent', 'huge', 'tiny', 'mixedscale', 'ints', 'zerograd']


def hostile_ls(kind, seed, n):
    rng = np.random.default_rng(seed)
    m = int(rng.integers(1, n + 3))
    sc = 10 ** rng.uniform(-6, 6) if rng.random() < 0.5 else 1.0
    A = rng.normal(size=(m, n))
    b = rng.normal(size=m)
    if kind == 'zeroJ':
        return lambda x: (sc * b, np.zeros((m, n)))
    if kind == 'exact':  # zero residual at a corner of the integer grid
        A = np.round(2 * A)
        return lambda x: (A @ x, A)
    if kind == 'zeror':
        return lambda x: (np.zeros(m), A)
    if kind == 'rank1':
        A = np.outer(b, rng.normal(size=n))
        return lambda x: (sc * (A @ x - b), sc * A)
    if kind == 'noise':
        return lambda x: (sc * (A @ x - b + 0.1 * hashed(x, seed).normal(size=m)), sc * A)
    if kind == 'randomJ':
        return lambda x: (sc * (A @ x - b), sc * hashed(x, seed).normal(size=(m, n)))
    if kind == 'random':
        return lambda x: (lambda r: (sc * r.normal(size=m), sc * r.normal(size=(m, n))))(hashed(x, seed))
    if kind == 'const':
        return lambda x: (sc * b, sc * A)
    if kind == 'stairs':
        return lambda x: (np.floor(A @ x - b), A)
    if kind == 'cubic':
        return lambda x: (sc * ((A @ x) ** 3 - b), sc * 3 * (A @ x)[:, None] ** 2 * A)
    raise KeyError(kind)


HOSTILE_LS = ['zeroJ', 'exact', 'zeror', 'rank1', 'noise', 'randomJ', 'random', 'const', 'stairs', 'cubic']
LIMIT = 100000


def runaway(kind, seed, n):
    """objectives without lower bound that stay finite for very large arguments"""
    rng = np.random.default_rng(seed)
    g = rng.normal(size=n) * 10 ** rng.uniform(-3, 3)
    w = rng.uniform(0.1, 2, n)

    def linear(x):
        return float(g @ x), g.copy(), np.zeros((n, n))

    def concave(x):
        # -sum w log(1 + x^2) - linear part, curvature vanishes
        q = np.minimum(np.abs(x), 1e150)
        return (float(g @ x - w @ np.log1p(q**2)), g - 2 * w * x / (1 + q**2), np.diag(-2 * w * (1 - q**2) / (1 + q**2) / (1 + q**2)))

    def cone(x):
        # minus a smoothed norm
        a = np.hypot(1.0, np.linalg.norm(x))
        u = x / a
        return -float(a) + float(g @ x), g - u, -(np.eye(n) - np.outer(u, u)) / a

    return {'linear': linear, 'concave': concave, 'cone': cone}[kind]


@register
class C26(Check):
    id = 'C26'
    n = {'quick': 3000, 'thorough': 50000}
    limit = 40.0
    technique = ('runtime monitoring: branch and call counters (sys.monitoring) inside fides between evaluations, finiteness '
                 'and exit-flag monitors on hostile objectives')
    rule = (
        'alternating: random runs on 19 hostile objectives, 10 hostile residual functions and the ordinary families in any '
        'configuration; batches of 20 random subproblems given to trust_region(); a run counts as hanging when more than '
        f'{LIMIT} branches, jumps and calls are executed inside fides between two evaluations; non-trivial: three trials '
        'or proposals; distinct: by objective, configuration and path, or by the sequence of kinds'
    )

    def gen(self, rng, i, tier):
        if i % 5 == 4:
            return {'batch': int(rng.integers(2**31)), 'k': 20}
        spec = cases.gen(rng, nmax=6 if tier == 'quick' else 10, maxiter=(5, 40), refine_w=0.2,
                         problems_=[q for q in cases.problems.ALL if q != 'barrier'],
                         bounds=cases.BOUNDS + ['narrow', 'bigmag'])
        if rng.random() < 0.05 and cases.mode_of(spec['scheme']) != 'res':
            # unbounded from below: steps and radius grow as long as the run lasts
            spec['runaway'] = cases.pick(rng, ['linear', 'linear', 'concave', 'cone'])
            spec['options'].update(maxiter=int(rng.integers(50, 700)), gamma2=float(10 ** rng.uniform(0.1, 2 if rng.random() < 0.8 else 60)))
            spec['bounds'] = cases.pick(rng, ['none', 'none', 'lower', 'upper', 'mixed'])
            if rng.random() < 0.2:
                spec['options']['delta_init'] = float(10 ** rng.uniform(100, 308))
        elif rng.random() < 0.75:
            spec['hostile'] = cases.pick(rng, HOSTILE_LS if cases.mode_of(spec['scheme']) == 'res' else HOSTILE)
        spec['hist'] = bool(rng.random() < 0.3)
        spec['verbose'] = cases.pick(rng, [logging.DEBUG, logging.INFO, logging.CRITICAL + 1])
        return spec

    def run(self, spec, cnt):
        with loops.Counter(LIMIT) as lc:
            try:
                if 'batch' in spec:
                    v, sig = sub.run_batch(spec, cnt, 'clean')
                    v = list(v)
                else:
                    v, sig = self.one(spec, cnt, lc)
            except loops.Runaway as e:
                return [('runaway', str(e))], None
        cnt['branches_counted'] += lc.total
        cnt['max_branches_per_case<=1e3' if lc.max <= 1e3 else 'max_branches_per_case<=1e4' if lc.max <= 1e4 else 'max_branches_per_case<=1e5' if lc.max <= 1e5 else 'max_branches_per_case>1e5'] += 1
        return v, sig

    def one(self, spec, cnt, lc):
        b = cases.build(spec)
        if 'hostile' in spec:
            n = spec['n']
            if b.mode == 'res':
                b.problem = cases.problems.Problem('h', n, rj=hostile_ls(spec['hostile'], spec['pseed'], n))
            else:
                b.problem = cases.problems.Problem('h', n, fgh=hostile(spec['hostile'], spec['pseed'], n))
        if 'runaway' in spec:
            b.problem = cases.problems.Problem('r', spec['n'], fgh=runaway(spec['runaway'], spec['pseed'], spec['n']))
        hist = None
        if spec.get('hist'):
            hist = os.path.join(record.scratch_dir(), f'c26-{os.getpid()}.h5')
        try:
            b, t = trace_of(spec, b=b, on_call=lambda i: lc.reset(), history=hist, verbose=spec['verbose'])
        finally:
            if hist and os.path.exists(hist):
                os.remove(hist)
                cnt['runs_with_history_file'] += 1
        drop_logger(t.opt)
        cnt['runs'] += 1
        cnt['evaluations_observed'] += len(t.calls)
        if 'runaway' in spec:
            cnt['runaway_runs'] += 1
            cnt['runaway_radius_above_1e65'] += t.final['delta'] > 1e65
        elif not moderate(t):
            cnt['skipped_huge_data'] += 1
            return [], None
        v = []
        flag = t.final['exitflag']
        cnt['exit_' + flag.name] += 1
        if t.exc is not None:
            v.append(('raised', f'{t.exc!r} after {len(t.calls)} evaluations, flag {flag.name}'))
        else:
            v += list(oracles.o_finite(b, t, Counter()))
            v += [q for q in oracles.o_exit(b, t, Counter()) if q[0].startswith(('false', 'flag', 'converged'))]
        return v, (spec.get('hostile', spec['problem']),) + trace_sig(spec, t) if len(t.calls) > 3 else None


# C27 ------------------------------------------------------------------------
LINE = re.compile(r'^(\S+ \S+) fides\((\w+)\) ?(.*)$', re.S)
FIELDS = re.compile(
    r'^\s*(\d+)\|\s*([^|]+?)\s*\|\s*([^|]+?)\s*\|\s*([^|]+?)\s*\|\s*([^|]+?)\s*\|\s*([^|]+?)\s*\|\s*([^|]+?)\s*\|\s*([^|]+?)\s*\|\s*(\d)\s*$')
HEAD = re.compile(r'^\s*iter\s*\|[^|]*fval[^|]*\|[^|]*\|[^|]*ratio')
REASON = {
    'FTOL': 'function difference', 'XTOL': 'norm of step', 'GTOL': 'gradient norm', 'MAXITER': 'maximum number of iterations',
    'MAXTIME': 'maximum runtime', 'DELTA_TOO_SMALL': 'trust region radius',
}


def shown(text, want, digits, slack=0.0):
    """does the printed number agree with want up to the printed precision (or slack)?"""
    try:
        p = float(text)
    except ValueError:
        return False
    want = float(want)
    if np.isnan(want):
        return np.isnan(p)
    if not np.isfinite(want):
        return p == want
    ulp = 0.0 if want == 0 else 10.0 ** (np.floor(np.log10(max(abs(want), 1e-320))) - digits)
    return abs(p - want) <= 0.501 * ulp + slack


@register
class C27(Check):
    id = 'C27'
    n = {'quick': 3500, 'thorough': 30000}
    technique = 'runtime monitoring: the log stream of every run parsed and checked against the recorded trace'
    rule = (
        'random configuration with random verbosity, one to three runs of one optimizer; the standard error stream is '
        'captured and every record parsed; non-trivial: a run at INFO or DEBUG with three iterations, or a quiet level; '
        'distinct: by level, scheme, solver, strategy, path and flag'
    )

    def gen(self, rng, i, tier):
        spec = cases.gen(rng, nmax=4, maxiter=(0, 40), refine_w=0.1)
        if rng.random() < 0.1:
            spec['options']['maxiter'] = int(rng.integers(0, 3))
        if rng.random() < 0.1:
            spec['options']['maxtime'] = 0.0
        if rng.random() < 0.25:
            spec['faults'] = rand_faults(rng, VALUE_FAULTS)
        if rng.random() < 0.1:
            spec['options']['gamma1'] = 1e-8  # vanishing radius
            spec['faults'] = rand_faults(rng, VALUE_FAULTS, p=0.8)
        spec['verbose'] = cases.pick(rng, [logging.DEBUG, logging.INFO, logging.INFO, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL])
        spec['runs'] = int(rng.integers(1, 4))
        spec['exc'] = int(rng.integers(0, 6)) if rng.random() < 0.1 else None
        return spec

    def run(self, spec, cnt):
        b = cases.build(spec)
        rec = record.Recorder(b.problem, b.mode)
        old = sys.stderr
        v, sig = [], None
        loggers = []
        try:
            sys.stderr = io.StringIO()
            opt = cases.make_opt(b, rec, verbose=spec['verbose'])
            for r in range(spec['runs']):
                sys.stderr = stream = io.StringIO()
                base = len(rec.calls)
                rec.faults = {base + k: f for k, f in make_faults(spec, b.mode).items()}
                if spec['exc'] is not None and r == 0:
                    def err(out):
                        raise record.ObjectiveError('planned')
                    rec.faults[base + spec['exc']] = err
                seen = []
                rec.on_call = lambda i: seen.append(opt.logger) if len(seen) == 0 else None
                t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
                loggers.append((opt.logger, opt.logger.name, list(opt.logger.handlers)))
                v += [(k, f'run {r}, level {spec["verbose"]}: {m}') for k, m in self.judge(spec, b, t, stream.getvalue(), cnt)]
                if opt.logger.level != spec['verbose']:
                    v.append(('level', f'logger level {opt.logger.level}, requested {spec["verbose"]}'))
                if len(t.calls) > 3:
                    sig = (spec['verbose'],) + trace_sig(spec, t)
            if len({id(lg) for lg, *_ in loggers}) < len(loggers):
                v.append(('own_logger', f'{len(loggers)} runs logged through {len({id(lg) for lg, *_ in loggers})} loggers'))
        finally:
            sys.stderr = old
            for lg, name, hs in loggers:
                for h in hs:
                    lg.removeHandler(h)
                logging.Logger.manager.loggerDict.pop(name, None)
        return v, sig

    def judge(self, spec, b, t, text, cnt):
        level = spec['verbose']
        recs = []
        for ln in text.splitlines():
            m = LINE.match(ln)
            if m:
                recs.append([m.group(2), m.group(3)])
            elif recs:
                recs[-1][1] += '\n' + ln
            elif ln.strip():
                yield 'format', f'unexpected output {ln!r}'
        cnt['records_parsed'] += len(recs)
        for lv, msg in recs:
            if getattr(logging, lv, 0) < level:
                yield 'verbosity', f'{lv} record emitted: {msg!r}'
        prog = []
        for lv, msg in recs:
            m = FIELDS.match(msg)
            if m:
                prog.append((lv, m.groups()))
        # the header precedes the start line and every tenth iteration line
        for j, (lv, msg) in enumerate(recs):
            m = FIELDS.match(msg)
            if m and level <= logging.INFO:
                head = j > 0 and HEAD.match(recs[j - 1][1]) is not None
                cnt['headers_checked'] += head
                if head != (int(m.group(1)) % 10 == 0):
                    yield 'header', f'iteration {m.group(1)} {"has a" if head else "lacks its"} header'
        stops = [(lv, msg) for lv, msg in recs if msg.startswith('Stopping')]
        flag = t.final['exitflag']
        K = len(t.calls) - 1
        if level > logging.INFO:
            if prog:
                yield 'verbosity', f'{len(prog)} progress lines above INFO level'
            if level <= logging.WARNING and t.exc is None and flag.name in ('MAXITER', 'MAXTIME', 'DELTA_TOO_SMALL') and len(stops) != 1:
                yield 'reason', f'{flag.name}: {stops!r}'
            cnt['quiet_runs'] += 1
            return
        if t.exc is None:
            if len(stops) != 1:
                yield 'reason', f'{flag.name}: {len(stops)} reasons logged: {stops!r}'
            elif flag.name in REASON and REASON[flag.name] not in stops[0][1]:
                yield 'reason', f'flag {flag.name} but logged {stops[0][1]!r}'
            else:
                cnt['reasons_checked'] += 1
        elif stops:
            yield 'reason', f'run raised {t.exc!r} but logged {stops!r}'
        # progress lines: the start and every completed iteration, once and in order
        its = [int(f[0]) for _, f in prog]
        done = K if t.exc is None else max(K - 1, 0)
        want = list(range(done + 1)) if t.calls and (t.exc is None or K > 0) else None
        if want is not None and its != want:
            if not (t.exc is not None and its == want + [K]):
                yield 'lines', f'progress lines for iterations {its[:60]}, {done} iterations completed'
                return
        f0 = t.calls[0].get('f') if t.calls else None
        d0 = oracles.opt_of(b, 'delta_init')
        if prog and its[0] == 0 and f0 is not None:
            q = prog[0][1]
            c = t.calls[0]
            if not shown(q[1], c['f'], 2) or not shown(q[5], np.linalg.norm(c['g']), 1) or not shown(q[4], d0, 1) or (
                    q[8] != str(int(np.isfinite(c['f'])))):
                yield 'start_line', f'{q!r} for f={c["f"]!r} |g|={np.linalg.norm(c["g"])!r} radius {d0!r}'
        by = {int(f[0]): f for _, f in prog}
        for k, c, pre, post, last in oracles.trials(t):
            if k not in by or last and t.exc is not None:
                continue
            q = by[k]
            cnt['progress_lines_checked'] += 1
            acc = not (same(pre['x'], post['x']) and same(pre['fval'], post['fval']))
            s, se = disp(pre['x'], c['x'])
            ns = np.linalg.norm(s)
            fin = bool(np.isfinite(c['f']))
            ftol = 1e-12 * (abs(c['f']) + abs(pre['fval'])) if b.mode == 'res' and fin else 0.0
            bad = []
            if not shown(q[1], post['fval'], 2, ftol):
                bad.append(f"value {q[1]}, is {post['fval']!r}")
            if fin and not shown(q[2], c['f'] - pre['fval'], 1, ftol + 1e-300):
                bad.append(f"difference {q[2]}, is {c['f'] - pre['fval']!r}")
            if not shown(q[3], post['tr_ratio'], 1):
                bad.append(f"ratio {q[3]}, is {post['tr_ratio']!r}")
            if not shown(q[4], pre['delta'], 1):
                bad.append(f"radius {q[4]}, used {pre['delta']!r}")
            if not any(shown(q[5], np.linalg.norm(g), 1) for g in (pre['grad'], post['grad'])):
                bad.append(f"|g| {q[5]}, is {np.linalg.norm(pre['grad'])!r}")
            if not shown(q[6], ns, 1, float(np.linalg.norm(se))):
                bad.append(f"|step| {q[6]}, is {ns!r}")
            if not same(pre['x'], c['x']) and q[8] != str(int(acc)):
                bad.append(f'acceptance mark {q[8]}, accepted {acc}')
            if bad:
                yield 'line', f'iter {k}: {"; ".join(bad)} in {"|".join(q)!r}'
