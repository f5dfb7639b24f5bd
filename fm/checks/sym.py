"""C28: the run does not depend on how the variables are ordered, oriented or the residuals arranged."""
import inspect
from collections import Counter

import numpy as np

from scipy.sparse import csc_matrix

from fides import StepBackStrategy, SubSpaceDim
from fides.trust_region import trust_region

from .. import cases, record
from ..spec import Model, same
from .base import VALUE_FAULTS, Check, make_faults, rand_faults, register, trace_sig
from .hess import drop_logger
from .sub import LOG, NEEDED, rand_step

NOISE = 1e-12
TWINS = 5


class View:
    """problem in renamed variables z = sign * x[perm], optionally with relative noise in the outputs"""

    def __init__(self, p, perm, sign, rperm=None, noise=0.0, seed=0):
        self.p, self.perm, self.sign, self.rperm = p, perm, sign, rperm
        self.inv = np.argsort(perm)
        self.noise, self.rng = noise, np.random.default_rng(seed)
        self.n, self.center = p.n, sign * np.asarray(p.center, float)[perm]
        self.bounded_below = p.bounded_below

    def x(self, z):
        return (self.sign * z)[self.inv]

    def jitter(self, a):
        return a * (1 + self.noise * self.rng.uniform(-1, 1, np.shape(a))) if self.noise else a

    def fgh(self, z):
        f, g, H = self.p.fgh(self.x(z))
        symmetric = same(H, H.T)
        H = self.jitter(H)
        if symmetric:
            H = np.triu(H) + np.triu(H, 1).T
        H = (self.sign[:, None] * H[np.ix_(self.perm, self.perm)]) * self.sign[None, :]
        return float(self.jitter(f)), self.sign * self.jitter(g)[self.perm], H

    def rj(self, z):
        r, J = self.p.rj(self.x(z))
        r, J = self.jitter(r), self.jitter(J)
        if self.rperm is not None:
            q = self.rperm[self.rperm < len(r)]
            if len(q) == len(r):
                r, J = r[q], J[q]
        return r.copy(), J[:, self.perm] * self.sign[None, :]


@register
class C28(Check):
    id = 'C28'
    n = {'quick': 1400, 'thorough': 28000}
    technique = 'runtime monitoring: paired runs on the same problem with renamed and mirrored variables (metamorphic oracle)'
    rule = (
        'random configuration run on a problem and on the same problem with its variables permuted, axes mirrored (bounds, '
        'start and initial Hessian alike) and residuals rearranged (three of four cases), and batches of 30 subproblems given to trust_region() alike (every fourth); evaluated points are compared after undoing the '
        'renaming, up to rounding, as long as five twins with relative noise 1e-12 in the objective agree with each other; '
        'non-trivial: three trials compared; distinct: by scheme, solver, strategy, bounds, path and flag'
    )

    def gen(self, rng, i, tier):
        if i % 4 == 3:
            return {'batch': int(rng.integers(2**31)), 'k': 30}
        spec = cases.gen(rng, nmax=5 if tier == 'quick' else 8, maxiter=(4, 30), refine_w=0.0)
        spec['n'] = max(spec['n'], int(rng.integers(1, 4)))
        if rng.random() < 0.15:
            spec['faults'] = rand_faults(rng, VALUE_FAULTS)
        if spec['options'].get('theta_max') == 1.0:  # steps that end exactly on a bound
            del spec['options']['theta_max']
        spec['vseed'] = int(rng.integers(2**31))
        spec['mirror'] = cases.pick(rng, ['none', 'all', 'some', 'some'])
        return spec

    def go(self, spec, perm, sign, rperm, noise=0.0, seed=0):
        b = cases.build(spec)
        b.problem = View(b.problem, perm, sign, rperm, noise, seed)
        n = spec['n']
        lb, ub = np.broadcast_to(b.lb, n).astype(float), np.broadcast_to(b.ub, n).astype(float)
        lo, hi = np.where(sign > 0, lb[perm], -ub[perm]), np.where(sign > 0, ub[perm], -lb[perm])
        b.lb, b.ub, b.x0 = lo, hi, sign * b.x0[perm]
        if isinstance(b.hess0, np.ndarray):
            b.hess0 = sign[:, None] * b.hess0[np.ix_(perm, perm)] * sign[None, :]
        rec = record.Recorder(b.problem, b.mode, faults=make_faults(spec, b.mode))
        opt = cases.make_opt(b, rec)
        t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
        drop_logger(opt)
        return b, t

    def converged(self, t, k):
        """is what decides the step to evaluation k at the level of rounding?"""
        c, p = t.calls[0], t.calls[min(k, len(t.calls)) - 1]
        pre = t.calls[k].get('pre') if k < len(t.calls) else t.final
        if pre is None or 'g' not in c:
            return False
        return np.linalg.norm(pre['grad']) <= 1e-9 * np.linalg.norm(c['g']) or abs(p.get('f', 1)) <= 1e-18 * abs(c['f'])

    def ambiguous(self, t, k, b, spec):
        """is the step to evaluation k a matter of convention?"""
        pre, c = t.calls[k].get('pre'), t.calls[k - 1]
        if pre is None:
            return ''
        for g in (pre['grad'], c.get('g', pre['grad'])):
            a = np.abs(g)
            if np.any(a == 0):
                return 'zero_gradient'  # a vanishing component belongs to the lower bound
            if a.min() < 1e-25 * a.max():
                return 'negligible_gradient'
        return self.tie(Model(pre['x'], pre['grad'], pre['hess'], b.lb, b.ub), spec['solver'], spec['stepback'], b.lb, b.ub)

    def tie(self, m, solver, stepback, lb, ub):
        if np.any(m.g == 0):
            return 'zero_gradient'
        if np.any(m.D == 0):
            return 'bound'
        if np.abs(m.sg).min() < 1e-14 * np.abs(m.sg).max():
            return 'negligible_gradient'  # its sign is a matter of rounding
        for bd in (lb, ub):
            if np.any(np.isfinite(bd) & (np.abs(m.x - bd) < 30 * np.spacing(np.abs(np.where(np.isfinite(bd), bd, 1))))):
                return 'bound'  # the distance to the bound is a matter of rounding
        e = np.abs(np.linalg.eigvals(m.M)) if np.all(np.isfinite(m.M)) else np.zeros(1)
        if not e.min() > 1e-10 * e.max():
            return 'ill_conditioned'
        if solver == '2D' and len(m.x) > 1 and np.all(np.isfinite(m.M)):
            e = np.linalg.eigvalsh(0.5 * (m.M + m.M.T))
            if e[0] <= 1e-10 * np.abs(e).max() and m.dv.sum() > 1 and stepback in ('truncate', 'mixed'):
                return 'equal_break_points'  # the second direction reaches all bounds at the same fraction
            if e[0] <= 1e-10 * np.abs(e).max() and e[1] - e[0] <= 1e-6 * np.abs(e).max():
                return 'repeated_eigenvalue'  # any eigenvector may serve as the direction of negative curvature
        return ''

    def compare(self, spec, perm, sign, rperm, cnt, base=0.0, seed=0, twins=True):
        """paired runs; returns violations, the run and the number of points compared"""
        one, ident = np.ones(spec['n']), np.arange(spec['n'])
        b, t = self.go(spec, ident, one, None, base, seed)
        bt, u = self.go(spec, perm, sign, rperm, base, seed)
        if any(np.ndim(c.get('g', one)) != 1 for c in t.calls + u.calls):
            return [], t, 0
        xs, ys = [c['x'] for c in t.calls], [bt.problem.x(c['x']) for c in u.calls]
        if len(xs) == len(ys) and all(same(p, q) for p, q in zip(xs, ys)):
            cnt['bitwise_equal_runs'] += 1
            cnt['points_compared'] += len(xs)
            cnt['flags_compared'] += 1
            v = []
            if t.final['exitflag'] != u.final['exitflag']:
                v.append(('flag', f"{t.final['exitflag'].name}, after renaming {u.final['exitflag'].name}"))
            return v, t, len(xs)
        cnt['tolerance_runs'] += 1
        tw = [self.go(spec, ident, one, None, NOISE, s + 1)[1] for s in range(TWINS)] if twins else []
        xt = [[c['x'] for c in w.calls] for w in tw]
        scale = 1e-300
        for k in range(max(len(xs), len(ys))):
            if k and self.converged(t, k):
                cnt['stopped_at_rounding_level'] += 1
                return [], t, k
            have = [len(q) > k for q in [xs] + xt]
            if len(set(have)) > 1:
                cnt['undecided_end'] += 1
                return [], t, k
            if have[0] != (len(ys) > k):
                return [('number', f'{len(xs)} evaluations, {len(ys)} after renaming')], t, k
            scale = max(scale, np.linalg.norm(xs[k] - xs[0])) if k else max(1e-300, np.linalg.norm(xs[0]))
            noise = max([np.linalg.norm(q[k] - xs[k]) for q in xt] or [0]) / scale
            if not noise <= 1e-9:
                cnt['stopped_at_sensitive_point'] += 1
                return [], t, k
            why = k and self.ambiguous(t, k, b, spec)
            if why:
                cnt['stopped_at_' + why] += 1
                return [], t, k
            cnt['points_compared'] += 1
            dv = np.linalg.norm(xs[k] - ys[k]) / scale
            if not dv <= 1e-6 + 1e3 * noise:
                return [('differs', f'evaluation {k}: {xs[k]!r}, after renaming {ys[k]!r} (sensitivity {noise:.1e})')], t, k
        v = []
        if tw and len({w.final['exitflag'] for w in tw + [t]}) == 1:
            cnt['flags_compared'] += 1
            if t.final['exitflag'] != u.final['exitflag']:
                v.append(('flag', f"{t.final['exitflag'].name}, after renaming {u.final['exitflag'].name}"))
        return v, t, len(xs)

    def propose(self, c, perm, sign, noise, rng):
        j = (lambda a: a * (1 + noise * rng.uniform(-1, 1, a.shape))) if noise else (lambda a: a)
        H, g = j(c['H']), j(c['g'])
        if same(c['H'], c['H'].T):
            H = np.triu(H) + np.triu(H, 1).T
        x, g, H = sign * c['x'][perm], sign * g[perm], sign[:, None] * H[np.ix_(perm, perm)] * sign[None, :]
        lb, ub = np.where(sign > 0, c['lb'][perm], -c['ub'][perm]), np.where(sign > 0, c['ub'][perm], -c['lb'][perm])
        m = Model(x, g, H, lb, ub)
        theta = max(c['theta_max'], 1 - np.abs(m.v * m.g).max())
        st = trust_region(
            x=x, g=g, hess=H, scaling=csc_matrix(np.diag(m.D)), delta=c['delta'], dv=m.dv, theta=theta, lb=lb, ub=ub,
            subspace_dim=SubSpaceDim(c['solver']), stepback_strategy=StepBackStrategy(c['stepback']), logger=LOG)
        return (sign * np.asarray(st.ss + st.ss0, float))[np.argsort(perm)]

    def run_batch(self, spec, cnt):
        if not set(NEEDED) <= set(inspect.signature(trust_region).parameters):
            cnt['trust_region_api_unavailable'] += 1
            return [], None
        rng = np.random.default_rng(spec['batch'])
        v, sig = [], []
        for k in range(spec['k']):
            c = rand_step(rng)
            n = len(c['x'])
            if rng.random() < 0.4:
                c['solver'] = '2D'
            if c['stepback'] == 'refine':
                c['stepback'] = 'mixed'
            perm, one = rng.permutation(n), np.ones(n)
            sign = np.where(rng.random(n) < 0.5, 1.0, -1.0)
            m = Model(c['x'], c['g'], c['H'], c['lb'], c['ub'])
            why = self.tie(m, c['solver'], c['stepback'], c['lb'], c['ub'])
            if why:
                cnt['proposals_excepted_' + why] += 1
                continue
            a = self.propose(c, np.arange(n), one, 0, rng)
            b = self.propose(c, perm, sign, 0, rng)
            cnt['proposals_compared'] += 1
            sig.append((c['kind'], c['gk'], c['bk'], c['solver'], c['stepback'], n))
            scale = np.linalg.norm(a) + np.linalg.norm(b)
            if np.linalg.norm(a - b) <= 1e-6 * scale:
                continue
            tw = [self.propose(c, np.arange(n), one, NOISE, rng) for _ in range(TWINS)]
            if not max(np.linalg.norm(w - a) for w in tw) <= 1e-9 * scale:
                cnt['proposals_sensitive'] += 1
                continue
            again = 0
            for _ in range(4):  # persists nearby?
                d = dict(c, g=c['g'] * (1 + 1e-6 * rng.uniform(-1, 1, n)))
                p, q = self.propose(d, np.arange(n), one, 0, rng), self.propose(d, perm, sign, 0, rng)
                again += bool(np.linalg.norm(p - q) > 1e-6 * scale)
            if again < 3:
                cnt['not_reproduced_nearby'] += 1
                continue
            v.append(('proposal', f'{a!r}, after renaming {b!r} (mirror {sign!r}, order {perm!r}): proposal {k} {c["kind"]}/{c["gk"]}/{c["bk"]} {c["solver"]} {c["stepback"]} n={n} delta={c["delta"]!r}'))
        return v, tuple(sig) if len(sig) >= 3 else None

    def run(self, spec, cnt):
        if 'batch' in spec:
            return self.run_batch(spec, cnt)
        n = spec['n'] = int(cases.build(spec).problem.n)
        rng = np.random.default_rng(spec['vseed'])
        one = np.ones(n)
        perm = rng.permutation(n)
        sign = {'none': one, 'all': -one, 'some': np.where(rng.random(n) < 0.5, 1.0, -1.0)}[spec['mirror']]
        rperm = rng.permutation(64)
        v, t, k = self.compare(spec, perm, sign, rperm, cnt)
        if v:
            # the difference has to persist on nearby problems, otherwise it is a matter of rounding at this one
            quiet = Counter()
            again = [self.compare(spec, perm, sign, rperm, quiet, 1e-6, s + 1, False)[0] for s in range(4)]
            if sum(map(bool, again)) < 2:
                cnt['not_reproduced_nearby'] += 1
                v = []
        v = [(c, f'{m} (mirror {sign!r}, order {perm!r})') for c, m in v]
        return v, (spec['mirror'],) + trace_sig(spec, t) if k > 3 else None
