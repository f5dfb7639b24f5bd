"""C29: what each step-back strategy adds to the trust-region step."""
import inspect

import numpy as np
from scipy.sparse import csc_matrix

from fides import StepBackStrategy, SubSpaceDim
from fides.trust_region import trust_region

from ..spec import Model
from ..subprob import q_of
from .base import Check, register
from .sub import LOG, NEEDED, rand_step


class Ambiguous(Exception):
    pass


def tr_solve(B, g, delta):
    """exact minimiser of the quadratic over the ball, if it is well determined"""
    if len(g) == 0:
        return np.zeros(0)
    B = 0.5 * (B + B.T)
    e, v = np.linalg.eigh(B)
    w = -(v.T @ g)
    emax, nw = np.abs(e).max(), np.linalg.norm(w)
    if nw == 0 or delta == 0 or not np.all(np.isfinite(e)):
        raise Ambiguous
    if e[0] > 0:
        if e[0] < 1e-8 * emax:
            raise Ambiguous
        z = w / e
        if np.linalg.norm(z) <= delta:
            return v @ z
    elif np.abs(w[e - e[0] <= 1e-6 * emax]).max() < 1e-5 * nw:
        raise Ambiguous  # (nearly) hard case
    lo, hi = max(0.0, -e[0]), max(0.0, -e[0]) + nw / delta * 1.0001
    for _ in range(200):
        lam = 0.5 * (lo + hi)
        d = e + lam
        with np.errstate(all='ignore'):
            long = np.any(d <= 0) or np.linalg.norm(w / d) > delta
        lo, hi = (lam, hi) if long else (lo, lam)
    z = w / (e + hi)
    if not 0 < np.linalg.norm(z) < np.inf:
        raise Ambiguous
    return v @ z * (delta / np.linalg.norm(z))


def hit(m, lb, ub, s0, ss, theta, at_bound=(), twins=None):
    """fraction of the step at which the first variables reach their bound, and which ones"""
    s, x = m.D * ss, m.x + s0
    room = np.where(s > 0, ub - x, x - lb)
    for i in at_bound:
        if abs(room[i]) <= 1e-12 * max(1.0, abs(x[i])):
            room[i] = 0.0
    br = np.where(s != 0, room / np.where(s != 0, np.abs(s), 1.0), np.inf)
    first = br.min()
    ix = np.flatnonzero(br <= first * (1 + 1e-6)) if np.isfinite(first) else np.array([0])
    if len(ix) > 1 and (twins is None or not set(ix) <= twins):
        raise Ambiguous  # which of them comes first is a matter of rounding
    if abs(theta * first - 1) < 1e-6 or np.abs(ss[ix]).max() < 1e-5 * np.linalg.norm(ss) and theta * first < 1:
        raise Ambiguous
    return first, ix, min(1.0, theta * first)


def truncations(m, lb, ub, delta, theta, V=None, twins=None, start=None):
    """points of the path: stop the variables that hit first, solve again for the others (within span V)"""
    n = len(m.x)
    M = 0.5 * (m.M + m.M.T)
    free, ss0, out = np.ones(n, bool), np.zeros(n), []
    V = np.eye(n) if V is None else V
    try:
        while free.any():
            if ss0 @ ss0 > delta**2 * (1 - 1e-8):
                break
            if start is not None and not len(out):
                ss, U = start, None
            else:
                U, sv, _ = np.linalg.svd(V * free[:, None], full_matrices=False)
                if len(out) and V.shape[1] < n and sv.min() < 1e-5 * sv.max():
                    raise Ambiguous
                U = U[:, sv > 1e-5 * sv.max()]
                U[~free] = 0.0
                ss = U @ tr_solve(U.T @ M @ U, U.T @ (m.sg + M @ ss0), np.sqrt(max(0.0, delta**2 - ss0 @ ss0)))
            if np.linalg.norm(ss) <= 1e-3 * np.linalg.norm(ss0):
                raise Ambiguous
            # later ties are a matter of rounding
            br, ix, a = hit(m, lb, ub, m.D * ss0, ss, theta, twins=None if out else twins)
            out.append((ss0 + a * ss, int((~free).sum())))
            if a == 1.0:
                break
            ss0[ix] += a * ss[ix]
            free[ix] = False
    except Ambiguous:
        out.append(None)  # the rest of the path is not known
    return out


def reflections(m, lb, ub, delta, theta, ss, twins=None):
    """points of the path: go to the bound, mirror the direction, minimise along it"""
    n = len(m.x)
    M = 0.5 * (m.M + m.M.T)
    out, ss0, at = [], np.zeros(n), []
    try:
        br, ix, a = hit(m, lb, ub, m.D * ss0, ss, theta, twins=twins)
        out.append((a * ss, 0))
        while a < 1.0 and len(out) <= n:
            if br > 1:
                break  # the bound is not reached
            ss0 = ss0 + br * ss
            at.extend(ix)
            d = ss.copy()
            d[ix] *= -1
            d /= np.linalg.norm(d)
            b, c = d @ ss0, ss0 @ ss0 - delta**2
            r = np.sqrt(max(b * b - c, 0.0))
            lo, hi = -b - r, -b + r
            cand = [lo, hi]
            A, C = d @ M @ d, d @ (M @ ss0 + m.sg)
            if A > 0 and lo <= -C / A <= hi:
                cand = [-C / A]
            q = [q_of(M, m.sg, ss0 + t * d) for t in cand]
            if len(q) == 2 and abs(q[0] - q[1]) <= 1e-6 * (abs(q[0]) + abs(q[1])):
                raise Ambiguous
            t = cand[int(np.argmin(q))]
            if abs(t) <= 1e-3 * np.linalg.norm(ss0):
                raise Ambiguous
            ss = t * d
            br, ix, a = hit(m, lb, ub, m.D * ss0, ss, theta, at, twins)
            out.append((ss0 + a * ss, len(set(at))))
            if a <= 0:
                break
    except Ambiguous:
        out.append(None)  # the rest of the path is not known
    return out


@register
class C29(Check):
    id = 'C29'
    n = {'quick': 800, 'thorough': 12000}
    technique = 'runtime monitoring: proposals under every step-back strategy on the same subproblem, against independent paths'
    rule = (
        'each case is a batch of 20 random subproblems whose trust-region step meets a bound; every strategy proposes a '
        'step; its model value is compared with every point of independently computed truncation and reflection paths '
        '(one case in eight with two variables that meet their bounds at the same time), with the values of the strategies it includes (all solvers), and '
        'for refinement with the truncation path of convex models; non-trivial: at least three paths of two points or '
        'more; distinct: by the sequence of (kinds, solver, dimension, path lengths)'
    )

    def gen(self, rng, i, tier):
        out = {'batch': int(rng.integers(2**31)), 'k': 20}
        if i % 12 == 5:
            out['refine'] = ['full', '2D'][i // 12 % 2]
        return out

    def one(self, rng, nmax=6):
        while True:
            c = rand_step(rng, nmax)
            n = len(c['x'])
            if n > 1 and c['bk'] not in ('none', 'far', 'narrow'):
                break
        u = rng.random()
        if u < 0.5:
            c['solver'] = '2D' if n == 2 and u < 0.25 else 'full'
        if rng.random() < 0.5:
            e, V = np.linalg.eigh(0.5 * (c['H'] + c['H'].T))
            c['H'] = V @ np.diag(np.abs(e) + 0.1 * np.abs(e).max()) @ V.T
        c['twins'] = None
        if rng.random() < 0.12:  # two variables that meet their bounds at the same time
            i, j = (int(k) for k in rng.choice(n, 2, replace=False))
            sgn = float(rng.choice([-1.0, 1.0]))
            c['H'] = np.diag(np.diag(c['H']))
            c['H'][j, j] = c['H'][i, i]
            lo, up = (c['lb'][i], c['ub'][i]) if sgn > 0 else (-c['ub'][i], -c['lb'][i])
            c['x'][j], c['g'][j], c['lb'][j], c['ub'][j] = sgn * c['x'][i], sgn * c['g'][i], lo, up
            c['twins'] = (i, j)
        near = float(np.min(np.minimum(c['ub'] - c['x'], c['x'] - c['lb'])))
        if rng.random() < 0.7 and 0 < near < np.inf:
            c['delta'] = float(near * 10 ** rng.uniform(-0.5, 3))
        return c

    def propose(self, c, m, theta, solver, strategy, bounds=True):
        lb, ub = (c['lb'], c['ub']) if bounds else (np.full(len(c['lb']), -np.inf), np.full(len(c['ub']), np.inf))
        return trust_region(
            x=c['x'].copy(), g=c['g'].copy(), hess=c['H'].copy(), scaling=csc_matrix(np.diag(m.D)), delta=c['delta'],
            dv=m.dv.copy(), theta=theta, lb=lb.copy(), ub=ub.copy(), subspace_dim=SubSpaceDim(solver),
            stepback_strategy=StepBackStrategy(strategy), logger=LOG)

    def refinements(self, rng, solver, cnt):
        gaps, sig = [], []
        for _ in range(200 if solver == 'full' else 400):
            c = self.one(rng, 6 if solver == 'full' else 2)
            n = len(c['x'])
            c['solver'] = solver
            m = Model(c['x'], c['g'], c['H'], c['lb'], c['ub'])
            if np.any(m.D == 0) or not np.all(np.isfinite(m.M)) or np.linalg.norm(m.sg) == 0:
                continue
            e = np.linalg.eigvalsh(0.5 * (m.M + m.M.T))
            theta = max(c['theta_max'], 1 - np.abs(m.v * m.g).max())
            if e[0] <= 0 or solver == '2D' and e[0] < 1e-6 * e[-1]:
                continue
            if solver == '2D':  # Newton steps that leave the trust region
                c['delta'] = float(np.linalg.norm(np.linalg.solve(m.M, m.sg)) * rng.uniform(0.3, 0.98))
            T = [m.q(w[0]) for w in truncations(m, c['lb'], c['ub'], c['delta'], theta) if w]
            if len(T) < 2 or not T[0] > 0.9 * min(T):
                continue  # truncation gains nothing
            st = self.propose(c, m, theta, c['solver'], 'refine')
            gaps.append(1 - m.q(np.asarray(st.ss + st.ss0, float)) / min(T))
            sig.append((c['kind'], c['gk'], n, len(T)))
            cnt['refinements_with_room'] += 1
            cnt['refinements_missing_a_tenth'] += int(gaps[-1] > 0.1)
            if len(gaps) == 16:
                break
        bad = sum(g > 0.1 for g in gaps)
        if len(gaps) >= 8 and bad > 0.7 * len(gaps):
            return [('refine', f'{bad} of {len(gaps)} refinements miss more than a tenth of the decrease of the truncation path')], None
        return [], tuple(sig) if len(gaps) >= 8 else None

    def run(self, spec, cnt):
        rng = np.random.default_rng(spec['batch'])
        if not set(NEEDED) <= set(inspect.signature(trust_region).parameters):
            cnt['trust_region_api_unavailable'] += 1
            return [], None
        if spec.get('refine'):
            return self.refinements(rng, spec['refine'], cnt)
        v, sig = [], []
        for j in range(spec['k']):
            c = self.one(rng)
            refine = rng.random() < 0.2
            n = len(c['x'])
            m = Model(c['x'], c['g'], c['H'], c['lb'], c['ub'])
            if n < 2 or np.any(m.D == 0) or not np.all(np.isfinite(m.M)) or np.linalg.norm(m.sg) == 0:
                continue
            theta = max(c['theta_max'], 1 - np.abs(m.v * m.g).max())
            M = 0.5 * (m.M + m.M.T)
            e = np.linalg.eigvalsh(M)
            scale = np.abs(e).max() * c['delta'] ** 2 + np.linalg.norm(m.sg) * c['delta']
            ctx = f'case {j} {c["kind"]}/{c["gk"]}/{c["bk"]} {c["solver"]} n={n} delta={c["delta"]!r}'
            q, steps = {}, {}
            todo = ['reflect_single', 'reflect', 'truncate', 'mixed']
            if refine and c['solver'] != 'scg':
                todo.append('refine')
            for sb in todo:
                st = self.propose(c, m, theta, c['solver'], sb)
                ss = np.asarray(st.ss + st.ss0, float)
                q[sb], steps[sb] = m.q(ss), st
                if not np.isfinite(q[sb]):
                    q[sb] = np.inf
                cnt['proposals'] += 1
            tol = 1e-9 * scale
            for better, worse in (('reflect', 'reflect_single'), ('mixed', 'reflect'), ('mixed', 'truncate')):
                cnt['inclusions_checked'] += 1
                if q[better] < q[worse] - tol:
                    cnt[f'{better}_beats_{worse}'] += 1
                if not q[better] <= q[worse] + tol:
                    v.append(('inclusion', f'{better} {q[better]!r} worse than {worse} {q[worse]!r}: ' + ctx))
            exact = c['solver'] == 'full' or c['solver'] == '2D' and n == 2
            tol = 1e-6 * scale
            # the step before the bounds come in
            base = np.asarray((lambda t: t.ss + t.ss0)(self.propose(c, m, theta, c['solver'], 'reflect', bounds=False)), float)
            if not np.all(np.isfinite(base)) or np.linalg.norm(base) == 0:
                continue
            twins = None
            if c['twins'] and abs(base[c['twins'][0]]) == abs(base[c['twins'][1]]):
                twins = {*c['twins']}
                cnt['twin_cases'] += 1
            V, start = None, base
            if c['solver'] == '2D':
                sn = np.linalg.solve(M, -m.sg) if e[0] > 1e-8 * e[-1] else None
                if sn is None or abs(sn @ m.sg) > (1 - 1e-6) * np.linalg.norm(sn) * np.linalg.norm(m.sg):
                    V = False
                elif n > 2 or c['twins']:
                    r = np.linalg.norm(sn) / c['delta']
                    if abs(r - 1) < 1e-6:
                        V = False
                    else:
                        V = np.array([sn]).T / np.linalg.norm(sn) if r < 1 else np.linalg.qr(np.array([sn / np.linalg.norm(sn), m.sg / np.linalg.norm(m.sg)]).T)[0]
            elif c['solver'] == 'scg':
                V = base[:, None] / np.linalg.norm(base)
            if exact and not twins and V is not False:
                try:
                    start = tr_solve(M, m.sg, c['delta'])
                except Ambiguous:
                    start = None
            T = [] if V is False or start is None else truncations(m, c['lb'], c['ub'], c['delta'], theta, V, twins, start)
            R = [] if start is None else reflections(m, c['lb'], c['ub'], c['delta'], theta, start, twins)
            # what the proposal says about itself
            for sb, path, nm in (('truncate', T, 'truncation_count'), ('reflect', R, 'reflection_count')):
                got = getattr(steps[sb], nm, None)
                ss = np.asarray(steps[sb].ss + steps[sb].ss0, float)
                off = [np.linalg.norm(ss - w[0]) / np.linalg.norm(ss) if w else 0.0 for w in path]
                at = [k for k, d in enumerate(off) if d <= 1e-2]
                if np.linalg.norm(ss / np.linalg.norm(ss) + m.sg / np.linalg.norm(m.sg)) < 1e-3:
                    continue  # may be the gradient step
                if got is not None and len(at) == 1 and path[at[0]] and off[at[0]] <= 1e-6:
                    cnt[f'{nm}_checked'] += 1
                    cnt[f'{nm}_above_one'] += path[at[0]][1] > 1
                    if got != path[at[0]][1]:
                        v.append(('count', f'{sb} reports {got!r} variables for point {at[0]} of its path, {path[at[0]][1]} were used: ' + ctx))
            T, R = ([m.q(w[0]) for w in path if w] for path in (T, R))
            for sb, path in (('truncate', T), ('mixed', T), ('reflect', R), ('mixed', R), ('reflect_single', R[:2])):
                for k, r in enumerate(path):
                    cnt[f'{sb}_points'] += 1
                    cnt[f'{sb}_points_{c["solver"]}'] += k > 0
                    if not q[sb] <= r + tol:
                        v.append(('path', f'{sb} proposes {q[sb]!r}, point {k} of its path has {r!r} (of {len(path)}; tol {tol:.1e}): ' + ctx))
                        break
            if len(T) > 1:
                cnt['paths'] += 1
                sig.append((c['kind'], c['gk'], c['solver'], n, len(T), len(R)))
                if 'refine' in q and e[0] > 0 and exact:
                    cnt['refinements'] += 1
                    cnt['refinements_short_of_half'] += int(q['refine'] > 0.5 * min(T) + tol)
        return v, tuple(sig) if len(sig) >= 3 else None
