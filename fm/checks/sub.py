"""C07-C09: step proposals and subproblem solvers."""
import inspect
import logging

import numpy as np
from scipy.sparse import csc_matrix

from fides import StepBackStrategy, SubSpaceDim
from fides.subproblem import (
    solve_1d_trust_region_subproblem,
    solve_nd_trust_region_subproblem,
)
from fides.trust_region import trust_region

from .. import cases, oracles
from ..spec import Model, disp
from ..subprob import line_min, q_mag, q_of, tr_min_lower
from .base import Check, TraceCheck, path_of, register, trace_of, trace_sig

LOG = logging.getLogger('fm_silent')
LOG.addHandler(logging.NullHandler())
LOG.propagate = False
LOG.setLevel(logging.CRITICAL + 1)


# generators ---------------------------------------------------------------
def rand_sub(rng, nmax=7, extreme=False):
    """(matrix kind, gradient kind, B, g, delta) including hard and nearly hard cases"""
    n = int(rng.integers(1, nmax + 1))
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    if rng.random() < 0.3:
        Q = np.eye(n)
    kind = cases.pick(rng, ['spd', 'indef', 'sing', 'rep', 'near', 'tinyneg', 'zero', 'ill', 'wide', 'int'])
    e = rng.normal(size=n)
    if kind == 'spd':
        e = 10 ** rng.uniform(-3, 3, n)
    if kind == 'sing':
        e = 10 ** rng.uniform(-3, 3, n)
        e[rng.random(n) < 0.5] = 0
    if kind == 'rep':
        e = np.round(e)
    if kind == 'tinyneg':
        e = 10 ** rng.uniform(-3, 3, n)
        e[0] = -(10 ** rng.uniform(-16, -3))
    if kind == 'zero':
        e = np.zeros(n)
    if kind == 'ill':
        e = 10 ** rng.uniform(-12, 6, n) * np.where(rng.random(n) < 0.3, -1, 1)
    if kind == 'wide':
        e = 10 ** rng.uniform(-13, 2, n)
    if kind == 'near':
        e[:2] = -1 + 10 ** rng.uniform(-16, -8)
    B = Q @ np.diag(e) @ Q.T
    B = (B + B.T) / 2
    if kind == 'int':
        B = np.round(3 * B)
        B = np.round((B + B.T) / 2)
    ee, v = np.linalg.eigh(B)
    w = rng.normal(size=n) * 10 ** rng.uniform(-3, 3)
    gk = cases.pick(rng, ['any', 'hard', 'nearhard', 'zero', 'int', 'tiny', 'dominant', 'newton', 'newton'])
    low = np.isclose(ee, ee[0])
    if gk == 'hard':
        w[low] = 0
    if gk == 'nearhard':
        w[low] *= 10 ** rng.uniform(-18, -6)
    if gk == 'dominant':
        w[~low] *= 10 ** rng.uniform(-12, -3)
    newton = None
    if gk == 'newton':  # gradient of a quadratic, Newton steps of comparable components
        newton = rng.normal(size=n) * 10 ** rng.uniform(-2, 2)
        w = ee * newton
    g = v @ w
    if gk == 'zero':
        g = np.zeros(n)
    if gk == 'int':
        g = np.round(g)
    if gk == 'tiny':
        g = g * 1e-10
    delta = float(10 ** rng.uniform(*((-10, 6) if rng.random() < 0.3 else (-2, 2))))
    if newton is not None:
        delta = float(np.linalg.norm(newton) * 10 ** rng.uniform(-4, 0.5))
    elif ee[0] > 0 and rng.random() < 0.25:  # the minimum is just outside (or just inside)
        delta = float(np.linalg.norm(w / ee) * (1 + rng.choice([-1, -1, 1]) * 10 ** rng.uniform(-6, -2)))
    if extreme and rng.random() < 0.1:  # very short and very long radii
        delta = float(10 ** (rng.uniform(-40, -10) if rng.random() < 0.7 else rng.uniform(6, 20)))
    if extreme and rng.random() < 0.15:  # the problem does not depend on its units
        B = B * 2.0 ** rng.integers(-60, 60)
        g = g * 2.0 ** rng.integers(-60, 60)
    if rng.random() < 0.03:
        delta = 0.0
    return kind, gk, B, g, delta


@register
class C08(Check):
    id = 'C08'
    n = {'quick': 600, 'thorough': 12000}
    technique = 'runtime monitoring of the real solver against a Lagrangian dual bound (strong duality) on random and hard cases'
    rule = (
        'each case is a batch of 40 random (matrix, gradient, radius) triples built around spectra (definite, singular, '
        'repeated, nearly repeated, tiny negative, ill-conditioned, integer) and gradients (generic, hard, nearly hard, '
        'dominant, zero, tiny); non-trivial: the batch contains boundary and interior solutions; distinct: by the '
        'sequence of (spectrum, gradient kind, dimension, reported case)'
    )

    def gen(self, rng, i, tier):
        return {'seed': int(rng.integers(2**31)), 'k': 40, 'nmax': 7 if tier == 'quick' else 12}

    def run(self, spec, cnt):
        rng = np.random.default_rng(spec['seed'])
        viol, sig = [], []
        for j in range(spec['k']):
            kind, gk, B, g, delta = rand_sub(rng, spec['nmax'], True)
            B0, g0 = B.copy(), g.copy()
            try:
                s, case = solve_nd_trust_region_subproblem(B, g, delta, LOG)
            except Exception as e:
                viol.append(('raised', f'{e!r} for B={B0.tolist()} g={g0.tolist()} delta={delta!r}'))
                continue
            ctx = f'{kind}/{gk} case {case!r} B={B0.tolist()} g={g0.tolist()} delta={delta!r}'
            cnt['solved_' + str(case)] += 1
            s = np.asarray(s)
            sig.append((kind, gk, len(g), str(case)))
            if not (np.array_equal(B, B0) and np.array_equal(g, g0)):
                viol.append(('modified', 'arguments were modified: ' + ctx))
            if s.shape != g.shape or not np.all(np.isfinite(s)):
                viol.append(('not_finite', f's={s!r}: ' + ctx))
                continue
            s = np.real(s).astype(float)
            ns = np.linalg.norm(s)
            if delta == 0:
                if ns != 0 or str(case) != 'zero':
                    viol.append(('zero_radius', f's={s!r}: ' + ctx))
                continue
            if ns > delta * (1 + 1e-6):
                viol.append(('too_long', f'|s|/delta-1={ns / delta - 1:.3e}: ' + ctx))
            lower, mag = tr_min_lower(B0, g0, delta)
            if mag == 0 or not np.isfinite(lower):
                cnt['undecided'] += 1
                continue
            # the interval 1e-8 around the boundary is accepted as boundary, hence the relative part
            gap = (q_of(B0, g0, s) - lower - 1e-7 * abs(lower)) / mag
            cnt['gap_checked'] += 1
            if gap > 2e-11:  # eigenvalues closer than 1e-11 count as equal
                viol.append(('not_global', f'gap {gap:.3e} (relative): ' + ctx))
            if str(case) == 'posdef':
                cnt['interior'] += 1
                # an interior solution is stationary
                r = np.linalg.norm(B0 @ s + g0)
                if r > 1e-6 * (np.linalg.norm(np.abs(B0) @ np.abs(s)) + np.linalg.norm(g0)) and np.linalg.cond(B0) < 1e10:
                    viol.append(('not_stationary', f'residual {r:.3e}: ' + ctx))
            elif str(case) in ('indef', 'hard'):
                cnt['boundary'] += 1
                if abs(ns - delta) > 1e-6 * delta:
                    viol.append(('not_on_boundary', f'|s|/delta-1={ns / delta - 1:.3e}: ' + ctx))
        return viol, tuple(sig) if cnt['interior'] and cnt['boundary'] else None


@register
class C09(Check):
    id = 'C09'
    n = {'quick': 600, 'thorough': 12000}
    technique = 'runtime monitoring of the real solver against exact interval minimisation of the quadratic'
    rule = (
        'each case is a batch of 60 random (matrix, gradient, direction, offset, radius) tuples, directions of length '
        '1e-3..1e3, offsets inside, near and on the boundary, parallel and orthogonal; non-trivial: batch has interior and '
        'boundary minimisers; distinct: by sequence of (matrix, offset kind, dimension, where the minimum lies)'
    )

    def gen(self, rng, i, tier):
        return {'seed': int(rng.integers(2**31)), 'k': 60}

    def one(self, rng):
        n = int(rng.integers(1, 6))
        B = rng.normal(size=(n, n))
        B = B + B.T
        bk = cases.pick(rng, ['any', 'spd', 'zero', 'int', 'neg', 'sing', 'small'])
        if bk == 'spd':
            B = B @ B
        if bk == 'zero':
            B = B * 0
        if bk == 'int':
            B = np.round(B)
        if bk == 'neg':
            B = -B @ B
        if bk == 'sing':
            v = rng.normal(size=n)
            B = np.outer(v, v)
        if bk == 'small':
            B *= 10 ** rng.uniform(-20, -5)
        g = rng.normal(size=n) * 10 ** rng.uniform(-3, 3)
        if rng.random() < 0.1:
            g = np.zeros(n)
        if rng.random() < 0.1:
            g = np.round(g)
        s = rng.normal(size=n) * 10 ** rng.uniform(-3, 3)
        if rng.random() < 0.5:
            s /= np.linalg.norm(s)
        if rng.random() < 0.2:
            s = np.eye(n)[rng.integers(n)] * rng.choice([1, -1])
        delta = float(10 ** rng.uniform(-6, 4))
        if rng.random() < 0.1:
            delta = float(10 ** rng.uniform(-30, 12))
        if rng.random() < 0.1:  # units
            B = B * 2.0 ** rng.integers(-60, 60)
            g = g * 2.0 ** rng.integers(-60, 60)
        sk = cases.pick(rng, ['zero', 'in', 'in', 'bnd', 'orth', 'near', 'par'])
        s0 = np.zeros(n)
        if sk != 'zero':
            s0 = rng.normal(size=n)
            if sk == 'orth':
                s0 = s0 - s * (s @ s0) / (s @ s)
                if rng.random() < 0.5:
                    s0 = np.where(np.abs(s) > 0, 0, 1.0) * rng.normal(size=n)
            if sk == 'par':
                s0 = s * rng.choice([1, -1])
            if np.linalg.norm(s0) > 0:
                s0 = s0 / np.linalg.norm(s0)
            s0 = s0 * delta * {'in': rng.random(), 'bnd': 1.0, 'orth': rng.choice([1.0, 0.5]),
                               'par': rng.random(), 'near': 1 - 10 ** rng.uniform(-16, -8)}[sk]
        z = rng.random()
        if z < 0.02:
            s = np.zeros(n)
            sk = 'zerodir'
        elif z < 0.04:
            delta, s0, sk = 0.0, np.zeros(n), 'zerorad'
        return bk, sk, B, g, s, delta, s0

    def run(self, spec, cnt):
        rng = np.random.default_rng(spec['seed'])
        viol, sig = [], []
        for j in range(spec['k']):
            bk, sk, B, g, s, delta, s0 = self.one(rng)
            a0 = [a.copy() for a in (B, g, s, s0)]
            ctx = f'{bk}/{sk} B={B.tolist()} g={g.tolist()} s={s.tolist()} s0={s0.tolist()} delta={delta!r}'
            try:
                t = solve_1d_trust_region_subproblem(B, g, s, delta, s0)
            except Exception as e:
                viol.append(('raised', f'{e!r}: ' + ctx))
                continue
            if not all(np.array_equal(p, q) for p, q in zip(a0, (B, g, s, s0))):
                viol.append(('modified', ctx))
            t = np.asarray(t, float)
            if t.size != 1 or not np.all(np.isfinite(t)):
                viol.append(('not_finite', f't={t!r}: ' + ctx))
                continue
            t = float(t.reshape(()) if t.ndim == 0 else t[0])
            cnt['solved'] += 1
            if sk in ('zerodir', 'zerorad'):
                cnt['degenerate'] += 1
                if t != 0:
                    viol.append(('zero', f't={t!r}: ' + ctx))
                continue
            p = s0 + t * s
            if np.linalg.norm(p) > delta * (1 + 1e-8):
                viol.append(('too_long', f'|s0+ts|/delta-1={np.linalg.norm(p) / delta - 1:.3e}: ' + ctx))
            ref, lo, hi = line_min(B, g, s, s0, delta)
            mag = (np.abs(B).max() * delta**2 + np.abs(g).max() * delta) * len(g)
            rel = (q_of(B, g, p) - ref) / mag if mag else 0.0
            where = 'int' if lo + 1e-9 * (hi - lo) < t < hi - 1e-9 * (hi - lo) else 'bnd'
            cnt['minimiser_' + where] += 1
            sig.append((bk, sk, len(g), where))
            if rel > 1e-9:
                viol.append(('not_global', f'gap {rel:.3e} (relative) t={t!r} interval [{lo!r},{hi!r}]: ' + ctx))
        return viol, tuple(sig) if cnt['minimiser_int'] and cnt['minimiser_bnd'] else None


# step proposals -----------------------------------------------------------
def grad_ref(m, lb, ub, delta, theta):
    """value of the scaled-gradient step, stepped back from the bounds"""
    nsg = np.linalg.norm(m.sg)
    if nsg == 0:
        return 0.0
    d = -m.sg / nsg
    c = float(d @ m.M @ d)
    t = delta if c <= 0 else min(delta, nsg / c)
    s = m.D * d * t
    nz = s != 0
    br = np.full(len(s), np.inf)
    with np.errstate(all='ignore'):
        br[nz] = np.maximum((ub[nz] - m.x[nz]) / s[nz], (lb[nz] - m.x[nz]) / s[nz])
    a = min(1.0, theta * float(br.min()))
    return m.q(a * t * d)


def refs(m, lb, ub, delta, theta, solver, n):
    """named upper bounds that the proposed step's model value must respect"""
    out = {}
    M = 0.5 * (m.M + m.M.T)
    e, v = np.linalg.eigh(M)
    emax = np.abs(e).max()
    scale = (emax * delta**2 + np.linalg.norm(m.sg) * delta)
    posdef = e[0] > 1e-10 * emax
    # the ball of radius delta, in original variables, interferes with no bound
    free = bool(np.all(np.minimum(ub - m.x, m.x - lb) * theta > m.D * delta * (1 + 1e-6)))
    if solver in ('full', 'scg') or posdef or n == 1:
        out['gradient'] = (grad_ref(m, lb, ub, delta, theta), 4e-8 * scale)  # solvers meet the radius to 1e-8
    if free:
        if solver == 'full' or n == 1 and solver != 'scg':
            out['global'] = (tr_min_lower(M, m.sg, delta)[0], 1e-7 * scale)
        if solver == '2D' and n > 1 and emax > 0:
            if posdef and e[0] > 1e-6 * emax:
                sn = -np.linalg.solve(M, m.sg)
                nn, ng = np.linalg.norm(sn), np.linalg.norm(m.sg)
                if ng > 0 and nn < 0.999 * delta:
                    out['newton'] = (m.q(sn), 1e-7 * scale)
                elif ng > 0 and nn > 0:
                    a = sn / nn
                    b = m.sg / ng
                    b = b - a * (a @ b)
                    nb = np.linalg.norm(b)
                    if nb > 1e-6:
                        S = np.column_stack([a, b / nb])
                        out['subspace'] = (tr_min_lower(S.T @ M @ S, S.T @ m.sg, delta)[0], 1e-6 * scale)
            elif e[0] < -1e-6 * emax and (n == 1 or e[1] - e[0] > 1e-6 * emax):
                d = v[:, 0]
                out['negative_curvature'] = (min(m.q(delta * d), m.q(-delta * d)), 1e-6 * scale)
    return out


NEEDED = ('x', 'g', 'hess', 'scaling', 'delta', 'dv', 'theta', 'lb', 'ub', 'subspace_dim',
          'stepback_strategy', 'logger')


def rand_step(rng, nmax=6):
    kind, gk, H, g, delta = rand_sub(rng, nmax)
    n = len(g)
    delta = float(10 ** rng.uniform(-4, 3))
    # moderate spectra only: the model value is compared up to rounding
    sc = np.abs(H).max()
    if sc > 0:
        H = H / sc * 10 ** rng.uniform(-2, 2)
        sc = np.abs(H).max()
    ng = np.abs(g).max()
    if ng > 0:
        g = g / ng * 10 ** rng.uniform(-3, 2)
    if rng.random() < 0.12:  # as from Broyden's methods
        H = H + rng.normal(size=(n, n)) * sc * 0.3
        kind += '-nonsym'
    bk = cases.pick(rng, [k for k in cases.BOUNDS if k != 'exclude'])
    lb, ub = cases.rand_bounds(rng, n, np.zeros(n), bk)
    x = cases.rand_x0(rng, lb, ub, np.zeros(n), cases.pick(rng, ['interior', 'interior', 'nearbound']))
    # the optimizer keeps x away from the bound unless rounding forces it there
    x = np.where(x == lb, np.nextafter(x, np.inf), x)
    x = np.where(x == ub, np.nextafter(x, -np.inf), x)
    while True:
        so, sb = cases.pick(rng, cases.SOLVERS), cases.pick(rng, cases.STEPBACKS)
        if not (so == 'scg' and sb == 'refine'):
            break
    return dict(kind=kind, gk=gk, x=x, g=g, H=H, lb=lb, ub=ub, delta=delta, bk=bk,
                theta_max=float(cases.pick(rng, [0.5, 0.8, 0.95, 0.999])), solver=so, stepback=sb)


def judge_step(c, m, ss, err, delta, theta, solver, lb, ub, cnt, qp=None, ctx=''):
    n = len(m.x)
    q, qe = m.q(ss), m.q_err(ss, err)
    # the eigenvalue decomposition is only accurate relative to the norm of the model
    scale = np.abs(m.M).max() * n * (ss @ ss) + np.linalg.norm(m.sg) * np.linalg.norm(ss)
    if q > qe + 1e-13 * scale:
        yield 'increase', f'model value {q!r} (+-{qe:.1e}) at the step, 0 at zero: ' + ctx
    if qp is not None:
        cnt['predictions_checked'] += 1
        if not abs(qp - q) <= qe + 1e-9 * abs(q):
            yield 'dishonest', f'reported model value {qp!r}, recomputed {q!r} (+-{qe:.1e}): ' + ctx
    if n == 1 and m.sg[0] != 0 and m.D[0] > 0:
        M, sg = m.M[0, 0], m.sg[0]
        best = -sg / M if M > 0 and abs(sg) <= M * delta else -np.sign(sg) * delta
        room = (ub[0] - m.x[0]) if best > 0 else (m.x[0] - lb[0])
        want = min(abs(best) * m.D[0], theta * room)
        got = ss[0] * np.sign(best) * m.D[0]
        cnt['one_variable_steps_checked'] += 1
        if not abs(got - want) <= 1e-6 * abs(want) + err[0] * m.D[0] + 1e-300:
            yield 'one_variable', f'step {got!r} towards the minimum, exact (cut) minimiser is at {want!r}: ' + ctx
    free = bool(np.all(np.minimum(ub - m.x, m.x - lb) * theta > m.D * delta * (1 + 1e-6)))
    ng = np.linalg.norm(m.sg)
    if solver == 'scg' and free and np.linalg.norm(ss) + np.linalg.norm(err) < delta * (1 - 1e-4) and ng > 1e-7 * np.abs(m.M).max() * delta:
        # stopped inside the trust region without meeting a bound
        r = np.linalg.norm(0.5 * (m.M + m.M.T) @ ss + m.sg)
        cnt['cg_residuals_checked'] += 1
        if r > 0.5 * ng * (1 + 1e-6) + np.linalg.norm(np.abs(m.M) @ err):
            yield 'cg_residual', f'interior step leaves a gradient of {r!r} of {ng!r}: ' + ctx
    for nm, (ref, tol) in refs(m, lb, ub, delta, theta, solver, n).items():
        cnt['beats_' + nm] += 1
        if not q <= ref + tol + qe:
            yield 'worse_than_' + nm, f'model value {q!r} > {nm} reference {ref!r} (tol {tol:.1e}, err {qe:.1e}): ' + ctx


def run_batch(spec, cnt, what):
    rng = np.random.default_rng(spec['batch'])
    if not set(NEEDED) <= set(inspect.signature(trust_region).parameters):
        cnt['trust_region_api_unavailable'] += 1
        return [], None
    viol, sig = [], []
    for j in range(spec['k']):
        c = rand_step(rng)
        if c['stepback'] == 'refine' and rng.random() < 0.5:
            c['stepback'] = 'reflect'
        m = Model(c['x'], c['g'], c['H'], c['lb'], c['ub'])
        if np.any(m.D == 0) or not np.all(np.isfinite(m.M)):
            continue
        if j % 8 == 3 and np.linalg.norm(m.sg) > 0:
            # the minimum of the model is just outside the trust region
            em = np.linalg.eigvalsh(0.5 * (m.M + m.M.T))
            if em[0] > 1e-10 * em[-1]:
                c['delta'] = float(np.linalg.norm(np.linalg.solve(0.5 * (m.M + m.M.T), m.sg)) * (1 - 10 ** rng.uniform(-6, -2)))
        theta = max(c['theta_max'], 1 - np.abs(m.v * m.g).max())
        ctx = f'case {j} {c["kind"]}/{c["gk"]}/{c["bk"]} {c["solver"]} {c["stepback"]} n={len(m.x)} delta={c["delta"]!r}'
        try:
            st = trust_region(
                x=c['x'].copy(), g=c['g'].copy(), hess=c['H'].copy(), scaling=csc_matrix(np.diag(m.D)),
                delta=c['delta'], dv=m.dv.copy(), theta=theta, lb=c['lb'].copy(), ub=c['ub'].copy(),
                subspace_dim=SubSpaceDim(c['solver']), stepback_strategy=StepBackStrategy(c['stepback']),
                logger=LOG)
        except Exception as e:  # noqa: BLE001
            cnt['proposals_raised'] += 1
            if what == 'clean':
                viol.append(('raised', f'{e!r}: ' + ctx))
            continue
        s = np.asarray(st.s + st.s0, float)
        if not np.all(np.isfinite(s)):
            cnt['proposals_not_finite'] += 1
            if what == 'clean':
                viol.append(('not_finite', f's={s!r}: ' + ctx))
            continue
        ss, err = m.scaled(s, 4e-16 * np.abs(s))
        cnt['proposals_judged'] += 1
        cnt['type_' + str(st.type)] += 1
        sig.append((c['kind'], c['gk'], c['bk'], c['solver'], c['stepback'], len(m.x), str(st.type)))
        if what == 'clean':
            if not np.isfinite(st.qpval):
                viol.append(('not_finite', f'reported model value {st.qpval!r}: ' + ctx))
        elif what == 'model':
            viol += judge_step(c, m, ss, err, c['delta'], theta, c['solver'], c['lb'], c['ub'], cnt,
                               qp=float(st.qpval), ctx=ctx)
        else:
            ns = np.linalg.norm(ss)
            if ns > 0.999 * c['delta']:
                cnt['proposals_at_the_radius'] += 1
            if ns - np.linalg.norm(err) > c['delta'] * (1 + 1e-6):
                viol.append(('longer_than_radius', f'scaled length {ns!r} exceeds the radius: ' + ctx))
    return viol, tuple(sig) if len(sig) >= 3 else None


@register
class C06(TraceCheck):
    id = 'C06'
    oracle = oracles.o_contain
    n = {'quick': 2600, 'thorough': 50000}
    fault_p = 0.1
    technique = 'runtime monitoring: scaled length of every proposed displacement against the radius in use'
    rule = (
        'alternating: (a) a random run (problem x bounds x start x scheme x solver x strategy x options) whose trial '
        'displacements are measured, (b) a batch of 20 random (point, gradient, Hessian, bounds, radius, solver, '
        'strategy) tuples given to trust_region(); non-trivial: at least three trials or proposals; distinct: by '
        'configuration and accept/reject path, or by the sequence of kinds'
    )

    def gen(self, rng, i, tier):
        if i % 3 == 2:
            return {'batch': int(rng.integers(2**31)), 'k': 40}
        return super().gen(rng, i, tier)

    def run(self, spec, cnt):
        if 'batch' in spec:
            return run_batch(spec, cnt, 'length')
        return super().run(spec, cnt)


@register
class C07(TraceCheck):
    id = 'C07'
    n = {'quick': 2000, 'thorough': 40000}
    technique = 'runtime monitoring: model value of every proposed displacement against independent reference steps'
    rule = (
        'alternating: (a) a random run whose trial displacements are judged on an independent model, (b) a batch of 20 '
        'random (point, gradient, Hessian, bounds, radius, solver, strategy) tuples given to trust_region(); non-trivial: '
        'at least three steps judged; distinct: by configuration and accept/reject path, or by the sequence of kinds'
    )
    fault_p = 0.1

    def gen(self, rng, i, tier):
        if i % 3 == 2:
            return {'batch': int(rng.integers(2**31)), 'k': 40}
        return super().gen(rng, i, tier)

    def run(self, spec, cnt):
        if 'batch' in spec:
            return run_batch(spec, cnt, 'model')
        b, t = trace_of(spec)
        viol = []
        for k, c, pre, post, last in oracles.trials(t):
            m = Model(pre['x'], pre['grad'], pre['hess'], b.lb, b.ub)
            s, se = disp(pre['x'], c['x'])
            ss, err = m.scaled(s, se)
            if ss is None or not np.all(np.isfinite(ss)) or m.hidden or not np.all(np.isfinite(m.M)):
                cnt['undecided'] += 1
                continue
            theta = max(oracles.opt_of(b, 'theta_max'), 1 - np.abs(m.v * m.g).max())
            cnt['steps_judged'] += 1
            viol += judge_step(c, m, ss, err, pre['delta'], theta, spec['solver'], b.lb, b.ub, cnt,
                               ctx=f'iter {k}')
        return viol, trace_sig(spec, t) if cnt['steps_judged'] >= 3 else None

