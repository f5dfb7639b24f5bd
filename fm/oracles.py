"""Trace oracles. Each yields (kind, message) violations; counters in cnt."""
from collections import Counter

import numpy as np

from fides import ExitFlag

from . import spec as R
from .spec import Model, disp, same

DEF = dict(maxiter=1e3, maxtime=np.inf, fatol=1e-8, frtol=1e-8, xtol=0.0, gatol=1e-6,
           grtol=0.0, theta_max=0.95, delta_init=1.0, mu=0.25, eta=0.75,
           gamma1=0.25, gamma2=2.0)


def opt_of(b, k):
    return b.options.get(k, DEF[k])


def states(t):
    """states[k] = state before trial k (k>=1); states[K+1] = final"""
    n = len(t.calls)
    st = [None] + [c.get('pre') for c in t.calls[1:]]
    if t.exc is None or True:
        st.append(t.final)
    return st


def trials(t):
    """(k, call, pre, post, last) for each completed trial"""
    st = states(t)
    n = len(t.calls)
    for k in range(1, n):
        post = st[k + 1]
        yield k, t.calls[k], st[k], post, k == n - 1


def o_start(b, t, cnt):
    """the first point evaluated is the start, moved at most off the bounds it sits on"""
    if not t.calls:
        return
    x, x0 = t.calls[0]['x'], np.asarray(b.x0, float)
    cnt['starts_compared'] += 1
    off = x != x0
    tol = 1e-12 * np.maximum(1, np.abs(x0))
    near = np.minimum(np.abs(x0 - b.lb), np.abs(b.ub - x0)) <= tol
    bad = off & ~(near & (np.abs(x - x0) <= tol))
    if np.any(off & ~bad):
        cnt['starts_moved_off_a_bound'] += 1
    if np.any(bad):
        i = np.where(bad)[0]
        yield 'start', f'started from x[{i}]={x0[i]!r}, first evaluated {x[i]!r} (lb={b.lb[i]!r} ub={b.ub[i]!r})'


def o_feasible(b, t, cnt):
    yield from o_start(b, t, cnt)
    for k, c in enumerate(t.calls):
        x = c['x']
        cnt['points'] += 1
        if not (np.all(x >= b.lb) and np.all(x <= b.ub)):
            i = np.where(~((x >= b.lb) & (x <= b.ub)))[0]
            yield 'oob', f'call {k}: x[{i}]={x[i]!r} lb={b.lb[i]!r} ub={b.ub[i]!r}'
        d = np.minimum(x - b.lb, b.ub - x)
        if np.any(d == 0):
            cnt['points_exactly_on_bound'] += 1
        if np.any(d < 1e-8):
            cnt['points_within_1e-8_of_bound'] += 1
    for nm in ('x', 'x_min'):
        if t.calls and t.final['iteration'] >= 0 and t.exc is None:
            x = t.final[nm]
            if not (np.all(x >= b.lb) and np.all(x <= b.ub)):
                yield 'oob_' + nm, f'reported {nm}={x!r}'


def find_call(t, x, f):
    return [c for c in t.calls if same(c['x'], x) and 'f' in c and same(c['f'], f)]


def o_coherent(b, t, cnt):
    if t.exc is not None:
        return
    F = t.final
    ret = t.ret
    cnt['results'] += 1
    for nm, v, w in zip(('fval', 'x', 'grad', 'hess'), ret, (F['fval'], F['x'], F['grad'], F['hess'])):
        if not same(v, w):
            yield 'ret_attr', f'returned {nm} {v!r} != attribute {w!r}'
    c = [c for c in t.calls if same(c['x'], F['x'])]
    if not c:
        j = np.argmin([np.abs(q['x'] - F['x']).max() for q in t.calls])
        yield 'x_not_evaluated', f"x={F['x']!r} never evaluated; nearest {t.calls[j]['x']!r}"
    elif not any(same(q.get('f'), F['fval']) and same(q.get('g'), F['grad']) for q in c):
        yield 'fg_mismatch', f"at x={F['x']!r}: reported f={F['fval']!r} g={F['grad']!r}, objective gave {[(q.get('f'), q.get('g')) for q in c]}"
    if b.spec['scheme'] in ('none', 'GN'):
        if c and not any(same(q.get('H'), F['hess']) for q in c):
            yield 'h_mismatch', 'reported Hessian is not the objective Hessian at x'
    else:
        if not same(t.opt.hessian_update.get_mat(), F['hess']):
            yield 'h_mismatch', 'reported Hessian is not the current matrix of the scheme'
    if not any(same(q['x'], F['x_min']) and same(q.get('f'), F['fval_min']) and same(q.get('g'), F['grad_min']) for q in t.calls):
        yield 'min_mismatch', f"best-seen triple {F['x_min']!r} {F['fval_min']!r} is not an evaluation"
    if np.any(np.minimum(F['x'] - b.lb, b.ub - F['x']) < 1e-12):
        cnt['results_at_bound'] += 1


def o_descent(b, t, cnt):
    st = states(t)
    for k, c, pre, post, last in trials(t):
        if last and t.exc is not None:
            break
        if 'f' not in c:
            break
        unchanged = all(same(pre[q], post[q]) for q in ('x', 'fval', 'grad', 'hess'))
        is_trial = same(post['x'], c['x']) and same(post['fval'], c['f']) and same(post['grad'], c['g'])
        if is_trial and b.spec['scheme'] in ('none', 'GN'):
            is_trial = same(post['hess'], c['H'])
        if unchanged:
            cnt['rejected'] += 1
        elif is_trial:
            cnt['accepted'] += 1
            if not (c['f'] < pre['fval']):
                yield 'uphill', f"iter {k}: accepted f={c['f']!r} from {pre['fval']!r}"
        else:
            yield 'mixed_state', f"iter {k}: state is neither previous iterate nor trial; x pre {pre['x']!r} trial {c['x']!r} post {post['x']!r}"
        if not (post['fval'] <= pre['fval']):
            yield 'increase', f"iter {k}: current value rose {pre['fval']!r} -> {post['fval']!r}"
    if t.exc is None and t.calls and 'f' in t.calls[0]:
        if not t.ret[0] <= t.calls[0]['f']:
            yield 'above_start', f"returned {t.ret[0]!r} start {t.calls[0]['f']!r}"


def o_best(b, t, cnt):
    best = np.inf
    seen = []
    st = states(t)
    for k, c in enumerate(t.calls):
        if 'f' not in c:
            break
        if k == len(t.calls) - 1 and t.exc is not None and k > 0:
            # the aborting trial may or may not have been taken into account
            break
        if np.isfinite(c['f']):
            seen.append(c)
            best = min(best, c['f'])
        post = st[k + 1]
        if post is None or not seen:
            continue
        cnt['best_checks'] += 1
        # half squared norms are only known up to rounding
        tol = 1e-13 * abs(best) if b.mode == 'res' else 0.0
        if not abs(post['fval_min'] - best) <= tol:
            yield 'fval_min', f"after call {k}: fval_min={post['fval_min']!r} smallest seen {best!r}"
        elif not any(
            q['f'] == post['fval_min'] and same(q['x'], post['x_min']) and same(q['g'], post['grad_min']) for q in seen
        ):
            yield 'x_min', f"after call {k}: x_min={post['x_min']!r} grad_min={post['grad_min']!r} did not produce {best!r}"


HUGE = 1e65


def o_ratio(b, t, cnt):
    mu, eta, g1, g2 = (opt_of(b, k) for k in ('mu', 'eta', 'gamma1', 'gamma2'))
    sts = states(t)
    if len(t.calls) > 1 and sts[1]['delta'] != opt_of(b, 'delta_init') and opt_of(b, 'delta_init') < HUGE:
        yield 'delta_init', f"initial radius {sts[1]['delta']!r}"
    for k, c, pre, post, last in trials(t):
        if last and t.exc is not None:
            break
        cnt['ratio_events'] += 1
        if pre['delta'] != pre['delta_iter']:
            yield 'delta_iter', f"iter {k}: radius in use {pre['delta_iter']!r} != {pre['delta']!r}"
        m = Model(pre['x'], pre['grad'], pre['hess'], b.lb, b.ub)
        s, se = disp(pre['x'], c['x'])
        ratio = post['tr_ratio']
        d0, d1 = pre['delta'], post['delta']
        changed = not same(pre['x'], post['x']) or not same(pre['fval'], post['fval'])
        if same(pre['x'], c['x']):
            cnt['zero_displacement'] += 1
        elif changed != bool(ratio > 0):
            yield 'accept_rule', f'iter {k}: ratio {ratio!r} but accepted={changed}'
        if np.isnan(ratio):
            yield 'ratio_nan', f'iter {k}: ratio is not a number'
        ss, err = m.scaled(s, se)
        if not np.isfinite(c['f']):
            cnt['nonfinite_events'] += 1
            if ratio != 0:
                yield 'ratio_nonfinite', f'iter {k}: ratio {ratio!r} for non-finite value'
            if not (0 <= d1 <= g1 * d0 * (1 + 1e-12)):
                yield 'radius_nonfinite', f'iter {k}: radius {d0!r} -> {d1!r}'
            elif ss is not None and np.all(np.isfinite(ss)):
                ns, ne = np.linalg.norm(ss), np.linalg.norm(err) + 1e-12 * np.linalg.norm(ss)
                lo, hi = max(ns - ne, 0) / 4, np.inf if m.hidden else (ns + ne) / 4
                if not min(g1 * d0, lo) * (1 - 1e-12) <= d1 <= min(g1 * d0, hi) * (1 + 1e-12):
                    yield 'radius_nonfinite', f'iter {k}: radius {d0!r} -> {d1!r}, |ss|={ns!r}+-{ne:.1e}'
            continue
        if ss is None or not np.all(np.isfinite(ss)):
            cnt['ratio_undecided'] += 1
            continue
        ns, ne = np.linalg.norm(ss), np.linalg.norm(err) + 1e-12 * np.linalg.norm(ss)
        # ratio value
        q, qe = m.q(ss), m.q_err(ss, err)
        aug = 0.5 * ss @ (m.dv * np.abs(c['g']) * ss)
        ae = np.abs(m.dv * np.abs(c['g']) * ss) @ err + 0.5 * err @ (m.dv * np.abs(c['g']) * err) + 1e-12 * aug
        num = pre['fval'] - c['f'] - aug
        nume = ae + 4 * R.EPS * (abs(pre['fval'] - c['f']) + aug)
        if b.mode == 'res':  # half squared norms are only known up to rounding
            nume += 1e-13 * (abs(pre['fval']) + abs(c['f']))
        if q > qe:
            cnt['ratio_no_decrease_predicted'] += 1
            if ratio != 0:
                yield 'ratio_pred', f'iter {k}: model increases by {q!r} (+-{qe:.1e}) but ratio {ratio!r}'
        elif -q > 2 * qe:
            ref = num / -q
            tol = 2 * (nume + abs(ref) * qe) / (-q - qe) + 1e-9 * abs(ref) + 1e-12
            cnt['ratio_value_checked'] += 1
            if not abs(ratio - ref) <= tol:
                yield 'ratio_value', f'iter {k}: ratio {ratio!r}, recomputed {ref!r} +- {tol:.1e} (step norm {ns:.3e}, radius {d0:.3e})'
        else:
            cnt['ratio_undecided'] += 1
        # radius law
        lo, hi = max(ns - ne, 0) / 4, np.inf if m.hidden else (ns + ne) / 4
        shrink = lambda d: min(g1 * d0, lo) * (1 - 1e-12) <= d <= min(g1 * d0, hi) * (1 + 1e-12)
        if ratio >= eta:
            near = m.hidden or abs(ns - 0.9 * d0) <= ne + 1e-9 * d0
            want = g2 * d0 if ns >= 0.9 * d0 else d0
            if want > HUGE:  # squares of such radii overflow: any growth will do
                cnt['huge_radii'] += 1
                if not d0 <= d1 <= want:
                    yield 'radius_grow', f'iter {k}: radius {d0!r} -> {d1!r}, want at most {want!r}'
                continue
            cnt['grow' if want != d0 else 'keep_int'] += 1
            if not near and not np.isclose(d1, want, rtol=1e-12, atol=0):
                yield 'radius_grow', f'iter {k}: ratio {ratio!r} |ss|={ns!r} radius {d0!r} -> {d1!r}, want {want!r}'
            elif near and not (np.isclose(d1, d0, rtol=1e-12) or np.isclose(d1, g2 * d0, rtol=1e-12)):
                yield 'radius_grow', f'iter {k}: radius {d0!r} -> {d1!r}'
        elif ratio <= mu:
            cnt['shrink'] += 1
            if not shrink(d1):
                yield 'radius_shrink', f'iter {k}: ratio {ratio!r} |ss|={ns!r}+-{ne:.1e} radius {d0!r} -> {d1!r}'
        else:
            cnt['keep_mid'] += 1
            if d1 != d0:
                yield 'radius_keep', f'iter {k}: ratio {ratio!r} radius {d0!r} -> {d1!r}'


def o_contain(b, t, cnt):
    for k, c, pre, post, last in trials(t):
        m = Model(pre['x'], pre['grad'], pre['hess'], b.lb, b.ub)
        s, se = disp(pre['x'], c['x'])
        ss, err = m.scaled(s, se)
        if ss is None or not np.all(np.isfinite(ss)):
            cnt['contain_undecided'] += 1
            continue
        ns, ne = np.linalg.norm(ss), np.linalg.norm(err)
        cnt['contain_checked'] += 1
        if ns - ne > pre['delta'] * (1 + 1e-6):
            yield 'tr_exceeded', f"iter {k}: scaled step {ns!r} radius {pre['delta']!r} ({ns / pre['delta']:.3f}x)"


def o_exit(b, t, cnt):
    """replays the stopping rules on the trace"""
    if t.exc is not None:
        return
    fatol, frtol, xtol, gatol, grtol, mu, maxiter = (
        opt_of(b, k) for k in ('fatol', 'frtol', 'xtol', 'gatol', 'grtol', 'mu', 'maxiter')
    )
    flag = t.final['exitflag']
    cnt['exit_' + flag.name] += 1
    conv = flag in (ExitFlag.FTOL, ExitFlag.XTOL, ExitFlag.GTOL)
    if bool(t.final['converged']) != conv:
        yield 'converged', f'converged={t.final["converged"]} flag {flag.name}'
    # documented: positive values indicate convergence, negative values errors
    if not (int(flag) > 0) == conv or flag is ExitFlag.DID_NOT_RUN:
        yield 'flag_value', f'flag {flag.name} has value {int(flag)}'
    if any(nm != fl.name for nm, fl in ExitFlag.__members__.items()):
        yield 'flag_value', f'flags share a value: {dict(ExitFlag.__members__)!r}'
    K = len(t.calls) - 1
    for k, c, pre, post, last in trials(t):
        m = Model(pre['x'], pre['grad'], pre['hess'], b.lb, b.ub)
        s, se = disp(pre['x'], c['x'])
        ss, err = m.scaled(s, se)
        f, fp = c['f'], pre['fval']
        fin = np.isfinite(f)
        ftol = bool(fin and post['tr_ratio'] > mu and abs(f - fp) < fatol + frtol * abs(fp))
        if ss is None or not np.all(np.isfinite(ss)):
            xlo = xhi = None
        else:
            ns, ne = np.linalg.norm(ss), np.linalg.norm(err) + 1e-9 * np.linalg.norm(ss)
            xlo = k > 1 and ns + ne < xtol and not m.hidden
            xhi = k > 1 and ns - ne < xtol
        gn = np.linalg.norm(post['grad'])
        accepted = post['tr_ratio'] > 0
        # the relative criterion may refer to the value before or after
        gt = [bool(gn <= gatol or gn <= grtol * abs(v)) for v in (fp, post['fval'])]
        glo, ghi = all(gt), any(gt)
        if np.isclose(gn, gatol, rtol=1e-10) or any(np.isclose(gn, grtol * abs(v), rtol=1e-10) for v in (fp, post['fval'])):
            glo, ghi = False, True
        cnt['exit_iters'] += 1
        if not last:
            if ftol:
                yield 'late_ftol', f'iter {k}: function tolerance met but run continued'
            if xlo:
                yield 'late_xtol', f'iter {k}: step tolerance met but run continued'
            if glo:
                yield 'late_gtol', f'iter {k}: gradient tolerance met (|g|={gn!r}) but run continued'
            if post['delta'] < np.spacing(1.0):
                yield 'late_delta', f"iter {k}: radius {post['delta']!r} vanished but run continued"
        else:
            if flag == ExitFlag.FTOL and not ftol:
                yield 'false_ftol', f"iter {k}: ratio {post['tr_ratio']!r} f {fp!r}->{f!r}"
            if flag == ExitFlag.XTOL and xhi is False:
                yield 'false_xtol', f'iter {k}: |ss|={ns!r} xtol={xtol!r}'
            if flag == ExitFlag.GTOL and not ghi:
                yield 'false_gtol', f"iter {k}: |g| at reported point {gn!r} gatol {gatol!r} grtol {grtol!r} (trial accepted={accepted}, trial f={f!r}, |g_trial|={np.linalg.norm(c['g'])!r})"
            if not conv and (ftol or xlo or glo):
                yield 'flag_should_converge', f'flag {flag.name} although a tolerance criterion is met: f {ftol} x {xlo} g {glo}'
            if conv and flag != ExitFlag.FTOL and ftol:
                yield 'flag_order', f'flag {flag.name} although function tolerance met'
    if flag == ExitFlag.MAXITER and t.final['iteration'] < maxiter:
        yield 'false_maxiter', f"{t.final['iteration']} < {maxiter}"
    if flag == ExitFlag.DELTA_TOO_SMALL and not t.final['delta'] < np.spacing(1.0):
        yield 'false_delta', f"radius {t.final['delta']!r}"
    if flag == ExitFlag.MAXTIME and opt_of(b, 'maxtime') == np.inf:
        yield 'false_maxtime', 'no time limit set'
    if flag in (ExitFlag.DID_NOT_RUN, ExitFlag.NOT_FINITE, ExitFlag.EXCEEDED_BOUNDARY):
        yield 'flag_error', f'run returned but flag {flag.name}'


def o_budget(b, t, cnt):
    maxiter = opt_of(b, 'maxiter')
    cnt['budget_runs'] += 1
    K = len(t.calls) - 1
    if K > maxiter:
        yield 'maxiter', f'{K} iterations > {maxiter}'
    if t.exc is None and t.final['iteration'] != K:
        yield 'evals', f"{K} trial evaluations, iteration={t.final['iteration']}"
    for k, c in enumerate(t.calls):
        if 'pre' in c and k >= 1 and c['pre']['iteration'] != k:
            yield 'iter_count', f"call {k} at iteration {c['pre']['iteration']}"


def o_finite(b, t, cnt):
    for k, c in enumerate(t.calls):
        cnt['finite_points'] += 1
        if not np.all(np.isfinite(c['x'])):
            yield 'nonfinite_x', f"call {k}: x={c['x']!r}"
            return
    if t.exc is None:
        for nm in ('fval', 'x', 'grad', 'hess'):
            if not np.all(np.isfinite(t.final[nm])):
                yield 'nonfinite_result', f'{nm}={t.final[nm]!r}'


TRACE = {
    'C01': o_feasible, 'C02': o_coherent, 'C03': o_descent, 'C04': o_best,
    'C05': o_ratio, 'C06': o_contain, 'C10': o_exit, 'C11': o_budget, 'C12': o_finite,
}
