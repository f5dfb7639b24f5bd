"""Check base class and the checks that judge single boundary traces."""
import logging
from collections import Counter

import numpy as np

from fides import ExitFlag

from .. import cases, oracles, record
from ..spec import same

CHECKS = {}
HUGE = 1e100


def register(cls):
    c = cls()
    CHECKS[c.id] = c
    return cls


class Check:
    id = None
    level = 'exploration'
    rule = ''
    technique = 'runtime monitoring'
    level_note = ''
    n = {'quick': 1000, 'thorough': 20000}
    limit = 20.0  # watchdog seconds per case
    assumptions = ()

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, spec, cnt):
        """-> (violations, signature of a non-trivial case or None)"""
        raise NotImplementedError


# faults -------------------------------------------------------------------
BAD = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}


def fault_fun(kind, mode, rng):
    """kind: value kind, or 'g'/'h' for a non-finite derivative with a finite value,

    suffix '+' also ruins the derivatives."""
    v, *ruin = kind.split('+')

    def f(out):
        out = [np.array(o, dtype=float, copy=True) for o in out]
        if mode == 'res':
            r, J = out
            if v in BAD:
                r[int(rng.integers(r.size))] = BAD[v]
            if ruin or v in ('g', 'h'):
                J[int(rng.integers(J.shape[0])), int(rng.integers(J.shape[1]))] = (
                    np.nan if rng.random() < 0.5 else np.inf
                )
            return r, J
        if v in BAD:
            out[0] = BAD[v]
        if ruin or v == 'g':
            out[1][int(rng.integers(out[1].size))] = np.nan if rng.random() < 0.5 else np.inf
        if (ruin or v == 'h') and len(out) > 2:
            i, j = rng.integers(out[2].shape[0], size=2)
            out[2][i, j] = np.nan if rng.random() < 0.5 else -np.inf
        out[0] = float(out[0])
        return tuple(out)

    return f


def make_faults(spec, mode):
    fl = spec.get('faults') or []
    rng = np.random.default_rng(spec['pseed'] + 1)
    return {int(k): fault_fun(kind, mode, rng) for k, kind in fl}


def rand_faults(rng, kinds, kmax=25, p=None):
    p = p if p is not None else cases.pick(rng, [0.1, 0.3, 0.6])
    out = []
    for k in range(1, kmax):
        if rng.random() < p:
            out.append([k, cases.pick(rng, kinds)])
    return out


VALUE_FAULTS = ['nan', 'inf', '-inf', 'nan+', 'inf+', '-inf+']


def trace_of(spec, history=None, verbose=logging.CRITICAL + 1, b=None, on_call=None):
    b = b or cases.build(spec)
    rec = record.Recorder(b.problem, b.mode, faults=make_faults(spec, b.mode), on_call=on_call)
    opt = cases.make_opt(b, rec, history=history, verbose=verbose)
    return b, record.run_min(opt, rec, b.x0, hess0=b.hess0)


def moderate(t):
    """all data the objective returned is finite and of moderate size"""
    for c in t.calls:
        for k in ('f', 'g', 'H', 'res', 'sres'):
            v = c.get(k)
            if v is not None and not np.all(np.abs(np.asarray(v, float)) < HUGE):
                return False
    return True


def path_of(t):
    """string over A(ccepted) R(ejected) N(on-finite)"""
    s = ''
    for k, c, pre, post, last in oracles.trials(t):
        if last and t.exc is not None:
            s += '!'
        elif not np.isfinite(c.get('f', np.nan)):
            s += 'N'
        else:
            s += 'R' if same(pre['x'], post['x']) and same(pre['fval'], post['fval']) else 'A'
    return s


def trace_sig(spec, t):
    p = path_of(t)
    return (spec['scheme'], spec['solver'], spec['stepback'], spec['bounds'], spec['n'], p,
            t.final['exitflag'].name)


class TraceCheck(Check):
    """random configuration x problem x start, monitored by one trace oracle"""

    oracle = None
    gen_kw = {}
    fault_p = 0.25
    history_p = 0.0
    rule = (
        'random problem x bounds x start x Hessian scheme x subproblem solver x step-back strategy x options '
        '(numpy Generator seeded by seed, property and case number); non-trivial: the run evaluated at least '
        'three trial points; distinct: by (scheme, solver, strategy, bound kind, dimension, accept/reject/'
        'non-finite path, exit flag)'
    )

    def gen(self, rng, i, tier):
        kw = dict(self.gen_kw)
        if tier == 'thorough':
            kw.setdefault('nmax', 8)
            kw.setdefault('maxiter', (5, 80))
        spec = cases.gen(rng, **kw)
        if rng.random() < self.fault_p:
            spec['faults'] = rand_faults(rng, VALUE_FAULTS)
        return spec

    def judge(self, b, t, cnt):
        return list(type(self).oracle(b, t, cnt))

    def run(self, spec, cnt):
        b, t = trace_of(spec)
        cnt['runs'] += 1
        cnt['evaluations_observed'] += len(t.calls)
        viol = self.judge(b, t, cnt)
        p = path_of(t)
        for ch in p:
            cnt[{'A': 'trials_accepted', 'R': 'trials_rejected', 'N': 'trials_nonfinite', '!': 'trials_aborted'}[ch]] += 1
        return viol, trace_sig(spec, t) if len(t.calls) > 3 else None


@register
class C01(TraceCheck):
    id = 'C01'
    oracle = oracles.o_feasible
    n = {'quick': 5000, 'thorough': 60000}
    technique = 'runtime monitoring: per-evaluation bound monitor on recorded objective calls'
    gen_kw = {'bounds': [k for k in cases.BOUNDS if k != 'none'] + ['tight', 'exclude', 'narrow', 'bigmag'],
              'x0': cases.X0 + ['corner', 'nearbound']}

    def gen(self, rng, i, tier):
        spec = super().gen(rng, i, tier)
        if rng.random() < 0.12:
            spec['x0out'] = [int(rng.integers(2**31)), float(10 ** rng.uniform(-9, 3)),
                             cases.pick(rng, ['one', 'many', 'nan'])]
        return spec

    def run(self, spec, cnt):
        if 'x0out' not in spec:
            return super().run(spec, cnt)
        b = cases.build(spec)
        seed, size, kind = spec['x0out']
        rng = np.random.default_rng(seed)
        fin = [(i, s) for i in range(len(b.x0)) for s, l in ((1, b.ub), (-1, b.lb)) if np.isfinite(l[i])]
        if not fin:
            return [], None
        x0 = b.x0.copy()
        for j in range(1 if kind != 'many' else len(fin)):
            i, s = fin[int(rng.integers(len(fin)))]
            l = (b.ub if s > 0 else b.lb)[i]
            x0[i] = np.nan if kind == 'nan' else l + s * size * max(1.0, abs(l))
        b.x0 = x0
        b, t = trace_of(spec, b=b)
        cnt['infeasible_starts'] += 1
        v = []
        if t.calls:
            v.append(('infeasible_evaluated', f'start {x0!r} outside [{b.lb!r},{b.ub!r}] was evaluated {len(t.calls)} times'))
        if t.exc is None:
            v.append(('infeasible_accepted', f'start {x0!r} outside [{b.lb!r},{b.ub!r}] did not raise'))
        elif t.final['exitflag'] != ExitFlag.EXCEEDED_BOUNDARY:
            v.append(('infeasible_flag', f"{t.exc!r}, exit flag {t.final['exitflag']!r}"))
        return v, ('infeasible', kind, spec['n'], spec['bounds'], round(np.log10(size)))


@register
class C02(TraceCheck):
    id = 'C02'
    oracle = oracles.o_coherent
    n = {'quick': 4800, 'thorough': 50000}
    technique = 'runtime monitoring: reported results matched bit for bit against the objective call log'

    def judge(self, b, t, cnt):
        v = super().judge(b, t, cnt)
        if t.exc is None and t.calls and path_of(t)[-1:] in ('R', 'N'):
            cnt['results_after_rejected_last_trial'] += 1
        return v


@register
class C03(TraceCheck):
    id = 'C03'
    oracle = oracles.o_descent
    n = {'quick': 4800, 'thorough': 50000}
    technique = 'runtime monitoring: state transition monitor between consecutive objective calls'


@register
class C04(TraceCheck):
    id = 'C04'
    oracle = oracles.o_best
    n = {'quick': 4800, 'thorough': 50000}
    fault_p = 0.4
    technique = 'runtime monitoring: online minimum tracker compared inside every objective call'

    def gen(self, rng, i, tier):
        spec = super().gen(rng, i, tier)
        spec['rerun'] = int(rng.integers(0, 3)) if rng.random() < 0.4 else 0
        if rng.random() < 0.15:  # also runs that abort with an error
            spec.setdefault('faults', []).append([int(rng.integers(1, 8)), cases.pick(rng, ['g', 'h'])])
        return spec

    def run(self, spec, cnt):
        b = cases.build(spec)
        rec = record.Recorder(b.problem, b.mode, faults=make_faults(spec, b.mode))
        opt = cases.make_opt(b, rec)
        viol = []
        rng = np.random.default_rng(spec['bseed'] + 7)
        x0 = b.x0
        for r in range(spec['rerun'] + 1):
            t = record.run_min(opt, rec, x0, hess0=b.hess0)
            cnt['runs'] += 1
            cnt['evaluations_observed'] += len(t.calls)
            viol += self.judge(b, t, cnt)
            # later runs start from a worse point, so that stale minima show
            x0 = cases.rand_x0(rng, b.lb, b.ub, b.problem.center + rng.normal(size=b.spec['n']), 'interior')
            rec.faults = {}
        better = any(np.isfinite(c.get('f', np.nan)) and c['f'] < t.final['fval'] for c in t.calls)
        if better:
            cnt['runs_whose_best_was_not_accepted'] += 1
        return viol, trace_sig(spec, t) if len(t.calls) > 3 else None


@register
class C05(TraceCheck):
    id = 'C05'
    oracle = oracles.o_ratio
    n = {'quick': 4800, 'thorough': 50000}
    gen_kw = {'style': 'rand'}
    technique = 'runtime monitoring: ratio and radius law recomputed for every trial from recorded values'


@register
class C10(TraceCheck):
    id = 'C10'
    oracle = oracles.o_exit
    n = {'quick': 5200, 'thorough': 50000}
    gen_kw = {'style': 'rand', 'maxiter': (0, 80)}
    technique = 'runtime monitoring: stopping rules replayed by a monitor on every recorded trace'


class VirtualClock:
    """replaces the clocks of module time for the duration of a run"""

    NAMES = ('time', 'monotonic', 'perf_counter', 'process_time')

    def __init__(self):
        self.now = 1000.0

    def __enter__(self):
        import time

        import fides.minimize as fm

        self.saved = {k: getattr(time, k) for k in self.NAMES}
        self.mods = []
        clock = lambda: self.now  # noqa: E731
        for k, f in self.saved.items():
            setattr(time, k, clock)
            for nm, v in list(vars(fm).items()):
                if v is f:
                    self.mods.append((fm, nm, v))
                    setattr(fm, nm, clock)
        return self

    def __exit__(self, *a):
        import time

        for k, f in self.saved.items():
            setattr(time, k, f)
        for m, nm, v in self.mods:
            setattr(m, nm, v)


@register
class C11(Check):
    id = 'C11'
    n = {'quick': 6000, 'thorough': 50000}
    technique = 'runtime monitoring: evaluation counters and a virtual clock driven by the objective'
    rule = (
        'random configuration, iteration limit 0..60 and, in two thirds of the cases, a time limit with a random '
        'pattern of evaluation durations on a virtual clock; non-trivial: the time or iteration limit stopped the run; '
        'distinct: by (pattern, limit, scheme, solver, path, flag)'
    )
    assumptions = ('the optimizer reads the wall clock through the standard time module',)

    def gen(self, rng, i, tier):
        spec = cases.gen(rng, maxiter=(0, 60), nmax=4, style='default', refine_w=0.1)
        m = spec['options']['maxiter']
        if rng.random() < 0.3:
            spec['options']['maxiter'] = m = int(rng.integers(0, 4))
        if rng.random() < 0.67:
            spec['options'].update(fatol=0.0, frtol=0.0, gatol=0.0)
            pat = cases.pick(rng, ['const', 'slowfirst', 'slowlater', 'random', 'bursts', 'zero'])
            spec['clock'] = [pat, int(rng.integers(2**31))]
            spec['options']['maxtime'] = float(cases.pick(rng, [0.0, 1.0, 5.0, 20.0, 100.0]) * rng.uniform(0.5, 1.5))
        return spec

    def durations(self, pat, seed, k=400):
        rng = np.random.default_rng(seed)
        if pat == 'const':
            return np.full(k, float(rng.choice([0.5, 1.0, 2.0])))
        if pat == 'slowfirst':
            d = np.full(k, 0.25)
            d[: int(rng.integers(1, 4))] = rng.uniform(2, 30)
            return d
        if pat == 'slowlater':
            d = np.full(k, 0.25)
            d[int(rng.integers(1, 10))] = rng.uniform(2, 60)
            return d
        if pat == 'bursts':
            return np.where(rng.random(k) < 0.2, rng.uniform(1, 20, k), 0.01)
        if pat == 'zero':
            return np.zeros(k)
        return rng.exponential(1.0, k)

    def run(self, spec, cnt):
        v = []
        clock = None
        if 'clock' not in spec:
            b, t = trace_of(spec)
            d = None
        else:
            d = self.durations(*spec['clock'])
            b = cases.build(spec)
            with VirtualClock() as clock:
                t0 = clock.now

                def tick(i):
                    clock.now += d[i]

                b, t = trace_of(spec, b=b, on_call=tick)
        v += list(oracles.o_budget(b, t, cnt))
        flag = t.final['exitflag']
        K = len(t.calls) - 1
        maxiter = oracles.opt_of(b, 'maxiter')
        if t.exc is None and K < 0:
            v.append(('no_evaluation', 'run returned without evaluating the start'))
        if d is not None and t.exc is None:
            maxtime = oracles.opt_of(b, 'maxtime')
            el = np.cumsum(d[: K + 1])
            for k in range(0, K + 1):
                # k iterations done, elapsed el[k]
                avg = el[k] / max(k, 1)
                left = maxtime - el[k]
                tol = 1e-9 * (1 + el[k])
                if k < K:
                    cnt['time_decisions'] += 1
                    if left < avg - tol:
                        v.append(('time_overrun', f'iteration {k + 1} started with {left!r} s left at {avg!r} s per iteration'))
                elif flag == ExitFlag.MAXTIME and left > avg + tol:
                    v.append(('time_early', f'stopped for time after {k} iterations with {left!r} s left at {avg!r} s per iteration'))
                elif flag not in (ExitFlag.MAXTIME, ExitFlag.MAXITER) and int(flag) <= 0 and left < avg - tol:
                    v.append(('time_flag', f'time limit met but flag {flag.name}'))
            cnt['virtual_seconds'] += int(el[K])
        cnt['stopped_' + flag.name] += 1
        if flag == ExitFlag.MAXITER:
            if K != maxiter:
                v.append(('maxiter_early', f'MAXITER after {K} of {maxiter} iterations'))
        sig = None
        if flag in (ExitFlag.MAXITER, ExitFlag.MAXTIME):
            sig = (spec.get('clock', ['none'])[0], maxiter, spec['scheme'], spec['solver'], path_of(t), flag.name)
        return v, sig


@register
class C12(Check):
    id = 'C12'
    level = 'fault_enumeration'
    n = {'quick': 640, 'thorough': 10000}
    technique = 'runtime monitoring under fault injection: every evaluation position x fault kind, plus random fault patterns'
    rule = (
        'for a random configuration every position of the first evaluations is hit by every kind of non-finite value, '
        'gradient or Hessian (one run per position and kind), plus one run with a random pattern and one without faults; '
        'non-trivial: at least one fault was delivered; distinct: by (position/kind, scheme, solver, strategy, path, flag)'
    )

    def gen(self, rng, i, tier):
        spec = cases.gen(rng, maxiter=(8, 25), tails=False, nmax=4 if tier == 'quick' else 6, refine_w=0.1,
                         problems_=[q for q in cases.problems.ALL if q != 'barrier'])
        spec['positions'] = 5 if tier == 'quick' else 12
        return spec

    def judge(self, spec, cnt):
        b, t = trace_of(spec)
        v = []
        cnt['runs'] += 1
        last = len(t.calls) - 1
        flag = t.final['exitflag']
        g1 = oracles.opt_of(b, 'gamma1')
        st = oracles.states(t)
        uses_h = b.mode in ('fgh', 'res')
        allfinite = True
        hit = False
        for k, c in enumerate(t.calls):
            if not np.all(np.isfinite(c['x'])):
                v.append(('nonfinite_point', f"call {k}: x={c['x']!r}"))
            f_ok = bool(np.isfinite(c['f']))
            d_ok = bool(np.all(np.isfinite(c['g'])) and (not uses_h or np.all(np.isfinite(c['H']))))
            hit |= not (f_ok and d_ok)
            allfinite &= f_ok and d_ok
            aborted = t.exc is not None and k == last
            if k == 0 and not f_ok or f_ok and not d_ok:
                cnt['fatal_faults'] += 1
                if not aborted or not isinstance(t.exc, RuntimeError):
                    v.append(('fatal_not_raised', f"call {k}: f={c['f']!r} g={c['g']!r} but run went on or ended with {t.exc!r}"))
                elif flag != ExitFlag.NOT_FINITE:
                    v.append(('fatal_flag', f'call {k}: {t.exc!r} but flag {flag.name}'))
            elif k > 0 and not f_ok:
                cnt['contained_faults'] += 1
                if aborted:
                    v.append(('contained_raised', f"call {k}: f={c['f']!r} g={c['g']!r} aborted the run: {t.exc!r}"))
                    continue
                pre, post = st[k], st[k + 1]
                for nm in ('x', 'fval', 'grad', 'hess', 'x_min', 'fval_min', 'grad_min'):
                    if not same(pre[nm], post[nm]):
                        v.append(('contained_state', f'call {k}: {nm} changed from {pre[nm]!r} to {post[nm]!r}'))
                if not post['delta'] <= g1 * pre['delta'] * (1 + 1e-12):
                    v.append(('contained_radius', f"call {k}: radius {pre['delta']!r} -> {post['delta']!r}"))
        if t.exc is None:
            if flag in (ExitFlag.NOT_FINITE, ExitFlag.DID_NOT_RUN, ExitFlag.EXCEEDED_BOUNDARY):
                v.append(('flag', f'run returned with flag {flag.name}'))
            for nm in ('fval', 'x', 'grad', 'hess', 'x_min', 'fval_min', 'grad_min'):
                if not np.all(np.isfinite(t.final[nm])):
                    v.append(('nonfinite_result', f'{nm}={t.final[nm]!r}'))
        elif allfinite and moderate(t):
            v.append(('finite_raised', f'all data finite but run raised {t.exc!r}'))
        cnt['flag_' + flag.name] += 1
        return v, (tuple(map(tuple, spec.get('faults') or ())), spec['scheme'], spec['solver'],
                   spec['stepback'], path_of(t), flag.name) if hit else None

    def run(self, spec, cnt):
        viol, sigs = [], []
        kinds = VALUE_FAULTS + ['g', 'h']
        if cases.mode_of(spec['scheme']) == 'fg':
            kinds = [k for k in kinds if k != 'h']
        rng = np.random.default_rng(spec['pseed'] + 3)
        plans = [[]] + [[[k, kind]] for k in range(spec['positions']) for kind in kinds]
        plans += [rand_faults(rng, VALUE_FAULTS) for _ in range(3)]
        if 'plan' in spec:
            plans = [spec['plan']]
        for p in plans:
            v, s = self.judge({**spec, 'faults': p}, cnt)
            viol += [(k, f'faults {p}: {m}') for k, m in v]
            if s is not None:
                sigs.append(s)
        cnt['fault_runs_hit'] += len(sigs)
        return viol, tuple(sigs) or None
