"""C22-C24: interfaces, input validation, options."""
import logging
from fractions import Fraction
from pathlib import Path

import numpy as np

import fides
from fides import ExitFlag, Options, StepBackStrategy, SubSpaceDim

from .. import cases, compare, oracles, record
from ..spec import disp, same
from .base import Check, make_faults, path_of, register, trace_of, trace_sig, VALUE_FAULTS, rand_faults
from .hess import drop_logger


class GN:
    """least-squares problem presented as value, gradient, Gauss-Newton Hessian"""

    def __init__(self, p, noise=0.0, seed=0):
        self.p, self.noise, self.rng = p, noise, np.random.default_rng(seed)

    def fgh(self, x):
        r, J = self.p.rj(x)
        f, g, H = 0.5 * r.T.dot(r), r.T.dot(J), J.T.dot(J)
        if self.noise:
            u = lambda a: a * (1 + self.noise * self.rng.uniform(-1, 1, np.shape(a)))  # noqa: E731
            f, g, H = float(u(f)), u(g), u(H)
            H = (H + H.T) / 2
        return f, g, H

    def rj(self, x):
        return self.p.rj(x)


def rel(a, b, scale):
    if np.shape(a) != np.shape(b) or not np.all(np.isfinite(a)):
        return np.inf
    return float(np.linalg.norm(np.asarray(a) - b) / scale)


@register
class C22(Check):
    id = 'C22'
    n = {'quick': 2800, 'thorough': 25000}
    technique = 'runtime monitoring: paired runs through the residual and the value/gradient/Hessian interface'
    rule = (
        'random least-squares problem (also with fewer residuals than variables) and configuration, run through the '
        'residual interface and through the equivalent value/gradient/Gauss-Newton interface; traces are compared bit for '
        'bit, else up to the divergence of three twins with relative noise 1e-12; with structured schemes the value and '
        'gradient in use are compared with the residuals at every call; extra arguments are compared at every call; '
        'non-trivial: three trials; distinct: by scheme, solver, strategy, path and flag'
    )

    def gen(self, rng, i, tier):
        gn = rng.random() < 0.6
        spec = cases.gen(rng, schemes=['GN'] if gn else cases.RES + ['none', 'BFGS', 'HybridFixed:BFGS'],
                         nmax=5 if tier == 'quick' else 9, maxiter=(3, 40), refine_w=0.1)
        if rng.random() < 0.2:
            spec['faults'] = rand_faults(rng, VALUE_FAULTS)
        spec['aseed'] = int(rng.integers(2**31))
        return spec

    def run(self, spec, cnt):
        rng = np.random.default_rng(spec['aseed'])
        b = cases.build(spec)
        v = []
        args = {}
        for nm in ('data', 'sigma', 'flag', 'x_extra')[: int(rng.integers(0, 5))]:
            args[nm] = cases.pick(rng, [np.arange(4.0), 'text', 3, {'k': [1]}, None, 2.5])
        objs = dict(args)
        given = args if args or rng.random() < 0.5 else None

        def watch(rec):
            for k, c in enumerate(rec.calls):
                cnt['funargs_checked'] += 1
                if set(c['kw']) != set(objs) or any(c['kw'][n] is not objs[n] and not same_obj(c['kw'][n], objs[n]) for n in objs):
                    v.append(('funargs', f"call {k}: got {c['kw']!r}, configured {objs!r}"))
                    break

        rec = record.Recorder(b.problem, b.mode, faults=make_faults(spec, b.mode))
        opt = cases.make_opt(b, rec, funargs=given)
        t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
        watch(rec)
        drop_logger(opt)
        sig = trace_sig(spec, t) if len(t.calls) > 3 else None
        if b.mode != 'res':
            return v, sig
        # value and gradient in use are those of the residuals
        st = oracles.states(t)
        for k, c in enumerate(t.calls[1:] + [None], 1):
            s = st[k]
            if s is None or t.exc is not None and c is None or not t.calls:
                continue
            at = [q for q in t.calls[:k] if same(q['x'], s['x']) and 'res' in q]
            cnt['residual_states_checked'] += 1
            if not any(self.matches(q, s, spec) for q in at):
                v.append(('residual_state', f"before evaluation {k}: f={s['fval']!r} g={s['grad']!r} at {s['x']!r} are not those of the residuals"))
                break
        if spec['scheme'] != 'GN':
            return v, sig
        # the same run through the other interface
        ref = self.twin(spec, 0.0, 0)
        d = compare.diff(compare.pack(t), ref, what=('calls', 'ret', 'exc'), outputs=False)
        if not d:
            cnt['bitwise_equal_runs'] += 1
            return v, sig
        cnt['tolerance_runs'] += 1
        if spec.get('faults') and t.exc is not None:
            return v, sig
        tw = [self.twin(spec, 1e-12, s) for s in (1, 2, 3)]
        xs = [c['x'] for c in t.calls]
        xr = [c['x'] for c in ref['calls']]
        xt = [[c['x'] for c in w['calls']] for w in tw]
        scale = 1e-300
        for k in range(max(len(xs), len(xr))):
            have = [len(q) > k for q in [xr] + xt]
            if len(set(have)) > 1:
                break
            if have[0] != (len(xs) > k):
                v.append(('number', f'{len(xs)} evaluations through residuals, {len(xr)} through value/gradient/Hessian'))
                break
            if not have[0]:
                break
            scale = max(scale, np.linalg.norm(xr[k] - xr[0])) if k else max(1e-300, np.linalg.norm(xr[0]))
            noise = max(rel(q[k], xr[k], scale) for q in xt)
            if noise > 1e-9:
                break
            dv = rel(xs[k], xr[k], scale)
            cnt['points_compared_with_tolerance'] += 1
            if dv > 1e-6 + 1e3 * noise:
                v.append(('differs', f'evaluation {k}: {xs[k]!r} through residuals, {xr[k]!r} otherwise (sensitivity {noise:.1e})'))
                break
        return v, sig

    def matches(self, q, s, spec):
        r, J = np.asarray(q['res'], float), np.asarray(q['sres'], float)
        m = 1e-13 * (len(r) + 2)
        ok = abs(s['fval'] - 0.5 * r @ r) <= m * (r @ r) and np.all(
            np.abs(s['grad'] - r @ J) <= m * (np.abs(r) @ np.abs(J)))
        if ok and spec['scheme'] == 'GN':
            ok = np.shape(s['hess']) == (J.shape[1],) * 2 and np.all(
                np.abs(s['hess'] - J.T @ J) <= m * (np.abs(J).T @ np.abs(J)))
        return bool(ok)

    def twin(self, spec, noise, seed):
        s2 = {**spec, 'scheme': 'none'}
        b = cases.build(s2)
        b.problem = GN(b.problem, noise, seed)
        faults = {}
        for k, f in make_faults(spec, 'res').items():
            def g(out, f=f, b=b):
                x = rec.calls[-1]['x']
                r, J = f(b.problem.rj(x))
                return 0.5 * r.T.dot(r), r.T.dot(J), J.T.dot(J)
            faults[k] = g
        rec = record.Recorder(b.problem, 'fgh', faults=faults)
        opt = cases.make_opt(b, rec, happ=None)
        t = record.run_min(opt, rec, b.x0)
        drop_logger(opt)
        return compare.pack(t)


def same_obj(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and same(a, b)
    return type(a) is type(b) and a == b


# C23 ------------------------------------------------------------------------
class Planned(Exception):
    pass


class PlannedBase(BaseException):
    pass


EXC = [Planned, ValueError, RuntimeError, ZeroDivisionError, KeyError, StopIteration, AttributeError, TypeError,
       FloatingPointError, np.linalg.LinAlgError, PlannedBase, KeyboardInterrupt, IndexError, NotImplementedError,
       AssertionError, OSError, ArithmeticError]

BADOUT = {
    # name: (applies to modes, function)
    'count-1': ('fgh fg res', lambda o, r: o[:-1]),
    'count+1': ('fgh fg res', lambda o, r: o + (o[-1],)),
    'single': ('fgh fg res', lambda o, r: o[0]),
    'empty': ('fgh fg res', lambda o, r: ()),
    'none': ('fgh fg res', lambda o, r: None),
    'f_vec1': ('fgh fg', lambda o, r: (np.array([o[0]]),) + o[1:]),
    'f_vec': ('fgh fg', lambda o, r: (np.full(len(o[1]), o[0]),) + o[1:]),
    'f_list': ('fgh fg', lambda o, r: ([o[0]],) + o[1:]),
    'f_mat': ('fgh fg', lambda o, r: (np.array([[o[0]]]),) + o[1:]),
    'f_none': ('fgh fg', lambda o, r: (None,) + o[1:]),
    'g_scalar': ('fgh fg', lambda o, r: (o[0], float(o[1][0])) + o[2:]),
    'g_0d': ('fgh fg', lambda o, r: (o[0], np.array(o[1][0])) + o[2:]),
    'g_long': ('fgh fg', lambda o, r: (o[0], np.append(o[1], 1.0)) + o[2:]),
    'g_short': ('fgh fg', lambda o, r: (o[0], o[1][:-1]) + o[2:]),
    'g_col': ('fgh fg', lambda o, r: (o[0], o[1][:, None]) + o[2:]),
    'g_row': ('fgh fg', lambda o, r: (o[0], o[1][None, :]) + o[2:]),
    'h_scalar': ('fgh', lambda o, r: o[:2] + (float(o[2][0, 0]),)),
    'h_0d': ('fgh', lambda o, r: o[:2] + (np.array(o[2][0, 0]),)),
    'h_vec': ('fgh', lambda o, r: o[:2] + (np.diag(o[2]).copy(),)),
    'h_big': ('fgh', lambda o, r: o[:2] + (np.eye(len(o[1]) + 1),)),
    'h_small': ('fgh', lambda o, r: o[:2] + (o[2][:-1, :-1],)),
    'h_wide': ('fgh', lambda o, r: o[:2] + (np.hstack([o[2], o[2][:, :1]]),)),
    'h_tall': ('fgh', lambda o, r: o[:2] + (np.vstack([o[2], o[2][:1]]),)),
    'h_3d': ('fgh', lambda o, r: o[:2] + (o[2][None],)),
    'r_col': ('res', lambda o, r: (o[0][:, None], o[1])),
    'r_long': ('res', lambda o, r: (np.append(o[0], 1.0), o[1])),
    'J_wide': ('res', lambda o, r: (o[0], np.hstack([o[1], o[1][:, :1]]))),
    'J_tall': ('res', lambda o, r: (o[0], np.vstack([o[1], o[1][:1]]))),
    'J_narrow': ('res', lambda o, r: (o[0], o[1][:, :-1])),
    'J_vec': ('res', lambda o, r: (o[0], o[1][:, 0] if o[1].shape[1] > 1 else np.append(o[1][:, 0], 1.0))),
}
BADX0 = {
    'scalar': lambda x: float(x[0]),
    '0d': lambda x: np.array(x[0]),
    'col': lambda x: x[:, None],
    'row': lambda x: x[None, :],
    'long': lambda x: np.append(x, 0.0),
    'short': lambda x: x[:-1],
    'double': lambda x: np.concatenate([x, x]),
    'empty': lambda x: np.zeros(0),
    '3d': lambda x: x[None, None, :],
    'listlist': lambda x: [list(x)],
}
BADH0 = {
    'scalar': lambda n: 2.0,
    '0d': lambda n: np.array(2.0),
    'vec': lambda n: np.ones(n),
    'big': lambda n: np.eye(n + 1),
    'small': lambda n: np.eye(n - 1) if n > 1 else np.eye(2),
    'wide': lambda n: np.ones((n, n + 1)),
    'tall': lambda n: np.ones((n + 1, n)),
    '3d': lambda n: np.eye(n)[None],
    'one': lambda n: np.ones((1, 1)) if n > 1 else np.ones((2, 2)),
}


@register
class C23(Check):
    id = 'C23'
    n = {'quick': 8000, 'thorough': 80000}
    technique = 'runtime monitoring under fault injection: malformed outputs, starts and matrices, and exceptions at every call'
    level = 'fault_enumeration'
    rule = (
        'random configuration hit by one of 30 malformed outputs, 10 malformed starts, 9 malformed initial Hessians or one '
        'of 17 exceptions at a random call, a scheme combined with the wrong kind of objective, or well-formed outputs in another scalar or array type; non-trivial: the fault '
        'was delivered (or three trials for well-formed ones); distinct: by fault, position, scheme, solver and dimension'
    )

    def gen(self, rng, i, tier):
        spec = cases.gen(rng, nmax=5, maxiter=(4, 15), refine_w=0.05)
        what = ['out', 'x0', 'hess0', 'exc', 'exc', 'well', 'out'][i % 7]
        if rng.random() < 0.05:
            spec['what'], spec['fault'] = 'interface', cases.pick(rng, [q for q in cases.SCHEMES if q != 'none'])
            return spec
        mode = cases.mode_of(spec['scheme'])
        if what == 'hess0' and spec['scheme'] == 'none':
            spec['scheme'] = 'BFGS'
            mode = 'fg'
        if what == 'out':
            fault = cases.pick(rng, [k for k, (m, _) in BADOUT.items() if mode in m.split()])
        elif what == 'x0':
            fault = cases.pick(rng, list(BADX0))
        elif what == 'hess0':
            fault = cases.pick(rng, list(BADH0))
        elif what == 'exc':
            fault = [cases.pick(rng, [e.__name__ for e in EXC]), int(rng.integers(0, 7))]
        else:
            fault = cases.pick(rng, ['np64', 'np32', 'int', 'npint', 'float', 'fortran', 'strided', 'subclass', 'lists_x0', 'onedim'])
            if fault == 'onedim':
                spec['n'] = 1
        spec['what'], spec['fault'] = what, fault
        return spec

    def run(self, spec, cnt):
        b = cases.build(spec)
        what, fault = spec['what'], spec['fault']
        rng = np.random.default_rng(spec['pseed'] + 5)
        hit = []
        v = []
        if what == 'well':
            return self.well(spec, b, cnt)
        if what == 'interface':
            # a scheme together with the other kind of objective
            res = cases.mode_of(fault) != 'res'
            cnt['interfaces'] += 1
            try:
                fides.Optimizer(lambda x: hit.append(1), ub=b.ub, lb=b.lb, verbose=logging.CRITICAL + 1,
                                hessian_update=cases.make_happ(fault), resfun=res)
                v.append(('interface', f'{fault} with resfun={res} is accepted'))
            except ValueError:
                pass
            except Exception as e:  # noqa: BLE001
                v.append(('interface', f'{fault} with resfun={res}: {e!r}'))
            return v, (what, fault, len(b.x0))
        x0, hess0 = b.x0, b.hess0
        faults = {}
        exc = None
        if what == 'out':
            def bad(out):
                hit.append(1)
                return BADOUT[fault][1](tuple(out), rng)
            faults[0] = bad
        elif what == 'exc':
            cls = next(e for e in EXC if e.__name__ == fault[0])
            exc = cls('planned', 17)

            def bad(out):
                hit.append(1)
                raise exc
            faults[fault[1]] = bad
        elif what == 'x0':
            x0 = BADX0[fault](x0)
            if np.shape(x0) == np.shape(b.x0):
                return [], None
            hit.append(1)
        else:
            hess0 = BADH0[fault](spec['n'])
            hit.append(1)
        rec = record.Recorder(b.problem, b.mode, faults=faults)
        opt = cases.make_opt(b, rec)
        got = None
        ret = None
        rec.opt = opt
        try:
            ret = opt.minimize(x0, hess0=hess0)
        except BaseException as e:  # noqa: BLE001
            if type(e).__name__ == 'CaseTimeout':
                raise
            got = e
        drop_logger(opt)
        if not hit:
            return [], None
        cnt['faults_' + what] += 1
        if what == 'exc':
            if got is not exc:
                v.append(('exception', f'objective raised {exc!r} at call {fault[1]}, caller got {got!r}'))
            elif got.args != ('planned', 17):
                v.append(('exception', f'exception altered: {got!r}'))
            if len(rec.calls) != fault[1] + 1:
                v.append(('after_exception', f'{len(rec.calls)} calls, exception at call {fault[1]}'))
        else:
            if not isinstance(got, ValueError):
                v.append(('accepted', f'{what} {fault}: ended with {got!r}, result {ret!r:.100}'))
            lim = 0 if what == 'x0' else 1
            if len(rec.calls) > lim or opt.iteration != 0:
                v.append(('iterated', f'{what} {fault}: {len(rec.calls)} evaluations, iteration {opt.iteration}'))
        if not v and what != 'exc' or exc is not None and rng.random() < 0.3:
            # the optimizer is still usable
            rec.faults = {}
            t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
            drop_logger(opt)
            cnt['reused_after_rejection'] += 1
            if t.exc is not None and np.all(np.isfinite([c['f'] for c in t.calls])):
                ok = isinstance(t.exc, RuntimeError) and t.final['exitflag'] == ExitFlag.NOT_FINITE
                if not ok:
                    v.append(('unusable', f'{what} {fault}: a well-formed run afterwards raised {t.exc!r}'))
        return v, (what, str(fault), spec['scheme'], spec['solver'], spec['n'])

    def well(self, spec, b, cnt):
        kind = spec['fault']
        scal = {'np64': np.float64, 'np32': np.float32, 'float': float}.get(kind)
        if kind in ('int', 'npint'):
            n = spec['n']
            A = 2 * np.eye(n)
            if b.mode == 'res':
                b.problem = cases.problems.Problem('i', n, rj=lambda x: (x - 1, np.eye(n)))
            else:
                b.problem = cases.problems.Problem('i', n, fgh=lambda x: (float((x - 1) @ (x - 1)), 2 * (x - 1), A.copy()))
            b.lb, b.ub = np.full(n, -40.0), np.full(n, 60.0)
            b.x0 = np.round(np.clip(b.x0, -30, 30))
            b.x0 = b.x0.astype(int)

        class Sub(np.ndarray):
            pass

        def transform(out):
            if not isinstance(out, tuple):
                return out
            new = []
            for j, o in enumerate(out):
                if np.ndim(o) == 0:
                    if scal is not None:
                        o = scal(o)
                    if kind in ('int', 'npint') and float(o).is_integer() and abs(o) < 1e9:
                        o = (int if kind == 'int' else np.int64)(o)
                elif kind == 'fortran':
                    o = np.asfortranarray(o)
                elif kind == 'strided':
                    q = np.full(tuple(2 * d for d in o.shape), np.nan)
                    q[tuple(slice(None, None, 2) for _ in o.shape)] = o
                    o = q[tuple(slice(None, None, 2) for _ in o.shape)]
                elif kind == 'subclass':
                    o = o.view(Sub)
                elif kind in ('int', 'npint') and np.array_equal(o, np.round(o)):
                    o = o.astype(np.int64 if kind == 'npint' else int)
                new.append(o)
            return tuple(new)

        rec = record.Recorder(b.problem, b.mode, transform=transform)
        opt = cases.make_opt(b, rec)
        x0 = list(map(float, b.x0)) if kind == 'lists_x0' else b.x0
        t = record.run_min(opt, rec, x0, hess0=b.hess0)
        drop_logger(opt)
        cnt['wellformed_runs'] += 1
        v = []
        finite = all(np.all(np.isfinite(np.asarray(c[k], float))) for c in t.calls for k in ('f', 'g', 'H') if k in c)
        if t.exc is not None and (len(t.calls) < 2 or finite and isinstance(t.exc, (ValueError, TypeError))):
            if finite:
                v.append(('rejected', f'well-formed {kind} outputs: {t.exc!r} after {len(t.calls)} evaluations'))
        return v, ('well', kind, spec['scheme'], spec['solver'], spec['n']) if len(t.calls) > 3 else None


# C24 ------------------------------------------------------------------------
REALS = [o for o in Options if o not in (Options.MAXITER, Options.SUBSPACE_DIM, Options.STEPBACK_STRAT, Options.HISTORY_FILE)]
DEFAULTS = {  # the documented defaults
    Options.MAXITER: 1e3, Options.MAXTIME: np.inf, Options.FATOL: 1e-8, Options.FRTOL: 1e-8, Options.XTOL: 0,
    Options.GATOL: 1e-6, Options.GRTOL: 0, Options.SUBSPACE_DIM: SubSpaceDim.TWO,
    Options.STEPBACK_STRAT: StepBackStrategy.REFLECT, Options.THETA_MAX: 0.95, Options.DELTA_INIT: 1.0,
    Options.MU: 0.25, Options.ETA: 0.75, Options.GAMMA1: 0.25, Options.GAMMA2: 2.0, Options.HISTORY_FILE: None,
}


def good_values(rng, o):
    if o is Options.MAXITER:
        return [10, np.int64(7), np.int32(3), 5.0, np.float64(12.0), 1e3, 0, np.uint8(4)]
    if o is Options.SUBSPACE_DIM:
        return list(SubSpaceDim) + [e.value for e in SubSpaceDim]
    if o is Options.STEPBACK_STRAT:
        return list(StepBackStrategy) + [e.value for e in StepBackStrategy]
    if o is Options.HISTORY_FILE:
        return ['/nowhere/h.h5', Path('/nowhere/h.h5'), None]
    return [0.5, np.float64(0.3), np.float32(0.25), 1, np.int64(1), Fraction(1, 2)]


def bad_values(rng, o):
    """(value, exception)"""
    if o is Options.SUBSPACE_DIM:
        return [(x, ValueError) for x in ('3D', 'FULL', 'two', '', 5, None, 2.0, ('2D',), StepBackStrategy.REFLECT, '2d', 'scg ')]
    if o is Options.STEPBACK_STRAT:
        return [(x, ValueError) for x in ('reflection', 'REFLECT', '', 1, None, ('reflect',), SubSpaceDim.FULL, 'none')]
    if o is Options.HISTORY_FILE:
        return [(x, TypeError) for x in (5, 1.0, b'h.h5', ['h.h5'], True, {})]
    bad = ['1', 'a', None, [1.0], (1,), {}, 1j, np.array([0.5]), b'1', object]
    if o is Options.MAXITER:
        bad += [1.5, np.float64(0.1), 1e-3, Fraction(1, 2)]
    return [(x, TypeError) for x in bad]


BADKEYS = ['maxit', 'MAXITER', 'foo', '', 5, None, ('maxiter',), 1.0, 'max_iter', 'Maxiter', 'subspace_dim', b'maxiter',
           'stepback', ExitFlag.FTOL, SubSpaceDim.TWO]


@register
class C24(Check):
    id = 'C24'
    n = {'quick': 4000, 'thorough': 50000}
    technique = 'runtime monitoring: constructor calls judged against the documented option table, and paired runs'
    rule = (
        'alternately: option dictionaries with valid values, one wrong value, one unknown key, or the CG/refinement '
        'combination in every spelling passed to the constructor; runs with options spelled by enum or string and choices '
        'by enum or string; runs with an option omitted or set to its documented default; runs that differ in one option '
        'over a battery of problems, of which some must differ; non-trivial: all constructor cases, and runs of three '
        'trials; distinct: by keys, spellings, values, outcome and path'
    )

    def gen(self, rng, i, tier):
        what = ['ctor', 'spell', 'default', 'ctor', 'spell', 'ctor', 'combo', 'default', 'effect'][i % 9]
        if what == 'effect' and i // 9 >= len(self.VALUES):
            what = 'spell'
        return {'what': what,
                'seed': int(rng.integers(2**31)), 'i': int(i),
                'case': cases.gen(rng, schemes=['none', 'BFGS', 'SR1', 'FX:BFGS', 'HybridFraction:BFGS'], nmax=4, maxiter=(3, 25), refine_w=0.2)}

    def construct(self, opts, cnt):
        cnt['constructions'] += 1
        try:
            fides.Optimizer(lambda x: (0.0, x, np.eye(2)), ub=np.ones(2), lb=-np.ones(2), verbose=logging.ERROR, options=opts)
        except Exception as e:  # noqa: BLE001
            return e
        return None

    def spell(self, rng, o):
        return o if rng.random() < 0.5 else o.value

    def ctor(self, spec, rng, cnt):
        keys = [o for o in Options if rng.random() < 0.4]
        keys = [keys[j] for j in rng.permutation(len(keys))]
        opts = {self.spell(rng, o): cases.pick(rng, good_values(rng, o)) for o in keys}
        plain = {Options(k): x for k, x in opts.items()}
        clash = plain.get(Options.SUBSPACE_DIM) == 'scg' and plain.get(Options.STEPBACK_STRAT) == 'refine'
        kind = cases.pick(rng, ['good', 'key', 'value', 'value'])
        want = ValueError if clash else None
        o = None
        if kind == 'key':
            want = ValueError
            items = list(opts.items())
            items.insert(int(rng.integers(len(items) + 1)), (cases.pick(rng, BADKEYS), cases.pick(rng, [1, 'x', None])))
            opts = dict(items)
        elif kind == 'value':
            o = list(Options)[spec['i'] % len(Options)] if rng.random() < 0.7 else cases.pick(rng, list(Options))
            k = self.spell(rng, o)
            for q in (o, o.value):
                opts.pop(q, None)
            x, want = cases.pick(rng, bad_values(rng, o))
            items = list(opts.items())
            items.insert(int(rng.integers(len(items) + 1)), (k, x))
            opts = dict(items)
        e = self.construct(opts, cnt)
        v = []
        if (want is None) != (e is None) or want is not None and not isinstance(e, want):
            v.append(('construct', f'{opts!r}: got {e!r}, expected {want.__name__ if want else "success"}'))
        cnt['outcome_' + (type(e).__name__ if e else 'ok')] += 1
        return v, (kind, repr(sorted(map(repr, opts.items()))), type(e).__name__)

    def combo(self, spec, rng, cnt):
        v = []
        so = [SubSpaceDim.STEIHAUG, 'scg']
        sb = [StepBackStrategy.REFINE, 'refine']
        extra = {self.spell(rng, o): cases.pick(rng, good_values(rng, o)) for o in REALS if rng.random() < 0.2}
        for k1 in (Options.SUBSPACE_DIM, 'subspace_solver'):
            for k2 in (Options.STEPBACK_STRAT, 'stepback_strategy'):
                for x in so:
                    for y in sb:
                        for it in ([(k1, x), (k2, y)], [(k2, y), (k1, x)]):
                            e = self.construct({**dict(it), **extra}, cnt)
                            if not isinstance(e, ValueError):
                                v.append(('combo', f'{it!r}: {e!r}'))
                    for y in StepBackStrategy:
                        if y.value != 'refine':
                            for z in (y, y.value):
                                e = self.construct({k1: x, k2: z}, cnt)
                                if e is not None:
                                    v.append(('combo', f'{x!r} with {z!r}: {e!r}'))
        return v, ('combo', repr(sorted(map(str, extra))))

    def execute(self, b, opts, cnt):
        rec = record.Recorder(b.problem, b.mode)
        try:
            opt = fides.Optimizer(rec, ub=b.ub, lb=b.lb, verbose=logging.CRITICAL, options=opts,
                                  hessian_update=cases.make_happ(b.spec['scheme']), resfun=b.mode == 'res')
        except Exception as e:  # noqa: BLE001
            return None, e
        t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
        drop_logger(opt)
        cnt['paired_evaluations'] += len(t.calls)
        return t, None

    def pair(self, b, o1, o2, cnt, what):
        t1, e1 = self.execute(b, o1, cnt)
        t2, e2 = self.execute(b, o2, cnt)
        if e1 is not None or e2 is not None:
            return [(what, f'{o1!r}: {e1!r}; {o2!r}: {e2!r}')], None
        d = compare.diff(compare.pack(t1), compare.pack(t2), what=('calls', 'ret', 'exc', 'final'))
        return [(what, f'{o1!r} against {o2!r}: {k}: {m}') for k, m in d], t1

    def spelling(self, spec, rng, cnt):
        b = cases.build(spec['case'])
        base = {Options(k): x for k, x in b.options.items()}
        base[Options.SUBSPACE_DIM] = SubSpaceDim(base[Options.SUBSPACE_DIM])
        base[Options.STEPBACK_STRAT] = StepBackStrategy(base[Options.STEPBACK_STRAT])
        items = []
        for k, x in base.items():
            if isinstance(x, (SubSpaceDim, StepBackStrategy)) and rng.random() < 0.6:
                x = x.value
            items.append((k.value if rng.random() < 0.6 else k, x))
        other = dict(items[j] for j in rng.permutation(len(items)))
        v, t = self.pair(b, base, other, cnt, 'spelling')
        return v, ('spell', tuple(sorted(map(repr, other.items()))), path_of(t)) if t is not None and len(t.calls) > 3 else None

    def default(self, spec, rng, cnt):
        b = cases.build(spec['case'])
        base = {Options(k): x for k, x in b.options.items()}
        drop = [o for o in Options if rng.random() < 0.5 and o is not Options.MAXITER] or [Options.DELTA_INIT]
        omit = {k: x for k, x in base.items() if k not in drop}
        if omit.get(Options.SUBSPACE_DIM) == 'scg' and omit.get(Options.STEPBACK_STRAT) == 'refine':
            omit.pop(Options.SUBSPACE_DIM)
            drop.append(Options.SUBSPACE_DIM)
        full = {**omit, **{o: DEFAULTS[o] for o in drop}}
        if rng.random() < 0.15:  # all of them
            omit, full = {}, dict(DEFAULTS)
            if rng.random() < 0.3:
                omit = None
        v, t = self.pair(b, omit, full, cnt, 'default')
        return v, ('default', tuple(sorted(o.value for o in drop)), path_of(t)) if t is not None and len(t.calls) > 3 else None

    VALUES = {
        Options.SUBSPACE_DIM: ['2D', 'full', 'scg'],
        Options.STEPBACK_STRAT: ['reflect', 'reflect_single', 'truncate', 'mixed', 'refine'],
        Options.THETA_MAX: [0.3, 0.95], Options.DELTA_INIT: [0.05, 1.0], Options.MU: [0.02, 0.7], Options.ETA: [0.05, 0.98],
        Options.GAMMA1: [0.05, 0.8], Options.GAMMA2: [1.2, 6.0], Options.FATOL: [0.0, 1.0], Options.FRTOL: [0.0, 0.5],
        Options.XTOL: [0.0, 0.5], Options.GATOL: [0.0, 1.0], Options.GRTOL: [0.0, 0.5], Options.MAXITER: [2, 5],
    }

    def effect(self, spec, rng, cnt):
        """every option has an effect: values of it lead to different runs on a fixed battery"""
        o = list(self.VALUES)[(spec['i'] // 9) % len(self.VALUES)]
        vals = self.VALUES[o]
        seen = {x: [] for x in vals}
        fixed = np.random.default_rng(1234)
        for j in range(24):
            s = cases.gen(fixed, schemes=['none'], bounds=['tight', 'box', 'exclude', 'mixed'], nmax=4, maxiter=(20, 30), style='default',
                          problems_=['qp_convex', 'qp_indef', 'rosen', 'wells', 'trig', 'quartic'])
            s['n'] = 3 + j % 3
            b = cases.build(s)
            base = {'maxiter': 25}
            if o in (Options.FATOL, Options.FRTOL, Options.XTOL, Options.GATOL, Options.GRTOL):
                base.update(fatol=0.0, frtol=0.0, gatol=0.0)
            for x in vals:
                t, e = self.execute(b, {**base, o.value: x}, cnt)
                seen[x].append(None if t is None else (len(t.calls), t.calls[-1]['x'].tobytes(), t.final['exitflag']))
        v = []
        for a in range(len(vals)):
            for c in range(a):
                cnt['effects_compared'] += 1
                if seen[vals[a]] == seen[vals[c]]:
                    v.append(('no_effect', f'{o.value}: {vals[a]!r} and {vals[c]!r} lead to identical runs on all 24 problems'))
        return v, ('effect', o.value)

    def run(self, spec, cnt):
        rng = np.random.default_rng(spec['seed'])
        return {'ctor': self.ctor, 'combo': self.combo, 'spell': self.spelling, 'default': self.default,
                'effect': self.effect}[spec['what']](spec, rng, cnt)
