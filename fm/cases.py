"""Random case generation. A spec is a plain JSON-able dict."""
import logging

import numpy as np

import fides
from fides import (
    BB, BFGS, BG, DFP, FX, GNSBFGS, SR1, SSM, TSSM, Broyden, HybridFixed,
    HybridFraction, Options, StepBackStrategy, SubSpaceDim,
)

from . import problems

SOLVERS = ['2D', 'full', 'scg']
STEPBACKS = ['reflect', 'reflect_single', 'truncate', 'mixed', 'refine']
ITER = ['BFGS', 'DFP', 'SR1', 'BG', 'BB', 'Broyden:0.5', 'Broyden:0.3', 'BFGS:nc']
HYB = ['HybridFixed:BFGS', 'HybridFixed:SR1', 'HybridFraction:BFGS',
       'HybridFraction:DFP', 'HybridFixed:SR1:2', 'HybridFraction:BFGS:0.1',
       'HybridFixed:default:0', 'HybridFixed:default', 'HybridFraction:default:0.0']
RES = ['FX:BFGS', 'FX:SR1', 'FX:DFP', 'SSM:0.0', 'SSM:0.5', 'SSM:1.0', 'TSSM:0.0',
       'TSSM:0.5', 'TSSM:1.0', 'GNSBFGS', 'GNSBFGS:0.1', 'FX:default', 'SSM:0.0:nc',
       'TSSM:0.0:nc', 'GNSBFGS:1e-6:nc']
SCHEMES = ['none'] + ITER + HYB + RES
SYMM = [s for s in SCHEMES if s not in ('BG', 'BB')]


def make_happ(name):
    if name in ('none', 'GN'):
        return None
    k, *a = name.split(':')
    kc = {'enforce_curv_cond': False} if a[1:] == ['nc'] else {}
    if a and a[0] == 'default':  # wrapped scheme left to fides
        c, arg, cast = {'HybridFixed': (HybridFixed, 'switch_iteration', int),
                        'HybridFraction': (HybridFraction, 'switch_threshold', float),
                        'FX': (FX, 'hybrid_tol', float)}[k]
        return c(**({arg: cast(a[1])} if len(a) > 1 else {}))
    if k in ('BFGS', 'DFP'):
        c = {'BFGS': BFGS, 'DFP': DFP}[k]
        return c(enforce_curv_cond=False) if a == ['nc'] else c()
    if k in ('SR1', 'BG', 'BB'):
        return {'SR1': SR1, 'BG': BG, 'BB': BB}[k]()
    if k == 'Broyden':
        return Broyden(float(a[0]))
    if k == 'HybridFixed':
        kw = {'switch_iteration': int(a[1])} if len(a) > 1 else {}
        return HybridFixed(make_happ(a[0]), **kw)
    if k == 'HybridFraction':
        kw = {'switch_threshold': float(a[1])} if len(a) > 1 else {}
        return HybridFraction(make_happ(a[0]), **kw)
    if k == 'FX':
        kw = {'hybrid_tol': float(a[1])} if len(a) > 1 else {}
        return FX(make_happ(a[0]), **kw)
    if k in ('SSM', 'TSSM'):
        return {'SSM': SSM, 'TSSM': TSSM}[k](float(a[0]), **kc)
    if k == 'GNSBFGS':
        return GNSBFGS(hybrid_tol=float(a[0]), **kc) if a else GNSBFGS()
    raise KeyError(name)


def mode_of(scheme):
    k = scheme.split(':')[0]
    if k in ('FX', 'SSM', 'TSSM', 'GNSBFGS', 'GN'):
        return 'res'
    if k in ('none', 'HybridFixed', 'HybridFraction'):
        return 'fgh'
    return 'fg'


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def rand_bounds(rng, n, center, kind):
    inf = np.full(n, np.inf)
    w = 10 ** rng.uniform(-1, 1, (2, n))
    c = center + rng.normal(size=n)
    if kind == 'none':
        return -inf, inf
    if kind == 'box':
        return c - w[0], c + w[1]
    if kind == 'lower':
        return c - w[0], inf
    if kind == 'upper':
        return -inf, c + w[1]
    if kind == 'mixed':
        lb, ub = c - w[0], c + w[1]
        lb[rng.random(n) < 0.4] = -np.inf
        ub[rng.random(n) < 0.4] = np.inf
        return lb, ub
    if kind == 'tight':
        w = 10 ** rng.uniform(-4, -2, (2, n))
        return c - w[0], c + w[1]
    if kind == 'exclude':  # optimum outside
        s = np.where(rng.random(n) < 0.5, 1, -1)
        lo = np.where(s > 0, center + 0.1 * w[0], center - w[0] - w[1])
        return lo, lo + w[1]
    if kind == 'zero':  # bounds exactly at zero / integers
        lb = np.round(c - w[0])
        return lb, lb + np.ceil(w[1])
    if kind == 'far':
        s = 10 ** rng.uniform(2, 5)
        return center - s * w[0], center + s * w[1]
    if kind == 'narrow':  # boxes a few hundred to a million ulps wide
        w = 10 ** rng.uniform(-12, -8, n) * np.maximum(1, np.abs(c))
        m = rng.random(n) < 0.5
        return np.where(m, c - w, c - 1), np.where(m, c + w, c + 2)
    if kind == 'bigmag':  # large magnitudes, so that rounding is coarse
        o = 10 ** rng.uniform(3, 8, n) * np.where(rng.random(n) < 0.5, -1, 1)
        o[rng.random(n) < 0.3] = 0
        return c + o - w[0], c + o + w[1]
    raise KeyError(kind)


BOUNDS = ['none', 'box', 'box', 'lower', 'upper', 'mixed', 'mixed', 'tight',
          'exclude', 'exclude', 'zero', 'far']
X0 = ['interior', 'interior', 'interior', 'onbound', 'nearbound', 'corner', 'center']


def rand_x0(rng, lb, ub, center, kind):
    n = len(lb)
    lo = np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub - 4, center - 2))
    hi = np.where(np.isfinite(ub), ub, np.where(np.isfinite(lb), lb + 4, center + 2))
    x = lo + rng.random(n) * (hi - lo)
    if kind == 'center':
        x = np.clip(center, lb, ub)
    if kind == 'integer':
        x = np.round(x)
    if kind in ('onbound', 'nearbound', 'corner'):
        m = rng.random(n) < (1.0 if kind == 'corner' else 0.5)
        side = rng.random(n) < 0.5
        b = np.where(side, lb, ub)
        m &= np.isfinite(b)
        d = (
            np.where(side, 1, -1) * 10 ** rng.uniform(-16, -8, n) * np.maximum(1, np.abs(b))
            if kind == 'nearbound' else 0.0
        )
        x = np.where(m, np.where(np.isfinite(b), b, 0.0) + d, x)
    return np.clip(x, lb, ub)


def rand_options(rng, style):
    o = {}
    if style == 'default':
        return o
    if rng.random() < 0.6:
        o['delta_init'] = float(10 ** (rng.uniform(-3, 3) if rng.random() < 0.8 else rng.uniform(-9, 9)))
    if rng.random() < 0.4:
        o['theta_max'] = float(pick(rng, [0.01, 0.5, 0.8, 0.95, 0.999, 1.0]))
    if rng.random() < 0.4:
        o['mu'] = float(rng.uniform(0.01, 0.4))
        o['eta'] = float(rng.uniform(0.5, 0.95))
    elif rng.random() < 0.15:  # thresholds that exact arithmetic can hit
        o['mu'] = float(pick(rng, [0.0, 0.0, 0.5, 1.0]))
        o['eta'] = float(pick(rng, [1.0, 1.0, 2.0] if o['mu'] < 1 else [2.0]))
    if rng.random() < 0.4:
        o['gamma1'] = float(rng.uniform(0.1, 0.7) if rng.random() < 0.8 else 10 ** rng.uniform(-4, 0))
        o['gamma2'] = float(rng.uniform(1.2, 5) if rng.random() < 0.8 else 10 ** rng.uniform(0, 3))
    if rng.random() < 0.5:
        o['fatol'] = float(pick(rng, [0.0, 1e-12, 1e-8, 1e-4, 1e-2]))
        o['frtol'] = float(pick(rng, [0.0, 1e-12, 1e-8, 1e-4]))
    if rng.random() < 0.4:
        o['xtol'] = float(pick(rng, [0.0, 1e-10, 1e-6, 1e-3]))
    if rng.random() < 0.4:
        o['gatol'] = float(pick(rng, [0.0, 1e-10, 1e-6, 1e-2]))
        o['grtol'] = float(pick(rng, [0.0, 1e-8, 1e-3]))
    return o


def gen(rng, schemes=None, solvers=None, stepbacks=None, bounds=None, x0=None,
        problems_=None, nmax=5, maxiter=(5, 40), style=None, refine_w=0.25, tails=True):
    sch = pick(rng, schemes or SCHEMES)
    while True:
        so = pick(rng, solvers or SOLVERS)
        sb = pick(rng, stepbacks or STEPBACKS)
        if so == 'scg' and sb == 'refine':
            continue
        if sb == 'refine' and stepbacks is None and rng.random() > refine_w:
            continue
        break
    mode = mode_of(sch)
    names = list(problems.LS) if mode == 'res' else list(problems.ALL)
    if problems_:
        names = [q for q in names if q in problems_] or names
    spec = {
        'problem': pick(rng, names),
        'pseed': int(rng.integers(2**31)),
        'n': int(rng.integers(1, nmax + 1)),
        'scheme': sch, 'solver': so, 'stepback': sb,
        'bounds': pick(rng, bounds or BOUNDS),
        'x0kind': pick(rng, x0 or X0),
        'bseed': int(rng.integers(2**31)),
        'options': rand_options(rng, style or pick(rng, ['default', 'rand', 'rand'])),
    }
    if spec['problem'] == 'qp_int' and x0 is None and bounds is None and rng.random() < 0.7:
        spec['x0kind'] = 'integer'
        spec['bounds'] = pick(rng, ['none', 'none', 'zero'])
        if 'delta_init' in spec['options']:
            spec['options']['delta_init'] = float(2.0 ** rng.integers(-3, 6))
    spec['options']['maxiter'] = int(rng.integers(maxiter[0], maxiter[1] + 1))
    if mode != 'res' and sch != 'none' and rng.random() < 0.3:
        spec['hess0'] = pick(rng, {'fgh': ['spd', 'hess'], 'res': ['spd', 'hess', 'small']}.get(mode, ['spd', 'spd', 'small']))
    t = rng.random()
    if tails and t < 0.035 and spec['stepback'] != 'refine':  # many variables
        spec['n'] = int(rng.integers(nmax + 1, 18))
    elif tails and t < 0.06 and spec['stepback'] != 'refine':  # many iterations
        spec['options'].update(maxiter=int(rng.integers(90, 400)), fatol=0.0, frtol=0.0, xtol=0.0, gatol=0.0, grtol=0.0)
        if rng.random() < 0.8:  # small steps
            spec['options'].update(delta_init=float(10 ** rng.uniform(-4, -1)), mu=1e-3, eta=3.0, gamma1=0.9)
    return spec


class Built:
    pass


def build(spec):
    b = Built()
    b.spec = spec
    b.problem = problems.make(spec['problem'], spec['pseed'], spec['n'])
    rng = np.random.default_rng(spec['bseed'])
    n = spec['n']
    lb, ub = rand_bounds(rng, n, b.problem.center, spec['bounds'])
    if not b.problem.bounded_below and spec['bounds'] != 'none':
        pass
    b.lb, b.ub = lb, ub
    b.x0 = rand_x0(rng, lb, ub, b.problem.center, spec['x0kind'])
    b.mode = mode_of(spec['scheme'])
    b.options = dict(spec['options'])
    b.options['subspace_solver'] = spec['solver']
    b.options['stepback_strategy'] = spec['stepback']
    b.hess0 = None
    h = spec.get('hess0')
    if h == 'spd':
        b.hess0 = problems.rand_spd(rng, n, 1.0)
    elif h == 'small':
        b.hess0 = 1e-3 * np.eye(n)
    elif h == 'hess':
        b.hess0 = 'hess'
    return b


def opts_enum(d):
    """string-keyed spec options -> enum-keyed options for the Optimizer"""
    o = {}
    for k, v in d.items():
        k = Options(k)
        if k is Options.SUBSPACE_DIM:
            v = SubSpaceDim(v)
        if k is Options.STEPBACK_STRAT:
            v = StepBackStrategy(v)
        o[k] = v
    return o


def make_opt(b, fun, happ='fresh', history=None, verbose=logging.CRITICAL + 1, **kw):
    o = opts_enum(b.options)
    if history:
        o[Options.HISTORY_FILE] = history
    if isinstance(happ, str):
        happ = make_happ(b.spec['scheme'])
    return fides.Optimizer(
        fun, ub=b.ub, lb=b.lb, verbose=verbose, options=o,
        hessian_update=happ, resfun=b.mode == 'res', **kw,
    )
