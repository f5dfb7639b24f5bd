"""Boundary-trace recording: run one case and keep everything observable."""
import copy
import logging
import os
import tempfile

import numpy as np

import fides
from fides import Options

from .spec import same

STATE = (
    'x', 'fval', 'grad', 'hess', 'delta', 'delta_iter', 'tr_ratio',
    'iteration', 'x_min', 'fval_min', 'grad_min', 'converged', 'exitflag',
)


def snap(opt):
    d = {}
    for k in STATE:
        v = getattr(opt, k)
        d[k] = np.array(v, copy=True) if isinstance(v, np.ndarray) else v
    return d


class ObjectiveError(Exception):
    """raised by injected objective failures"""


def cp(a):
    if a is None:
        return None
    if isinstance(a, np.ndarray):
        return np.array(a, copy=True)
    return a


class Recorder:
    """Objective wrapper. mode: 'fgh', 'fg' or 'res'.

    faults: {call index: function(out tuple) -> out tuple (or raises)}
    """

    def __init__(self, problem, mode, faults=None, peek=True, on_call=None,
                 transform=None):
        self.p, self.mode = problem, mode
        self.faults = faults or {}
        self.peek, self.on_call, self.transform = peek, on_call, transform
        self.opt = None
        self.calls = []

    def __call__(self, x, **kw):
        ev = {'x': np.array(x, copy=True), 'xref': x, 'kw': kw}
        if self.peek and self.opt is not None:
            ev['pre'] = snap(self.opt)
        i = len(self.calls)
        self.calls.append(ev)
        if self.on_call is not None:
            self.on_call(i)
        if self.mode == 'res':
            out = self.p.rj(ev['x'].copy())
        else:
            out = self.p.fgh(ev['x'].copy())
            if self.mode == 'fg':
                out = out[:2]
        if i in self.faults:
            ev['fault'] = True
            out = self.faults[i](out)
        if self.transform is not None:
            out = self.transform(out)
        if self.mode == 'res' and isinstance(out, tuple) and len(out) == 2:
            r, J = out
            ev['res'], ev['sres'] = cp(r), cp(J)
            # exactly the documented least-squares quantities
            ev['f'] = 0.5 * r.T.dot(r)
            ev['g'] = r.T.dot(J)
            ev['H'] = J.T.dot(J)
        elif isinstance(out, tuple):
            for k, v in zip(('f', 'g', 'H'), out):
                ev[k] = cp(v)
        return out


class ListHandler(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage(), record.name))


class Trace:
    pass


_TMP = None


def scratch_dir():
    """per-process scratch directory, removed at exit by the driver"""
    global _TMP
    base = os.environ.get('FM_SCRATCH')
    if base is None:
        base = tempfile.mkdtemp(prefix='fm_', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        os.environ['FM_SCRATCH'] = base
        import atexit
        import shutil
        atexit.register(shutil.rmtree, base, True)
    if _TMP is None or _TMP[0] != os.getpid():
        d = os.path.join(base, f'p{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        _TMP = (os.getpid(), d)
    return _TMP[1]


def canon(t):
    """use the optimizer's own half squared norm, gradient and J'J of a residual evaluation

    where they agree with the recomputed ones up to rounding (any order of summation will do)"""
    by = {}
    for c in t.calls:
        if 'res' in c:
            by.setdefault(c['x'].tobytes(), []).append(c)
    eps = np.finfo(float).eps
    happ = t.opt.hessian_update
    for s in [c['pre'] for c in t.calls[1:] if 'pre' in c] + [t.final]:
        for xn, fn, gn in (('x', 'fval', 'grad'), ('x_min', 'fval_min', 'grad_min')):
            x = s[xn]
            for c in by.get(x.tobytes(), ()) if isinstance(x, np.ndarray) else ():
                r, J = np.abs(np.asarray(c['res'], float)), np.abs(np.asarray(c['sres'], float))
                m = 8 * (len(r) + 2) * eps
                todo = [('f', fn, 0.5 * (r @ r)), ('g', gn, r @ J)]
                if xn == 'x' and happ is None:
                    todo.append(('H', 'hess', J.T @ J))
                for nm, v, bound in todo:
                    w = c[nm]
                    if np.shape(s[v]) == np.shape(w) and not same(s[v], w) and np.all(np.isfinite(w)) and np.all(
                        np.abs(np.asarray(s[v]) - w) <= m * bound
                    ):
                        c[nm] = cp(s[v])


def run_min(opt, rec, x0, hess0=None, start_id=None):
    """one minimize() call; returns a Trace"""
    t = Trace()
    rec.opt = opt
    base = len(rec.calls)
    t.x0 = np.array(x0, copy=True)
    t.exc = None
    t.ret = None
    try:
        t.ret = opt.minimize(x0, start_id=start_id, hess0=hess0)
    except Exception as e:  # noqa: BLE001
        t.exc = e
    t.calls = rec.calls[base:]
    t.final = snap(opt)
    t.history = {k: list(v) for k, v in opt.history.items()}
    t.opt = opt
    if rec.mode == 'res':
        canon(t)
    if t.ret is not None:
        t.ret_copy = tuple(cp(v) for v in t.ret)
    return t
