"""C30, C31: observation and copies."""
import copy
import gc
import io
import logging
import os
import pickle
import random
import signal
import sys
import threading
import warnings

import numpy as np

from fides import Options

from .. import cases, compare, record
from ..spec import same
from .base import VALUE_FAULTS, Check, make_faults, path_of, rand_faults, register
from .hess import drop_logger, initialise, rand_pair, rand_sym


def process_state():
    """what a library must leave as the caller set it"""
    st = np.random.get_state()
    root = logging.getLogger()
    return {
        'floating-point error handling': sorted(np.geterr().items()),
        'floating-point callback': np.geterrcall(),
        'print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'numpy random state': (st[0], st[1].tobytes(), st[2:]),
        'warning filters': list(warnings.filters),
        'warning display': (warnings.showwarning, warnings.formatwarning, getattr(warnings, '_showwarnmsg_impl', None)),
        'root logger': (root.level, tuple(map(id, root.handlers)), root.disabled, logging.root.manager.disable),
        'fides logger': (logging.getLogger('fides').level, tuple(map(id, logging.getLogger('fides').handlers))),
        'logger class': logging.getLoggerClass(),
        'level names': tuple(logging.getLevelName(i) for i in (10, 20, 30, 40, 50)),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'signal handlers': tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)),
        'alarm': signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        'threads': threading.active_count(),
        'garbage collector': (gc.isenabled(), gc.get_threshold()),
        'recursion limit': sys.getrecursionlimit(),
        'trace function': sys.gettrace(),
        'exception hook': sys.excepthook,
        'standard streams': (id(sys.stdout), id(sys.stderr)),
        'open files': len(os.listdir('/proc/self/fd')) if os.path.isdir('/proc/self/fd') else 0,
    }


WATCH = ['log', 'log', 'file', 'file', 'read', 'start_id']


@register
class C30(Check):
    id = 'C30'
    n = {'quick': 1600, 'thorough': 12000}
    technique = 'runtime monitoring: traces of observed and unobserved twin runs compared bit for bit; process state snapshots around runs'
    rule = (
        'random configuration (all schemes, solvers, strategies, faults) run once unobserved and once with a random set of '
        'observers (verbosity DEBUG/INFO with handlers, history file, reading the public state and the scheme during '
        'evaluations, a start id); evaluations, results and errors are compared bit for bit; before and after each run the '
        'process-wide state, the scratch directory and standard output are compared, under caller-chosen floating-point, '
        'print, warning and random settings; non-trivial: three trials; distinct: by observers, scheme, solver, strategy, path'
    )

    def gen(self, rng, i, tier):
        s = cases.gen(rng, nmax=5 if tier == 'quick' else 8, maxiter=(3, 40), refine_w=0.1)
        if rng.random() < 0.25:
            s['faults'] = rand_faults(rng, VALUE_FAULTS)
        if rng.random() < 0.08:
            s['raise'] = int(rng.integers(0, 8))
        s['watch'] = sorted({cases.pick(rng, WATCH) for _ in range(int(rng.integers(1, 4)))})
        s['level'] = cases.pick(rng, [logging.DEBUG, logging.DEBUG, logging.INFO])
        s['settings'] = [int(rng.integers(3)), int(rng.integers(1, 9)), int(rng.integers(2**31)), bool(rng.random() < 0.5)]
        s['same'] = bool(rng.random() < 0.3)
        return s

    def one(self, spec, watch, v, cnt, n):
        b = cases.build(spec)
        faults = make_faults(spec, b.mode)
        if 'raise' in spec:
            def err(out):
                raise record.ObjectiveError('planned')
            faults[spec['raise']] = err
        rec = record.Recorder(b.problem, b.mode, faults=faults)
        d = os.path.join(record.scratch_dir(), f'c30_{n}')
        os.makedirs(d)
        hist = os.path.join(d, 'h.h5') if 'file' in watch else None
        happ = cases.make_happ(spec['scheme'])
        kw = {'verbose': spec['level']} if 'log' in watch else {}
        opt = cases.make_opt(b, rec, happ=happ, history=hist, **kw)
        seen = {'lines': 0, 'loggers': []}
        hd = record.ListHandler()

        def on_call(i):
            lg = opt.logger
            if 'log' in watch and hd not in lg.handlers:
                for h in list(lg.handlers):
                    if isinstance(h, logging.StreamHandler):
                        h.setStream(sink)
                lg.addHandler(hd)
            if 'read' in watch:
                for o in Options:
                    opt.get_option(o)
                repr(opt.history)
                {k: len(w) for k, w in opt.history.items()}
                opt.fevaler, opt.start_id, opt.starttime
                if i > 0:
                    opt.get_affine_scaling()
                    if happ is not None:
                        happ.get_mat().sum(), happ.get_diff().sum()
                    repr(opt), hash(opt)

        rec.on_call = on_call
        sink, out = io.StringIO(), io.StringIO()
        cwd = os.getcwd()
        os.chdir(d)
        keep_out = sys.stdout
        sys.stdout = out
        try:
            before = process_state()
            t = record.run_min(opt, rec, b.x0, hess0=b.hess0, start_id='s' if 'start_id' in watch else None)
            after = process_state()
            packed = compare.pack(t)
            if spec['same'] and hist and os.path.exists(hist) and t.exc is None:
                # a run whose name is taken fails when it writes its history
                drop_logger(opt)
                before2 = process_state()
                t2 = record.run_min(opt, rec, b.x0, hess0=b.hess0, start_id=opt.start_id)
                cnt['runs_that_fail_writing'] += t2.exc is not None
                after2 = process_state()
                states = [(before, after), (before2, after2)]
            else:
                states = [(before, after)]
        finally:
            sys.stdout = keep_out
            os.chdir(cwd)
        drop_logger(opt)
        for k, before, after in [(k, p[k], q[k]) for p, q in states for k in p]:
            cnt['state_items_compared'] += 1
            if before != after:
                v.append(('process_state', f'{k} changed by a run ({"observed" if watch else "plain"}): {str(before)[:120]} -> {str(after)[:120]}'))
        if out.getvalue():
            v.append(('stdout', repr(out.getvalue()[:200])))
        left = set(os.listdir(d)) - {'h.h5'}
        if left:
            v.append(('files', f'run left {sorted(left)}'))
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
        cnt['lines_logged'] += len(hd.records)
        return packed, t

    def run(self, spec, cnt):
        v = []
        err, prec, seed, flt = spec['settings']
        keep = np.geterr(), np.get_printoptions(), np.random.get_state(), random.getstate(), list(warnings.filters)
        try:
            np.seterr(all='ignore')
            np.seterr(**[{}, {'under': 'warn'}, {'over': 'warn', 'invalid': 'warn'}][err])
            np.set_printoptions(precision=prec)
            np.random.seed(seed)
            random.seed(seed)
            warnings.simplefilter('ignore')
            if flt:
                warnings.filterwarnings('default', message='nothing like this')
            runs = []
            for k, w in enumerate([(), spec['watch']]):
                runs.append(self.one(spec, w, v, cnt, k))
        finally:
            np.seterr(**keep[0])
            np.set_printoptions(**keep[1])
            np.random.set_state(keep[2])
            random.setstate(keep[3])
            warnings.filters[:] = keep[4]
        (ref, tr), (got, tg) = runs
        for w in spec['watch']:
            cnt['observed_by_' + w] += 1
        cnt['evaluations_compared'] += len(got['calls'])
        what = ('calls', 'ret', 'exc', 'final')
        v += [(k, f'observed by {spec["watch"]}: {m}') for k, m in compare.diff(got, ref, what=what)]
        sig = (tuple(spec['watch']), spec['scheme'], spec['solver'], spec['stepback'], path_of(tg))
        return v, sig if len(tg.calls) > 3 else None


# C31 ------------------------------------------------------------------------
class Fun:
    """objective that can be copied and pickled; all copies record into the same list"""

    LOGS = {}

    def __init__(self, key):
        self.key = key

    def __reduce__(self):
        return Fun, (self.key,)

    def __deepcopy__(self, memo):
        return Fun(self.key)

    def __call__(self, x):
        return self.LOGS[self.key](x)


def dup(obj, how):
    if how == 'pickle':
        return pickle.loads(pickle.dumps(obj))
    if how == 'pickle0':
        return pickle.loads(pickle.dumps(obj, protocol=2))
    return copy.deepcopy(obj)


HOW = ['deepcopy', 'deepcopy', 'pickle', 'pickle', 'pickle0']


@register
class C31(Check):
    id = 'C31'
    n = {'quick': 2000, 'thorough': 15000}
    technique = 'runtime monitoring: deep copies and pickled copies driven next to the original, traces compared bit for bit'
    rule = (
        'two thirds: an optimizer is copied (deepcopy, pickle) before its run, after it, or during an evaluation; copy and '
        'original are run in random order, and compared bit for bit with a run on fresh objects; one third: a scheme is '
        'copied in the middle of a history, then copy and original get the same or different further updates next to '
        'never-copied twins; non-trivial: three trials or four updates; distinct: by kind of copy, moment, scheme, path'
    )

    def gen(self, rng, i, tier):
        if i % 3 == 2:
            return {'scheme': cases.pick(rng, [q for q in cases.SCHEMES if q != 'none']), 'n': int(rng.integers(1, 6)),
                    'seed': int(rng.integers(2**31)), 'how': cases.pick(rng, HOW), 'unit': True,
                    'at': int(rng.integers(0, 8)), 'k': 12}
        s = cases.gen(rng, nmax=5, maxiter=(3, 40), refine_w=0.05)
        if rng.random() < 0.15:
            s['faults'] = rand_faults(rng, VALUE_FAULTS)
        s['how'] = cases.pick(rng, HOW)
        s['when'] = cases.pick(rng, ['before', 'before', 'after', 'after', 'during'])
        s['first'] = cases.pick(rng, ['copy', 'original'])
        s['at'] = int(rng.integers(0, 6))
        return s

    def run(self, spec, cnt):
        return self.unit(spec, cnt) if spec.get('unit') else self.e2e(spec, cnt)

    def e2e(self, spec, cnt):
        v, used = [], []
        try:
            return self.copies(spec, cnt, v, used)
        finally:
            for o in used:
                drop_logger(o)

    def copies(self, spec, cnt, v, used):
        def go(opt, key, on_call=None):
            b = cases.build(spec)
            rec = record.Recorder(b.problem, b.mode, faults=make_faults(spec, b.mode))
            rec.on_call = on_call
            keep, Fun.LOGS[key] = Fun.LOGS.get(key), rec
            try:
                t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
            finally:
                Fun.LOGS[key] = keep
            used.append(opt)
            return t

        def fresh():
            b = cases.build(spec)
            return cases.make_opt(b, Fun('c31'))

        ref = compare.pack(go(fresh(), 'c31'))
        opt = fresh()
        how, when = spec['how'], spec['when']
        what = ('calls', 'ret', 'exc', 'final', 'history')
        copies = []

        def check(o, nm, on_call=None):
            cnt['runs_compared'] += 1
            t = go(o, 'c31', on_call)
            v.extend((k, f'{how} {when}, {nm}: {m}') for k, m in compare.diff(compare.pack(t), ref, what=what))
            return t

        def take(o):
            cnt[f'copies_{how}_{when}'] += 1
            try:
                copies.append(dup(o, how))
            except Exception as e:  # noqa: BLE001
                v.append(('cannot_copy', f'{how} {when}: {e!r}'))

        if when == 'before':
            take(opt)
        elif when == 'after':
            check(opt, 'original')
            take(opt)
            if copies:
                st, sc = record.snap(opt), record.snap(copies[0])
                for k in st:
                    cnt['attributes_compared'] += 1
                    if not same(st[k], sc[k]):
                        v.append(('attribute', f'{how}: {k} is {sc[k]!r}, of the original {st[k]!r}'))
        else:
            def on_call(i):
                if i == spec['at'] and not copies:
                    take(opt)
                    if spec['first'] == 'copy' and copies:
                        check(copies[0], 'copy run inside')
            check(opt, 'original', on_call)
        if copies:
            todo = [(copies[0], 'copy'), (opt, 'original')]
            if spec['first'] == 'original':
                todo.reverse()
            for o, nm in todo:
                t = check(o, nm)
                if nm == 'copy':
                    h0, h1 = o.hessian_update, opt.hessian_update
                    if h0 is not None and h0 is h1:
                        v.append(('shared', 'the copy uses the scheme object of the original'))
        n = len(ref['calls'])
        sig = (how, when, spec['first'], spec['scheme'], spec['solver'], spec['stepback'], n, ref['final']['iteration'])
        return v, sig if copies and n > 3 else None

    def unit(self, spec, cnt):
        v = []
        rng = np.random.default_rng(spec['seed'])
        n, name = spec['n'], spec['scheme']
        k = name.split(':')[0]
        a, twin = cases.make_happ(name), cases.make_happ(name)
        B0 = rand_sym(rng, n, cases.pick(rng, ['eye', 'spd']))
        initialise(a, n, B0.copy())
        initialise(twin, n, B0.copy())

        def args():
            s, y = rand_pair(rng, B0, cases.pick(rng, ['quad', 'noisy', 'random']))
            r, H = rng.normal(size=3), rand_sym(rng, n, 'spd')
            if k == 'HybridFixed':
                return dict(s=s, y=y, hess=H, iter_since_tr_update=int(rng.integers(0, 30)))
            if k == 'HybridFraction':
                return dict(s=s, y=y, hess=H, tr_nonupdates=int(rng.integers(0, 40)), iterations=int(rng.integers(20, 40)))
            if k == 'FX':
                return dict(delta=s, gamma=y, r=r, rprev=r * rng.uniform(0.5, 2), hess=H)
            if k in ('SSM', 'TSSM', 'GNSBFGS'):
                return dict(s=s, y=y, r=r, hess=H, yb=rng.normal(size=n))
            return dict(s=s, y=y)

        def put(h, w):
            h.update(**{q: x.copy() if isinstance(x, np.ndarray) else x for q, x in w.items()})

        def agree(h, ref, nm, j):
            cnt['matrices_compared'] += 1
            for get in ('get_mat', 'get_diff'):
                if not same(getattr(h, get)(), getattr(ref, get)()):
                    v.append(('scheme', f'{name} {spec["how"]} after update {spec["at"]}, {nm}, update {j}: {get}() '
                                        f'{getattr(h, get)()!r}, without copying {getattr(ref, get)()!r}'))
                    return False
            return True

        for j in range(spec['at']):
            w = args()
            put(a, w)
            put(twin, w)
        try:
            c = dup(a, spec['how'])
        except Exception as e:  # noqa: BLE001
            return [('cannot_copy', f'{name} {spec["how"]}: {e!r}')], None
        cnt[f'scheme_copies_{spec["how"]}'] += 1
        if spec['at'] and not agree(c, a, 'the copy', spec['at']):
            return v, None
        # other updates go to the copy first; twin is never copied, twin2 repeats the history of the copy
        rng2 = np.random.default_rng(spec['seed'])
        rng_save, hist = rng, []
        twin2 = cases.make_happ(name)
        B1 = rand_sym(rng2, n, cases.pick(rng2, ['eye', 'spd']))
        initialise(twin2, n, B1.copy())
        rng = rng2
        for j in range(spec['at']):
            put(twin2, args())
        rng = rng_save
        for j in range(spec['at'], spec['k']):
            for h, ref, nm in ((c, twin2, 'the copy'), (a, twin, 'the original')):
                w = args()
                put(h, w)
                put(ref, w)
                if not agree(h, ref, nm, j):
                    return v, None
            hist.append(j)
        return v, (name, spec['how'], spec['at'], n) if len(hist) >= 4 else None
