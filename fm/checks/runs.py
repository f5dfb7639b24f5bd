"""C13, C14: independence of runs."""
import logging
import os
import sys
import threading
import time

import numpy as np

import fides
from fides import Options

from .. import cases, compare, record
from ..spec import same
from ..zygote import Zygote
from .base import (
    VALUE_FAULTS, Check, make_faults, path_of, rand_faults, register, trace_sig,
)
from .hess import drop_logger


def listen(rec, opt, handler):
    """collect the messages of a run's own logger from its first evaluation on"""
    def on_call(i):
        lg = opt.logger
        if handler not in lg.handlers:
            lg.addHandler(handler)
            handler.loggers.append(lg)
    rec.on_call = on_call


def quiet(lg):
    """keep the messages off the terminal without disabling the logger"""
    for h in list(lg.handlers):
        if isinstance(h, logging.StreamHandler) and not isinstance(h, record.ListHandler):
            lg.removeHandler(h)


def solo(spec):
    """one run on fresh objects -> plain-data image"""
    b = cases.build(spec)
    rec = record.Recorder(b.problem, b.mode, faults=make_faults(spec, b.mode))
    hist = os.path.join(record.scratch_dir(), f'solo{os.getpid()}.h5') if spec.get('hist') else None
    opt = cases.make_opt(b, rec, history=hist, verbose=spec.get('verbose', logging.CRITICAL + 1))
    hd = None
    if spec.get('listen'):
        hd = record.ListHandler()
        hd.loggers = []
        listen(rec, opt, hd)
    t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
    drop_logger(opt)
    if hist and os.path.exists(hist):
        os.remove(hist)
    return compare.pack(t, [(lv, m) for lv, m, _ in hd.records] if hd else None)


class Interrupt(BaseException):
    pass


PRIORS = ['same', 'converge', 'converge', 'raise', 'nonfinite', 'nonfinite', 'abort', 'badx0', 'outside', 'badout',
          'interrupt', 'zero', 'start_nan']


@register
class C13(Check):
    id = 'C13'
    n = {'quick': 1800, 'thorough': 16000}
    technique = 'runtime monitoring: trace of a run on reused objects compared bit for bit with a run in a pristine process'
    rule = (
        'random configuration preceded by one to four runs on the same optimizer or with the same approximation object in '
        'another optimizer (other problem, dimension, bounds, options), ended in 11 ways (convergence, iteration limit, no '
        'iteration, exception or interrupt in the objective, contained or fatal non-finite data, non-finite start, wrong '
        'start, start outside the bounds, malformed output); reference: fresh objects in a process forked before the first '
        'run, or fresh objects in this process; non-trivial: the final run evaluated three trials; distinct: by prior '
        'endings, scheme, solver, strategy, path and flag'
    )

    def __init__(self):
        self.zyg = Zygote(solo)

    def gen(self, rng, i, tier):
        spec = cases.gen(rng, nmax=5 if tier == 'quick' else 8, maxiter=(5, 60), refine_w=0.1,
                         schemes=['none'] + 2 * cases.ITER + 4 * cases.HYB + 3 * cases.RES)
        if rng.random() < 0.2:
            spec['faults'] = rand_faults(rng, VALUE_FAULTS)
        if rng.random() < 0.12:
            # the switch of the scheme depends on the counters of the run
            spec = cases.gen(rng, nmax=4, maxiter=(35, 60), refine_w=0.0, schemes=[
                f'HybridFraction:{u}:{v}' for u in ('BFGS', 'SR1', 'DFP') for v in (0.005, 0.03, 0.1, 0.2, 0.4)],
                problems_=['rosen', 'quartic', 'ls_rosen', 'ls_trig', 'ls_fletcher', 'ls_fletcher'])
            spec['options'].update(fatol=0.0, frtol=0.0, gatol=0.0, grtol=0.0, mu=0.02, eta=0.97)
        pr = []
        for _ in range(int(rng.integers(1, 5))):
            who = 'opt' if spec['scheme'] == 'none' or rng.random() < 0.6 else 'happ'
            pr.append([cases.pick(rng, PRIORS), who, int(rng.integers(2**31)), int(rng.integers(1, 9))])
        spec['prior'] = pr
        spec['hist'] = bool(rng.random() < 0.4)
        spec['ref'] = cases.pick(rng, ['zygote', 'before', 'after'])
        return spec

    def prior(self, b, spec, opt, rec, happ, kind, who, seed, at, cnt):
        rng = np.random.default_rng(seed)
        names = [q for q in (cases.problems.LS if b.mode == 'res' else cases.problems.ALL)]
        if who == 'happ':
            s2 = cases.gen(rng, schemes=[spec['scheme']], nmax=6, maxiter=(3, 40), refine_w=0.1)
            b2 = cases.build(s2)
            rec2 = record.Recorder(b2.problem, b2.mode)
            o2 = cases.make_opt(b2, rec2, happ=happ)
        else:
            s2, rec2, o2 = spec, rec, opt
            b2 = cases.Built()
            b2.__dict__.update(b.__dict__)
            if kind != 'same':
                b2.problem = cases.problems.make(names[int(rng.integers(len(names)))], seed, spec['n'])
                b2.x0 = cases.rand_x0(rng, b.lb, b.ub, b.problem.center + rng.normal(size=spec['n']), 'interior')
        x0, hess0 = b2.x0, b2.hess0
        if kind != 'same' and b2.mode == 'fg' and rng.random() < 0.3:
            hess0 = cases.problems.rand_spd(rng, len(x0), 1.0)
        faults = {}
        base = len(rec2.calls)

        def err(out):
            raise record.ObjectiveError('planned')

        def intr(out):
            raise Interrupt()

        if kind == 'raise':
            faults[at] = err
        if kind == 'interrupt':
            faults[at] = intr
        if kind == 'nonfinite':
            faults = make_faults({'faults': rand_faults(rng, VALUE_FAULTS, p=0.4), 'pseed': seed}, b2.mode)
        if kind == 'abort':
            faults = make_faults({'faults': [[at, 'g']], 'pseed': seed}, b2.mode)
        if kind == 'start_nan':
            faults = make_faults({'faults': [[0, 'nan+']], 'pseed': seed}, b2.mode)
        if kind == 'badout':
            faults[at if rng.random() < 0.5 else 0] = lambda out: out[0]
        if kind == 'badx0':
            x0 = np.concatenate([x0, [0.0]]) if rng.random() < 0.5 else x0[None, :]
        if kind == 'outside':
            fin = np.isfinite(b2.ub)
            if not fin.any():
                x0 = x0 * np.nan
            else:
                x0 = np.where(fin, b2.ub + 1.0, x0)
        rec2.p = b2.problem
        rec2.faults = {base + k: f for k, f in faults.items()}
        try:
            t = record.run_min(o2, rec2, x0, hess0=hess0)
        except Interrupt:
            cnt['prior_interrupted'] += 1
            t = None
        drop_logger(o2)
        if t is not None:
            cnt['prior_' + (t.final['exitflag'].name if t.exc is None else 'exc_' + type(t.exc).__name__)] += 1
        return t

    def run(self, spec, cnt):
        ref = None
        sspec = {k: spec[k] for k in spec if k not in ('prior', 'ref')}
        if spec['ref'] == 'zygote':
            st, ref = self.zyg.call(sspec)
            if st != 'ok':
                cnt['zygote_' + st] += 1
                return [], None
            cnt['pristine_references'] += 1
        elif spec['ref'] == 'before':
            ref = solo(sspec)
        b = cases.build(spec)
        rec = record.Recorder(b.problem, b.mode)
        happ = cases.make_happ(spec['scheme'])
        hist = os.path.join(record.scratch_dir(), f'c13_{os.getpid()}.h5') if spec['hist'] else None
        opt = cases.make_opt(b, rec, happ=happ, history=hist)
        prev = []
        for kind, who, seed, at in spec['prior']:
            t = self.prior(b, spec, opt, rec, happ, kind, who, seed, at, cnt)
            prev.append(t)
        base = len(rec.calls)
        rec.p = b.problem
        rec.faults = {base + k: f for k, f in make_faults(spec, b.mode).items()}
        t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
        drop_logger(opt)
        if hist and os.path.exists(hist):
            os.remove(hist)
        if spec['ref'] == 'after':
            ref = solo(sspec)
        cnt['runs'] += 1 + len(prev)
        cnt['evaluations_compared'] += len(t.calls)
        v = [(k, f'after {spec["prior"]}: {m}') for k, m in compare.diff(compare.pack(t), ref)]
        for j, p in enumerate(prev):
            if p is not None and p.ret is not None and not all(same(u, w) for u, w in zip(p.ret, p.ret_copy)):
                v.append(('earlier_result', f'result of earlier run {j} changed from {p.ret_copy!r} to {p.ret!r}'))
        sig = (tuple((k, w) for k, w, *_ in spec['prior']),) + trace_sig(spec, t)
        return v, sig if len(t.calls) > 3 else None


# C14 ------------------------------------------------------------------------
class Scheduler:
    """passes a token between threads at seeded line events inside fides and at objective calls"""

    def __init__(self, n, seed, p, calls_p):
        self.rng = np.random.default_rng(seed)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.p, self.calls_p = p, calls_p
        self.free = False
        self.switches = 0
        self.lines = 0
        self.log = []
        self.rnd = self.rng.random(4096)
        self.ri = 0

    def coin(self):
        self.ri = (self.ri + 1) & 4095
        return self.rnd[self.ri]

    def wait(self, me):
        if not self.sems[me].acquire(timeout=1.0):
            self.free = True  # the running thread is blocked by something of its own: give up control

    def switch(self, me):
        if self.free:
            return
        others = [t for t in self.live if t != me]
        if not others:
            return
        nxt = others[int(self.rng.integers(len(others)))]
        self.switches += 1
        self.sems[nxt].release()
        self.wait(me)

    def at_line(self, me, hot):
        self.lines += 1
        if self.coin() < (0.4 if hot else self.p):
            self.switch(me)

    def at_call(self, me):
        self.log.append(me)
        if self.coin() < self.calls_p:
            self.switch(me)

    def done(self, me):
        self.live.discard(me)
        if self.live:
            nxt = sorted(self.live)[int(self.rng.integers(len(self.live)))]
            self.sems[nxt].release()


FIDES_DIR = os.path.dirname(os.path.abspath(fides.__file__)) + os.sep


def tracer(sched, me):
    budget = [250]  # the start-up of each thread is scheduled more finely

    def local(frame, event, arg):
        if event == 'line':
            if budget[0] > 0:
                budget[0] -= 1
                sched.at_line(me, True)
            else:
                sched.at_line(me, False)
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if event == 'call' and f.startswith(FIDES_DIR):
            return local
        return None

    return glob


@register
class C14(Check):
    id = 'C14'
    n = {'quick': 450, 'thorough': 3200}
    limit = 40.0
    technique = ('runtime monitoring: threads under a seeded line-level scheduler (settrace) or preemptive switching, '
                 'each trace compared with a run in a pristine process')
    rule = (
        'two to five optimizers in threads, each performing one to three runs, interleaved by a seeded scheduler that '
        'passes a token at line events inside fides and at objective calls, or by preemptive switching every microsecond; '
        'reference: every run alone in a process forked before the first run; non-trivial: at least two threads evaluated '
        'alternately; distinct: by the interleaving of objective calls'
    )

    def __init__(self):
        self.zyg = Zygote(lambda specs: [solo(s) for s in specs], limit=60)

    def gen(self, rng, i, tier):
        k = int(rng.integers(2, 6))
        th = []
        share = cases.gen(rng, nmax=4, maxiter=(3, 14), tails=False, refine_w=0.05)
        for j in range(k):
            s = dict(share) if rng.random() < 0.3 else cases.gen(rng, nmax=4, maxiter=(3, 14), tails=False, refine_w=0.05)
            if rng.random() < 0.3:
                s['scheme'] = share['scheme'] if cases.mode_of(share['scheme']) == cases.mode_of(s['scheme']) else s['scheme']
            s['verbose'] = cases.pick(rng, [logging.DEBUG, logging.INFO, logging.INFO, logging.WARNING, logging.ERROR])
            s['listen'] = True
            s['hist'] = bool(rng.random() < 0.3)
            if rng.random() < 0.2:
                s['faults'] = rand_faults(rng, VALUE_FAULTS, kmax=12)
            s['runs'] = int(rng.integers(1, 4))
            th.append(s)
        return {'threads': th, 'mode': cases.pick(rng, ['sched', 'sched', 'sched', 'preempt']),
                'sseed': int(rng.integers(2**31)),
                'p': float(cases.pick(rng, [0.002, 0.02, 0.1])), 'calls_p': float(cases.pick(rng, [0.3, 0.9, 1.0])),
                'shared_file': bool(rng.random() < 0.3)}

    def run(self, spec, cnt):
        ths = spec['threads']
        st, refs = self.zyg.call([{k: v for k, v in s.items() if k != 'runs'} for s in ths])
        if st != 'ok':
            cnt['zygote_' + st] += 1
            return [], None
        ctl = spec['mode'] == 'sched'
        n = len(ths)
        sched = Scheduler(n, spec['sseed'], spec['p'], spec['calls_p'])
        out = [[] for _ in range(n)]
        errs = [None] * n
        order = []
        names = {}
        loglock = threading.Lock()
        d = record.scratch_dir()
        files = []

        def body(me):
            try:
                if ctl:
                    sched.wait(me)
                s = ths[me]
                b = cases.build(s)
                rec = record.Recorder(b.problem, b.mode)
                hist = None
                if s['hist']:
                    hist = os.path.join(d, f'c14_{os.getpid()}_{me if not spec["shared_file"] else "s"}.h5')
                    files.append(hist)
                opt = cases.make_opt(b, rec, history=hist, verbose=s['verbose'])
                if ctl:
                    sys.settrace(tracer(sched, me))
                for r in range(s['runs']):
                    base = len(rec.calls)
                    rec.faults = {base + k: f for k, f in make_faults(s, b.mode).items()}
                    hd = record.ListHandler()
                    hd.loggers = []
                    listen(rec, opt, hd)
                    inner = rec.on_call

                    def on_call(i, inner=inner, opt=opt, r=r):
                        inner(i)
                        quiet(opt.logger)
                        order.append((me, r))
                        if ctl:
                            sched.at_call(me)
                        else:
                            time.sleep(0)

                    rec.on_call = on_call
                    t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
                    for lg in hd.loggers:
                        with loglock:
                            names.setdefault(id(lg), []).append((me, r, lg, lg.level))
                    lvl = opt.logger.level
                    own = [m[2] for m in hd.records]
                    out[me].append((t, [(lv, m) for lv, m, _ in hd.records], lvl, own, opt.logger.name))
            except BaseException as e:  # noqa: BLE001
                errs[me] = e
            finally:
                sys.settrace(None)
                if ctl:
                    sched.done(me)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6 if not ctl else 0.005)
        # a run started before its own first evaluation may log nothing but through its stream handler
        threads = [threading.Thread(target=body, args=(j,), daemon=True) for j in range(n)]
        try:
            for th in threads:
                th.start()
            if ctl:
                sched.sems[int(sched.rng.integers(n))].release()
            for th in threads:
                th.join()
        finally:
            sys.setswitchinterval(old)
        v = []
        for me, e in enumerate(errs):
            if e is not None:
                v.append(('raised', f'thread {me}: {e!r}'))
        for me in range(n):
            for r, (t, log, lvl, own, name) in enumerate(out[me]):
                cnt['runs'] += 1
                cnt['evaluations_compared'] += len(t.calls)
                cnt['messages_compared'] += len(log)
                for k, m in compare.diff(compare.pack(t, log), refs[me]):
                    v.append((k, f'thread {me} run {r}: {m}'))
                if lvl != ths[me]['verbose']:
                    v.append(('level', f'thread {me}: logger level {lvl}, requested {ths[me]["verbose"]}'))
                if any(nm != name for nm in own):
                    v.append(('foreign', f'thread {me}: messages of {sorted(set(own))} in logger {name}'))
                low = [m for m in log if m[0] < ths[me]['verbose']]
                if low:
                    v.append(('verbosity', f'thread {me}: record below level: {low[0]!r}'))
                if not all(same(p, q) for p, q in zip(t.ret or (), t.ret_copy if t.ret else ())):
                    v.append(('earlier_result', f'thread {me} run {r}: result altered later'))
        for users in names.values():
            who = sorted({(me, r) for me, r, *_ in users})
            if len(who) > 1:
                v.append(('shared_logger', f'one logger for runs {who}'))
        for _, _, lg, _ in [u for us in names.values() for u in us]:
            for h in list(lg.handlers):
                lg.removeHandler(h)
            logging.Logger.manager.loggerDict.pop(lg.name, None)
        for f in set(files):
            if os.path.exists(f):
                os.remove(f)
        alt = sum(1 for p, q in zip(order, order[1:]) if p[0] != q[0])
        cnt['context_switches_at_calls'] += alt
        cnt['scheduler_switches'] += sched.switches
        cnt['lines_scheduled'] += sched.lines
        cnt['control_lost'] += int(sched.free)
        return v, (spec['mode'], tuple(order)) if alt > 2 else None
