"""C15, C16: caller-owned data and the history file."""
import logging
import os
from pathlib import Path

import h5py
import numpy as np

import fides

from .. import cases, compare, oracles, record
from ..spec import Model, disp, same
from .base import VALUE_FAULTS, Check, make_faults, path_of, rand_faults, register, trace_sig
from .hess import drop_logger, initialise, rand_pair, rand_sym
from .runs import listen, quiet

JUNK = [np.nan, 1e99, -7.0, 0.0]


def image(a):
    if isinstance(a, np.ndarray):
        return (a.dtype.str, a.shape, a.tobytes())
    if isinstance(a, dict):
        return repr(sorted(((str(k), repr(v)) for k, v in a.items())))
    return repr(a)


def intquad(seed, n):
    """quadratic with integer coefficients: integer outputs at integer points"""
    rng = np.random.default_rng(seed)
    m = rng.integers(-2, 3, (n, n))
    A = 2 * (m.T @ m + np.diag(rng.integers(1, 4, n))).astype(float)
    b = rng.integers(-9, 10, n).astype(float)
    p = cases.problems.Problem('intquad', n, fgh=lambda x: (0.5 * x @ A @ x + b @ x, A @ x + b, A.copy()))
    J = np.vstack([m, np.eye(n)]).astype(float)
    r0 = rng.integers(-5, 6, 2 * n).astype(float)
    p2 = cases.problems.Problem('intls', n, rj=lambda x: (J @ x + r0, J.copy()))
    return p, p2


def narrow(a, kind):
    """the same values in another dtype, where they are representable"""
    a = np.asarray(a)
    t = {'int': np.int64, 'int32': np.int32, 'f4': np.float32}[kind]
    if not np.all(np.isfinite(a)) or np.any(np.abs(a) > 1e6):
        return a
    b = a.astype(t)
    return b if np.array_equal(b.astype(float), a) else a


VARIANTS = ['reuse', 'reuse', 'scribble_x', 'mutate_inputs', 'all', 'all', 'readonly', 'int', 'int32', 'f4', 'rerun',
            'returned']


@register
class C15(Check):
    id = 'C15'
    n = {'quick': 3000, 'thorough': 30000}
    technique = 'runtime monitoring: byte images of every caller-owned array, and paired runs under hostile buffer reuse'
    rule = (
        'random configuration run with fresh arrays and again with one of: output buffers reused and overwritten before '
        'every call, points overwritten after use, start/bounds/initial Hessian overwritten during the run, all of these, '
        'read-only arrays, the same values as integers or single precision, returned arrays overwritten before another '
        'run; every fifth case drives a scheme object with arrays overwritten after use next to a twin with private copies; byte images of all arrays compared at every call; non-trivial: three trials evaluated; distinct: by variant, '
        'scheme, solver, strategy, path and flag'
    )

    def gen(self, rng, i, tier):
        if i % 5 == 4:
            return {'variant': 'scheme', 'n': int(rng.integers(1, 6)), 'vseed': int(rng.integers(2**31)),
                    'scheme': cases.pick(rng, [q for q in cases.SCHEMES if q != 'none'])}
        var = cases.pick(rng, VARIANTS)
        kw = {}
        if var in ('int', 'int32', 'f4'):
            kw['bounds'] = ['none', 'zero', 'zero', 'zero']
        spec = cases.gen(rng, nmax=5 if tier == 'quick' else 8, maxiter=(4, 40), refine_w=0.1, **kw)
        spec['variant'] = var
        if var == 'returned' and rng.random() < 0.3:
            spec['options']['maxiter'] = int(rng.integers(0, 2))
        spec['vseed'] = int(rng.integers(2**31))
        spec['funargs'] = bool(rng.random() < 0.3)
        if rng.random() < 0.2 and var not in ('int', 'int32', 'f4'):
            spec['faults'] = rand_faults(rng, VALUE_FAULTS)
        if var in ('int', 'int32', 'f4') and spec.get('hess0') in ('spd', 'small'):
            spec['hess0'] = 'int'
        return spec

    def scheme(self, spec, cnt):
        """a scheme driven with arrays the caller keeps using, next to a twin fed with private copies"""
        rng = np.random.default_rng(spec['vseed'])
        n, name = spec['n'], spec['scheme']
        k = name.split(':')[0]
        v, pat = [], []
        a, twin = cases.make_happ(name), cases.make_happ(name)
        B0 = rand_sym(rng, n, cases.pick(rng, ['eye', 'spd', 'indef']))
        given = B0.copy()
        initialise(a, n, given)
        initialise(twin, n, B0.copy())
        if not same(given, B0):
            v.append(('input_modified', f'initial matrix is {given!r}'))
        given.fill(np.nan)
        if not same(a.get_mat(), B0):
            v.append(('scheme_aliased', 'overwriting the initial matrix changed the scheme'))
        kept = []
        for j in range(12):
            s, y = rand_pair(rng, twin.get_mat(), cases.pick(rng, ['quad', 'noisy', 'random', 'negcurv']))
            args = {'s': s, 'y': y}
            r = rng.normal(size=3)
            H = rand_sym(rng, n, 'spd')
            if k == 'HybridFixed':
                args.update(hess=H, iter_since_tr_update=int(rng.integers(0, 30)))
            elif k == 'HybridFraction':
                args.update(hess=H, tr_nonupdates=int(rng.integers(0, 40)), iterations=int(rng.integers(20, 40)))
            elif k == 'FX':
                args = {'delta': s, 'gamma': y, 'r': r, 'rprev': r * rng.uniform(0.5, 2), 'hess': H}
            elif k in ('SSM', 'TSSM', 'GNSBFGS'):
                args.update(r=r, hess=H, yb=rng.normal(size=n))
            elif rng.random() < 0.2:
                args = {'mat': H}
            mine = {q: w.copy() if isinstance(w, np.ndarray) else w for q, w in args.items()}
            imgs = {q: image(w) for q, w in mine.items()}
            if 'mat' in args:
                a.set_mat(mine['mat'])
                twin.set_mat(args['mat'].copy())
            else:
                a.update(**mine)
                twin.update(**{q: w.copy() if isinstance(w, np.ndarray) else w for q, w in args.items()})
            cnt['scheme_updates'] += 1
            for q, w in mine.items():
                if image(w) != imgs[q]:
                    v.append(('input_modified', f'{name}: argument {q} of update {j} is {w!r}'))
                if isinstance(w, np.ndarray):
                    w.fill(np.nan)
            m, d = a.get_mat(), a.get_diff()
            want = twin.get_mat()
            if not same(m, want) or not same(d, twin.get_diff()):
                v.append(('scheme_aliased', f'{name}: after update {j} and overwriting its arguments: {m.tolist()}, expected {want.tolist()}'))
                break
            for q, (o, im) in enumerate(kept):
                if image(o) != im:
                    v.append(('result_modified', f'{name}: matrix handed out earlier ({q}) changed by update {j}'))
            if rng.random() < 0.5:
                m.fill(np.nan)
                d.fill(np.nan)
                if not same(a.get_mat(), want) or not same(a.get_diff(), twin.get_diff()):
                    v.append(('scheme_aliased', f'{name}: overwriting the matrices handed out after update {j} changed the scheme'))
                    break
            else:
                kept += [(m, image(m)), (d, image(d))]
            pat.append(bool(np.any(want != B0)))
            if not np.all(np.isfinite(want)) or np.abs(want).max() > 1e100:
                break
        cnt['variant_scheme'] += 1
        return v, ('scheme', name, n, tuple(pat)) if any(pat) else None

    def make(self, spec):
        b = cases.build(spec)
        if spec['variant'] in ('int', 'int32', 'f4'):
            p, p2 = intquad(spec['pseed'], spec['n'])
            b.problem = p2 if b.mode == 'res' else p
            b.x0 = np.clip(np.round(b.x0), b.lb, b.ub)
            if spec.get('hess0') == 'int':
                b.hess0 = np.diag(np.arange(1, spec['n'] + 1)).astype(float)
        return b

    def run(self, spec, cnt):
        if spec['variant'] == 'scheme':
            return self.scheme(spec, cnt)
        ref_b = self.make(spec)
        rec0 = record.Recorder(ref_b.problem, ref_b.mode, faults=make_faults(spec, ref_b.mode))
        opt0 = cases.make_opt(ref_b, rec0)
        ref = record.run_min(opt0, rec0, ref_b.x0, hess0=ref_b.hess0)
        drop_logger(opt0)

        var = spec['variant']
        rng = np.random.default_rng(spec['vseed'])
        b = self.make(spec)
        v = []
        junk = lambda: JUNK[int(rng.integers(len(JUNK)))]  # noqa: E731
        bufs, handed, outs = [], [], []
        watch_out = var not in ('reuse', 'all')
        watch_x = var not in ('scribble_x', 'all')
        watch_in = var not in ('mutate_inputs', 'all')
        if var in ('int', 'int32', 'f4'):
            b.x0, b.lb, b.ub = (narrow(a, var) for a in (b.x0, b.lb, b.ub))
            if isinstance(b.hess0, np.ndarray):
                b.hess0 = narrow(b.hess0, var)
            cnt['inputs_narrowed'] += sum(a.dtype != float for a in (b.x0, b.lb, b.ub))
        if var == 'readonly':
            for a in (b.x0, b.lb, b.ub, b.hess0):
                if isinstance(a, np.ndarray):
                    a.setflags(write=False)
        inputs = {'x0': b.x0, 'lb': b.lb, 'ub': b.ub, 'hess0': b.hess0}
        extra = {'a': np.arange(3.0), 'b': 'text', 'c': [1, 2]} if spec['funargs'] else None
        images = {k: image(a) for k, a in inputs.items()}
        arrays = [a for a in inputs.values() if isinstance(a, np.ndarray)]

        def verify(where):
            cnt['byte_images_compared'] += len(outs) + len(handed) + len(inputs)
            if watch_in:
                for k, a in inputs.items():
                    if image(a) != images[k]:
                        v.append(('input_modified', f'{k} is {a!r} {where}'))
                        images[k] = image(a)
            if watch_out:
                for j, a, im in outs:
                    if image(a) != im:
                        v.append(('output_modified', f'array returned by call {j} is {a!r} {where}'))
            if watch_x:
                for j, a, im in handed:
                    if image(a) != im:
                        v.append(('point_modified', f'point handed over at call {j} is {a!r} {where}'))
            if extra is not None and image(extra) != eim:
                v.append(('funargs_modified', f'{extra!r} {where}'))

        eim = image(extra) if extra is not None else None

        def on_call(i):
            verify(f'at call {i}')
            for a in bufs:
                a.fill(junk())
            if not watch_in and i > 0:
                for a in arrays:
                    a.fill(-1e6 if rng.random() < 0.5 else 1e6)

        def transform(out):
            i = len(rec.calls) - 1
            x = rec.calls[-1]['xref']
            handed.append((i, x, image(x)))
            if var in ('reuse', 'all'):
                if not bufs:
                    bufs.extend(np.empty(np.shape(o)) for o in out if isinstance(o, np.ndarray))
                it = iter(bufs)
                new = []
                for o in out:
                    if isinstance(o, np.ndarray):
                        a = next(it)
                        a[...] = o
                        new.append(a)
                    else:
                        new.append(o)
                out = tuple(new)
            elif var in ('int', 'int32', 'f4'):
                new = []
                for o in out:
                    if isinstance(o, np.ndarray):
                        o = narrow(o, var)
                        cnt['outputs_narrowed'] += o.dtype != float
                    elif float(o).is_integer() and abs(o) < 1e6 and var != 'f4':
                        o = int(o)
                    new.append(o)
                out = tuple(new)
            elif var == 'readonly':
                out = tuple(np.array(o) if isinstance(o, np.ndarray) else o for o in out)
                for o in out:
                    if isinstance(o, np.ndarray):
                        o.setflags(write=False)
            if var in ('scribble_x', 'all'):
                x.fill(junk())
            for o in out:
                if isinstance(o, np.ndarray):
                    outs.append((i, o, image(o)))
            return out

        rec = record.Recorder(b.problem, b.mode, faults=make_faults(spec, b.mode), on_call=on_call, transform=transform)
        kw = {'funargs': extra} if extra is not None else {}
        keep = cases.opts_enum(b.options)
        opt = cases.make_opt(b, rec, **kw)
        opts_given = opt.options if isinstance(opt.options, dict) else None
        if var == 'returned':
            t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
            if t.ret is not None:
                outs.clear()
                keep_mat = opt.hessian_update.get_mat() if opt.hessian_update is not None else None
                for a in t.ret:
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a.fill(junk())
                if keep_mat is not None and not same(opt.hessian_update.get_mat(), keep_mat):
                    v.append(('scheme_aliased', 'overwriting the returned Hessian changed the approximation'))
                for nm in ('x_min', 'grad_min'):
                    a = t.final[nm]
            base = len(rec.calls)
            rec.faults = {base + k: f for k, f in make_faults(spec, b.mode).items()}
            drop_logger(opt)
        t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
        verify('after the run')
        drop_logger(opt)
        if var == 'rerun':
            verify('after the run')
            for a in t.ret or ():
                if isinstance(a, np.ndarray):
                    outs.append(('result', a, image(a)))
            base = len(rec.calls)
            rec.faults = {base + k: f for k, f in make_faults(spec, b.mode).items()}
            t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
            verify('after another run')
            drop_logger(opt)
        if opts_given is not None and image({k.value if hasattr(k, 'value') else k: w for k, w in opts_given.items()}) != image(
            {k.value: w for k, w in keep.items()}
        ):
            v.append(('options_modified', f'{opts_given!r}, given {keep!r}'))
        cnt['variant_' + var] += 1
        cnt['evaluations_compared'] += len(t.calls)
        v += [(k, f'{var}: {m}') for k, m in compare.diff(
            compare.pack(t), compare.pack(ref), what=('calls', 'ret', 'exc', 'final'), outputs=False)]
        return v, (var,) + trace_sig(spec, t) if len(t.calls) > 3 else None


# C16 ------------------------------------------------------------------------
CORE = ('fval', 'accept', 'tr_ratio', 'tr_radius', 'normgrad', 'normstep', 'step_type', 'hess_min_ev', 'hess_max_ev')


def read(path):
    out = {}
    if not os.path.exists(path):
        return out
    with h5py.File(path, 'r') as f:
        for k in f:
            g = f[k]
            if isinstance(g, h5py.Group):
                out[k] = {n: (g[n][()] if isinstance(g[n], h5py.Dataset) else read_group(g[n])) for n in g}
            else:
                out[k] = g[()]
    return out


def read_group(g):
    return {n: (g[n][()] if isinstance(g[n], h5py.Dataset) else read_group(g[n])) for n in g}


def group_diff(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return None if same_any(a, b) else 'content'
    if set(a) != set(b):
        return f'fields {sorted(set(a) ^ set(b))}'
    for k in a:
        if isinstance(a[k], dict):
            d = group_diff(a[k], b[k])
            if d:
                return f'{k}: {d}'
        elif not same_any(a[k], b[k]):
            return f'{k}: {a[k]!r:.150} became {b[k]!r:.150}'
    return None


def same_any(p, q):
    p, q = np.asarray(p), np.asarray(q)
    if p.shape != q.shape:
        return False
    if p.dtype.kind in 'OSU':
        return bool(np.all(p == q))
    return bool(np.array_equal(p, q, equal_nan=True))


def txt(v):
    return v.decode() if isinstance(v, bytes) else str(v)


def close(a, b, tol):
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b):
        return np.isnan(a) and np.isnan(b)
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= tol


def judge_group(b, t, g, log, cnt):
    K = len(t.calls) - 1
    if K == 0:
        for k, d in g.items():
            if len(d):
                yield 'length', f'{k} has {len(d)} entries after no iteration'
        return
    miss = [k for k in CORE if k not in g]
    if miss:
        yield 'missing', f'no {miss} in the group'
    for k, d in g.items():
        if np.shape(d) != (K,):
            yield 'length', f'{k} has shape {np.shape(d)} after {K} iterations'
    if miss or any(np.shape(g[k]) != (K,) for k in CORE):
        return
    types = [m.split('|')[-2].strip() for _, m in log if m.count('|') == 8 and 'iter|' not in m and 'NaN   |' not in m]
    since = 0
    n = len(b.x0)
    A0 = np.zeros((n, n))
    for k, c, pre, post, last in oracles.trials(t):
        j = k - 1
        e = {n: g[n][j] for n in g}
        cnt['entries_checked'] += 1
        acc = not (same(pre['x'], post['x']) and same(pre['fval'], post['fval']))
        ftol = 1e-12 * abs(c['f']) if b.mode == 'res' and np.isfinite(c['f']) else 0.0
        if not close(e['fval'], c['f'], ftol):
            yield 'fval', f'iter {k}: recorded {e["fval"]!r}, objective returned {c["f"]!r}'
        if not same(pre['x'], c['x']) and bool(e['accept']) != acc:
            yield 'accept', f'iter {k}: recorded {e["accept"]!r}, accepted {acc}'
        if not same(e['tr_ratio'], post['tr_ratio']):
            yield 'tr_ratio', f'iter {k}: recorded {e["tr_ratio"]!r}, was {post["tr_ratio"]!r}'
        if not same(e['tr_radius'], pre['delta']):
            yield 'tr_radius', f'iter {k}: recorded {e["tr_radius"]!r}, used {pre["delta"]!r}'
        gn = np.linalg.norm(post['grad'])
        if not close(e['normgrad'], gn, 1e-12 * gn):
            yield 'normgrad', f'iter {k}: recorded {e["normgrad"]!r}, is {gn!r}'
        s, se = disp(pre['x'], c['x'])
        n = np.linalg.norm(s)
        if not close(e['normstep'], n, np.linalg.norm(se) + 1e-12 * n):
            yield 'normstep', f'iter {k}: recorded {e["normstep"]!r}, is {n!r}'
        H = np.asarray(post['hess'], float)
        hn = np.linalg.norm(H)
        ev = np.linalg.eigvals(H)
        # eigenvalues of non-symmetric matrices are ill-conditioned
        tol = (1e-9 if np.array_equal(H, H.T) else 1e-5) * hn + 1e-300
        for nm, w in (('hess_min_ev', ev.real.min()), ('hess_max_ev', ev.real.max())):
            if np.isfinite(w) and not close(e[nm], w, tol):
                yield nm, f'iter {k}: recorded {e[nm]!r}, is {w!r}'
        if types and (j >= len(types) or txt(e['step_type']) != types[j]):
            yield 'step_type', f'iter {k}: recorded {e["step_type"]!r}, log says {types[j:j + 1]}'
        since = 0 if not same(pre['delta'], post['delta']) or not np.isfinite(c['f']) else since + 1
        if 'iterations_since_tr_update' in e and pre['delta'] > 0 and not e['iterations_since_tr_update'] == since:
            yield 'since', f'iter {k}: {e["iterations_since_tr_update"]!r} iterations since the radius changed, is {since}'
        scheme = b.spec['scheme'].split(':')[0]
        if scheme not in ('none', 'GN'):
            D = np.asarray(post['hess'], float) - pre['hess']
            mag = hn + np.linalg.norm(pre['hess'])
            A1 = A0
            if scheme in ('SSM', 'TSSM') and acc:
                r = np.sqrt(2 * c['f'])
                f = 1.0 if scheme == 'SSM' else r
                with np.errstate(all='ignore'):
                    A1 = (np.asarray(post['hess'], float) - c['H']) / f
                    ftol = (np.linalg.norm(c['H']) + hn) / f
            for pre_, W, m in (('hess_update', D, mag), ('hess_struct_update', A1 - A0, mag + (ftol if A1 is not A0 else 0.0))):
                names = (pre_ + '_min_ev', pre_ + '_max_ev')
                if not all(nm in e for nm in names) or pre_ == 'hess_struct_update' and scheme not in (
                        'SSM', 'TSSM', 'GNSBFGS'):
                    continue
                if acc and (scheme == 'GNSBFGS' and pre_ == 'hess_struct_update' or not np.all(np.isfinite(W)) or not np.isfinite(m)):
                    continue
                ev = np.linalg.eigvals(W).real if acc else np.zeros(1)
                sym = np.array_equal(H, H.T) and pre_ == 'hess_update'
                tol = (1e-9 if sym else 1e-5) * (m + np.linalg.norm(W)) + 1e-300
                for nm, w in zip(names, (ev.min(), ev.max())):
                    cnt['update_ranges_checked'] += 1
                    if not acc and same(pre['x'], c['x']):
                        continue  # accepted or rejected cannot be told apart
                    if not acc and e[nm] != 0 or not close(e[nm], w, tol):
                        yield nm, f'iter {k}: recorded {e[nm]!r}, is {w!r}'
            A0 = A1
        yield from judge_proposal(b, k, e, pre, c, cnt)
        if 'cond_hess' in e:
            w = np.linalg.cond(H)
            if w < 1e8 and not close(e['cond_hess'], w, 1e-3 * w):
                yield 'cond_hess', f'iter {k}: recorded {e["cond_hess"]!r}, is {w!r}'


BACK = {'reflections': ('reflect', 'reflect_single', 'mixed'), 'truncations': ('truncate', 'mixed')}
TYPES = {'nd': ('subspace_solver', ('full',)), '2d': ('subspace_solver', ('2D',)), 'cgs': ('subspace_solver', ('scg',)),
         'trr': ('stepback_strategy', BACK['reflections']), 'trt': ('stepback_strategy', BACK['truncations']),
         'ref': ('stepback_strategy', ('refine',))}


def val(b, k):
    o = b.options.get(k, {'subspace_solver': '2D', 'stepback_strategy': 'reflect'}[k])
    return getattr(o, 'value', o)


def judge_proposal(b, k, e, pre, c, cnt):
    """what the group says about how the step was found"""
    n = len(b.x0)
    solver, strategy = val(b, 'subspace_solver'), val(b, 'stepback_strategy')
    ty = txt(e['step_type'])
    cnt['proposal_entries_checked'] += 1
    if ty in TYPES:
        cnt['type_' + ty] += 1
        if val(b, TYPES[ty][0]) not in TYPES[ty][1]:
            yield 'type', f'iter {k}: step type {ty!r} with {solver}/{strategy}'
    for nm, ok in BACK.items():
        if nm in e and not (0 <= e[nm] <= n and e[nm] == int(e[nm]) and (e[nm] == 0 or strategy in ok)):
            yield nm, f'iter {k}: {e[nm]!r} {nm} with {strategy} in {n} dimensions'
    # a path that has turned at a bound can start beyond it by rounding
    low = -np.inf if e.get('reflections', 1) or e.get('truncations', 1) else 0
    if 'alpha' in e and not low <= e['alpha'] <= 1:
        yield 'alpha', f'iter {k}: step cut to {e["alpha"]!r}'
    if 'subspace_dim' in e:
        most = {'scg': 1, '2D': min(n, 2)}.get(solver, n)
        one = ty in ('g', 'trr') or solver == 'scg' and ty != 'trt'
        if not (0 <= e['subspace_dim'] <= most) or one and e['subspace_dim'] != 1 or ty == 'nd' and e['subspace_dim'] != n:
            yield 'subspace_dim', f'iter {k}: {e["subspace_dim"]!r} search directions for {ty!r} with {solver} in {n} dimensions'
    m = Model(pre['x'], pre['grad'], pre['hess'], b.lb, b.ub)
    if not np.all(np.isfinite(m.M)):
        return
    if 'theta' in e:
        want = max(oracles.opt_of(b, 'theta_max'), 1 - np.abs(m.v * m.g).max())
        if not close(e['theta'], want, 1e-9):
            yield 'theta', f'iter {k}: recorded {e["theta"]!r}, is {want!r}'
    M = 0.5 * (m.M + m.M.T)
    ev = np.linalg.eigvalsh(M)
    mag = np.abs(ev).max()
    if 'cond_shess' in e and mag > 0:
        w = np.linalg.cond(M)
        if w < 1e8 and not close(e['cond_shess'], w, 1e-3 * w):
            yield 'cond_shess', f'iter {k}: recorded {e["cond_shess"]!r}, is {w!r}'
    if ty == '2d' and mag > 0 and 'posdef' in e and abs(ev[0]) > 1e-6 * mag:
        cnt['definiteness_checked'] += 1
        if bool(e['posdef']) != (ev[0] > 0):
            yield 'posdef', f'iter {k}: recorded {e["posdef"]!r}, smallest eigenvalue {ev[0]!r} of {mag!r}'
        if n > 1 and e.get('newton') and ev[0] > 0:
            s, se = disp(pre['x'], c['x'])
            ss, err = m.scaled(s, se)
            sn = np.linalg.solve(M, -m.sg)
            if ss is not None and np.linalg.norm(err) < 1e-6 * np.linalg.norm(ss) and np.linalg.norm(sn) > 0:
                cnt['newton_steps_checked'] += 1
                off = ss / np.linalg.norm(ss) - sn / np.linalg.norm(sn)
                if np.linalg.norm(off) > 1e-5 * max(1.0, mag / ev[0] * 1e-9):
                    yield 'newton', f'iter {k}: {s.tolist()} is not along the Newton step'


@register
class C16(Check):
    id = 'C16'
    n = {'quick': 1000, 'thorough': 12000}
    technique = 'runtime monitoring: history file read back after every run and compared with the recorded trace'
    rule = (
        'one or two history files, three to seven runs by up to three optimizers (reused or fresh) with automatic or chosen '
        'start ids, including runs that raise, meet non-finite data, perform no iteration, or run inside an objective call '
        'of another run; the files are read back after every run; non-trivial: two groups with at least three iterations; '
        'distinct: by the sequence of (optimizer, ending, scheme, path)'
    )

    def gen(self, rng, i, tier):
        opts = []
        for _ in range(int(rng.integers(1, 4))):
            s = cases.gen(rng, nmax=4, tails=False, maxiter=(0, 22), refine_w=0.05)
            s['file'] = int(rng.integers(2))
            opts.append(s)
        ops = []
        for _ in range(int(rng.integers(3, 8))):
            ops.append([int(rng.integers(len(opts))), cases.pick(rng, ['plain', 'plain', 'faults', 'raise', 'start_nan', 'badx0', 'nest']),
                        cases.pick(rng, ['auto', 'auto', 'named', 'odd']), int(rng.integers(2**31))])
        return {'opts': opts, 'ops': ops, 'path': cases.pick(rng, ['str', 'path']), 'foreign': int(rng.choice([1, 12, 120])) if rng.random() < 0.3 else 0}

    def run(self, spec, cnt):
        d = record.scratch_dir()
        files = [os.path.join(d, f'c16_{os.getpid()}_{j}.h5') for j in range(2)]
        for f in files:
            if os.path.exists(f):
                os.remove(f)
        v, sig = [], []
        long_groups = 0
        if spec['foreign']:
            with h5py.File(files[0], 'w') as f:
                for q in range(int(spec['foreign'])):
                    f.create_group(f'mine{q}').create_dataset('data', data=np.arange(4))
        O = []
        for s in spec['opts']:
            b = cases.build(s)
            rec = record.Recorder(b.problem, b.mode)
            p = files[s['file']]
            O.append((s, b, rec, cases.make_opt(
                b, rec, history=p if spec['path'] == 'str' else Path(p), verbose=logging.INFO)))
        known = [read(f) for f in files]
        done = []  # (file, start id, trace, log, built)
        ids = [0]

        def one(o, kind, idk, seed, nested):
            s, b, rec, opt = O[o]
            rng = np.random.default_rng(seed)
            base = len(rec.calls)
            faults = {}
            if kind == 'faults':
                faults = make_faults({'faults': rand_faults(rng, VALUE_FAULTS, p=0.4), 'pseed': seed}, b.mode)
            if kind == 'start_nan':
                faults = make_faults({'faults': [[0, 'nan']], 'pseed': seed}, b.mode)
            if kind == 'raise':
                def err(out):
                    raise record.ObjectiveError('planned')
                faults = {int(rng.integers(0, 6)): err}
            rec.faults = {base + k: f for k, f in faults.items()}
            hd = record.ListHandler()
            hd.loggers = []
            listen(rec, opt, hd)
            inner = rec.on_call
            at = base + int(rng.integers(0, 4))
            others = [q for q in range(len(O)) if q != o]

            def on_call(i):
                inner(i)
                quiet(opt.logger)
                if kind == 'nest' and i == at and not nested and others:
                    cnt['nested_runs'] += 1
                    one(others[int(rng.integers(len(others)))], 'plain', 'auto', seed + 1, True)

            rec.on_call = on_call
            x0 = cases.rand_x0(rng, b.lb, b.ub, b.problem.center, s['x0kind'])
            if kind == 'badx0':
                x0 = np.concatenate([x0, x0])
            ids[0] += 1
            sid = {'auto': None, 'named': f'run{ids[0]}', 'odd': f'start {ids[0]} ü.x'}[idk]
            t = record.run_min(opt, rec, x0, hess0=b.hess0, start_id=sid)
            drop_logger(opt)
            t.given = sid
            t.sid = opt.start_id
            done.append((s['file'], t, [(lv, m) for lv, m, _ in hd.records], b))

        for o, kind, idk, seed in spec['ops']:
            done.clear()
            one(o, kind, idk, seed, False)
            now = [read(f) for f in files]
            new = []
            for j in range(2):
                cnt['groups_reread'] += len(known[j])
                for g in known[j]:
                    if g not in now[j]:
                        v.append(('lost', f'group {g} vanished'))
                    else:
                        df = group_diff(known[j][g], now[j][g])
                        if df:
                            v.append(('overwritten', f'group {g}: {df}'))
                new.append(set(now[j]) - set(known[j]))
            want = [set(), set()]
            for fi, t, log, b in done:
                end = t.final['exitflag'].name if t.exc is None else 'exc'
                cnt['runs_' + end] += 1
                sig.append((o, end, b.spec['scheme'], path_of(t)))
                if t.exc is not None:
                    if not isinstance(t.exc, (record.ObjectiveError, RuntimeError)) and kind != 'badx0':
                        cnt['unexpected_' + type(t.exc).__name__] += 1
                    want[fi] |= {t.sid} & new[fi]
                    continue
                if t.given is not None and t.sid != t.given:
                    v.append(('name', f'start id {t.sid!r}, given {t.given!r}'))
                if t.sid not in now[fi] or t.sid in want[fi] or t.sid in known[fi]:
                    v.append(('group', f'run with start id {t.sid!r} left no group of its own ({sorted(new[fi])} added)'))
                    continue
                want[fi].add(t.sid)
                cnt['groups_checked'] += 1
                long_groups += len(t.calls) > 3
                v += [(k, f'group {t.sid}: {m}') for k, m in judge_group(b, t, now[fi][t.sid], log, cnt)]
            for j in range(2):
                if new[j] - want[j]:
                    v.append(('extra', f'unexpected groups {sorted(new[j] - want[j])}'))
            known = now
            if v:
                break
        for f in files:
            if os.path.exists(f):
                os.remove(f)
        return v, tuple(sig) if long_groups > 1 else None
