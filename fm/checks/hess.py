"""C17-C21: Hessian approximation schemes."""
import inspect
import logging
import warnings

import numpy as np

import fides
from fides import (
    BB, BFGS, BG, DFP, FX, GNSBFGS, SR1, SSM, TSSM, Broyden, HybridFixed,
    HybridFraction, Options,
)

from .. import cases, oracles, record
from ..spec import EPS, disp, same
from .base import Check, TraceCheck, make_faults, path_of, register, trace_sig

LD = np.longdouble


def initialise(happ, n, hess0=None):
    """initialise a scheme the way a user does: through a run without iterations"""
    res = isinstance(happ, (FX, SSM, TSSM, GNSBFGS))
    third = isinstance(happ, (HybridFixed, HybridFraction))

    def fun(x):
        if res:
            return np.ones(1), np.zeros((1, n))
        out = (0.0, np.zeros(n))
        return out + (np.eye(n),) if third else out

    opt = fides.Optimizer(
        fun, ub=np.full(n, np.inf), lb=np.full(n, -np.inf), verbose=logging.CRITICAL + 1,
        options={Options.MAXITER: 0}, hessian_update=happ, resfun=res)
    opt.minimize(np.zeros(n), hess0=hess0)
    # every run leaves a logger behind; drop it so that long checks stay small
    drop_logger(opt)
    return happ


def drop_logger(opt):
    lg = getattr(opt, 'logger', None)
    if lg is not None:
        for h in list(lg.handlers):
            lg.removeHandler(h)
        logging.Logger.manager.loggerDict.pop(lg.name, None)


def rand_sym(rng, n, kind):
    q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    if kind == 'eye':
        return np.eye(n)
    if kind == 'spd':
        e = 10 ** rng.uniform(-2, 2, n)
    elif kind == 'indef':
        e = rng.normal(size=n) * 10 ** rng.uniform(-1, 1)
    elif kind == 'psd':
        e = 10 ** rng.uniform(-1, 1, n)
        e[rng.random(n) < 0.5] = 0
    elif kind == 'int':
        m = np.round(3 * rng.normal(size=(n, n)))
        return m + m.T
    elif kind == 'scaled':
        e = 10 ** rng.uniform(-1, 1, n) * 10 ** rng.uniform(-8, 8)
    B = q @ np.diag(e) @ q.T
    return (B + B.T) / 2


MATS = ['eye', 'spd', 'spd', 'indef', 'psd', 'int', 'scaled']
PAIRS = ['quad', 'quad', 'noisy', 'random', 'negcurv', 'orth', 'exact', 'tinystep', 'bigstep', 'zero', 'zeroy', 'nearorth']


def rand_pair(rng, B, kind):
    """step and gradient change"""
    n = len(B)
    s = rng.normal(size=n)
    if kind == 'tinystep':
        s *= 10 ** rng.uniform(-9, -4)
    if kind == 'bigstep':
        s *= 10 ** rng.uniform(2, 6)
    A = rand_sym(rng, n, 'spd')
    y = A @ s
    if kind == 'noisy':
        y = y + 0.3 * rng.normal(size=n) * np.linalg.norm(y)
    if kind == 'random':
        y = rng.normal(size=n)
    if kind == 'negcurv':
        y = -y + 0.1 * rng.normal(size=n) * np.linalg.norm(y)
    if kind in ('orth', 'nearorth'):
        s = np.round(3 * s)
        y = np.zeros(n)
        if n > 1:
            i, j = rng.permutation(n)[:2]
            y[i], y[j] = s[j], -s[i]
        if kind == 'nearorth':
            y = y + s * 10 ** rng.uniform(-12, -4) * rng.choice([-1, 1])
    if kind == 'exact':
        y = B @ s
    if kind == 'zero':
        s = np.zeros(n)
    if kind == 'zeroy':
        y = np.zeros(n)
    return s, y


def construct(cls, kw, defaults, rng):
    """cls(**kw), with arguments that have their documented default left out at times, or passed by position;
    returns the object and whether a warning was raised"""
    names = list(kw)
    if rng.random() < 0.5:
        kw = {k: x for k, x in kw.items() if k not in defaults or x != defaults[k] or rng.random() < 0.3}
    pos = []
    if rng.random() < 0.3:
        for k in names:
            if k not in kw:
                break
            pos.append(kw.pop(k))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        h = cls(*pos, **kw)
    return h, len(w) > 0


class PairBatch(Check):
    schemes = ()
    rule = (
        'each case drives one scheme object through a sequence of 12 updates on a random start matrix (identity, '
        'definite, indefinite, singular, integer, badly scaled) with pairs of 12 kinds (consistent, noisy, random, '
        'negative, exactly zero or nearly zero curvature, exact, tiny, huge, zero); non-trivial: at least one update was '
        'applied and one skipped; distinct: by scheme, dimension and sequence of pair kinds and outcomes'
    )

    def gen(self, rng, i, tier):
        return {'scheme': cases.pick(rng, self.schemes), 'seed': int(rng.integers(2**31)), 'k': 12,
                'n': int(rng.integers(1, 7 if tier == 'quick' else 10)), 'mat': cases.pick(rng, MATS)}

    def make(self, spec, rng):
        return cases.make_happ(spec['scheme'])

    def run(self, spec, cnt):
        rng = np.random.default_rng(spec['seed'])
        n = spec['n']
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            happ = self.make(spec, rng)
        B0 = rand_sym(rng, n, spec['mat'])
        if spec['scheme'] in ('BG', 'BB') and rng.random() < 0.5:
            B0 = B0 + rng.normal(size=(n, n)) * np.abs(B0).max()
        initialise(happ, n, B0)
        viol, sig = [], []
        if '_warn' in spec and spec['_warn'] != (not 0 <= spec['_phi'] <= 1):
            viol.append(('warning', f'phi={spec["_phi"]!r} {"raised" if spec["_warn"] else "raised no"} warning'))
        if not same(happ.get_mat(), B0):
            viol.append(('init', f'initial matrix {happ.get_mat()!r}, given {B0!r}'))
        good = 0
        for j in range(spec['k']):
            B = happ.get_mat()
            kind = cases.pick(rng, PAIRS)
            s, y = rand_pair(rng, B, kind)
            sc, yc = s.copy(), y.copy()
            happ.update(s=s, y=y)
            new, diff = happ.get_mat(), happ.get_diff()
            ctx = f'update {j} {spec["scheme"]} {kind}: B={B.tolist()} s={sc.tolist()} y={yc.tolist()}'
            if not (same(s, sc) and same(y, yc)):
                viol.append(('modified', ctx))
            if not np.all(np.isfinite(new)):
                viol.append(('not_finite', f'{new!r}: ' + ctx))
                break
            big = np.abs(B) + np.abs(new) + np.abs(diff)
            if np.any(np.abs(diff - (new - B)) > 1e-12 * big.max()):
                viol.append(('diff', f'reported update {diff.tolist()} but change {(new - B).tolist()}: ' + ctx))
            out = []
            viol += [(k, m + ': ' + ctx) for k, m in self.judge(happ, spec, B, s, y, new, cnt, out)]
            cnt['updates'] += 1
            o = out[-1] if out else 'undecided'
            cnt['updates_' + o] += 1
            good += o == 'applied'
            sig.append((kind, o))
            if np.abs(new).max() > 1e12 or o == 'undecided':
                # restart from a sane matrix
                happ.set_mat(rand_sym(rng, n, spec['mat']))
        skipped = any(o != 'applied' for _, o in sig)
        return viol, (spec['scheme'], n, spec['mat'], tuple(sig)) if good and skipped else None


def close(A, R, tol):
    return np.all(np.abs(np.asarray(A, LD) - R) <= tol)


def broyden_ref(B, s, y, phi):
    """reference update in extended precision, with a bound on the double rounding error"""
    B, s, y = (np.asarray(a, LD) for a in (B, s, y))
    u = B @ s
    c, b = s @ u, y @ s
    I = np.eye(len(s), dtype=LD)
    bf = B - np.outer(u, u) / c + np.outer(y, y) / b
    P = I - np.outer(y, s) / b
    dfp = P @ B @ P.T + np.outer(y, y) / b
    ref = (1 - phi) * bf + phi * dfp
    ua = np.abs(B) @ np.abs(s)
    v = np.abs(y / b) + ua / np.abs(c)
    K = 1 + float(np.abs(s) @ ua / np.abs(c)) + float(np.abs(y) @ np.abs(s) / np.abs(b))
    mag = np.abs(B) + np.outer(ua, ua) / np.abs(c) + np.outer(np.abs(y), np.abs(y)) / np.abs(b)
    mag = mag + abs(phi) * np.abs(c) * np.outer(v, v) + abs(phi) * np.abs(dfp)
    return ref, mag, K, b, c


@register
class C17(PairBatch):
    id = 'C17'
    n = {'quick': 3200, 'thorough': 30000}
    schemes = ['BFGS', 'DFP', 'BFGS', 'DFP', 'BFGS:nc', 'DFP:nc', 'Broyden', 'Broyden', 'Broyden:out']
    technique = 'runtime monitoring: every update compared with the defining formula in extended precision'

    def make(self, spec, rng):
        if spec['scheme'].startswith('Broyden'):
            out = spec['scheme'].endswith('out')
            phi = float(rng.uniform(-1, 2)) if out else float(rng.choice([0.0, 1.0, 0.5, rng.random()]))
            enf = bool(rng.random() < 0.7)
            h, spec['_warn'] = construct(Broyden, {'phi': phi, 'enforce_curv_cond': enf}, {'enforce_curv_cond': True}, rng)
            spec['_phi'], spec['_enf'] = phi, enf
            return h
        h = cases.make_happ(spec['scheme'])
        spec['_phi'] = 1.0 if isinstance(h, DFP) else 0.0
        spec['_enf'] = not spec['scheme'].endswith(':nc')
        return h

    def judge(self, happ, spec, B, s, y, new, cnt, out):
        phi, enf = spec['_phi'], spec['_enf']
        bb = float(y @ s)
        berr = 4 * len(s) * EPS * float(np.abs(y) @ np.abs(s))
        if (bb < -berr or np.all(y * s == 0)) and enf:
            out.append('skipped')
            if not same(new, B):
                yield 'curvature', f'curvature {bb!r} but the matrix changed by {np.abs(new - B).max()!r}'
            return
        if abs(bb) <= berr:
            out.append('undecided')
            return
        ref, mag, K, b, c = broyden_ref(B, s, y, phi)
        ua = np.abs(s) @ np.abs(B) @ np.abs(s)
        if abs(float(c)) <= 1e-6 * ua or abs(bb) <= 1e-6 * float(np.abs(y) @ np.abs(s)) or not np.isfinite(float(c)):
            out.append('undecided')
            return
        out.append('applied')
        tol = 1e-13 * K * mag + 1e-300
        if not close(new, ref, tol):
            d = np.abs(np.asarray(new, LD) - ref) / mag
            yield 'formula', f'phi={phi!r}: differs from the reference by {float(d.max()):.3e} (relative, allowed {1e-13 * K:.1e})'
        r = np.abs(new @ s - y)
        if np.any(r > np.asarray(tol @ np.abs(s), float) + 1e-13 * np.abs(y)):
            yield 'secant', f'|B+ s - y|={r.max():.3e}, |y|={np.abs(y).max():.3e}'
        a = np.abs(new - new.T)
        if np.any(a > np.asarray(tol + tol.T, float)):
            yield 'symmetry', f'asymmetry {a.max():.3e}'
        if 0 <= phi <= 1 and bb > 0:
            e = np.linalg.eigvalsh(B)
            if e[0] > 1e-8 * e[-1]:
                cnt['definiteness_checked'] += 1
                e2 = np.linalg.eigvalsh((new + new.T) / 2)
                if e2[0] < -float(np.abs(tol).max()) * len(s) * 10 - 1e-13 * e2[-1]:
                    yield 'definite', f'smallest eigenvalue {e2[0]!r} from a definite matrix'


@register
class C18(PairBatch):
    id = 'C18'
    n = {'quick': 3200, 'thorough': 30000}
    schemes = ['SR1', 'SR1', 'BG', 'BB']
    technique = 'runtime monitoring: every update compared with the defining equations in extended precision'

    def judge(self, happ, spec, B, s, y, new, cnt, out):
        Bl, sl, yl = (np.asarray(a, LD) for a in (B, s, y))
        z = yl - Bl @ sl
        zm = np.abs(y) + np.abs(B) @ np.abs(s)  # magnitude of the rounding in z
        k = spec['scheme']
        if not np.any(s):
            out.append('skipped')
            if not same(new, B):
                yield 'zero_step', 'matrix changed by a zero step'
            return
        zerr = 8 * len(s) * EPS * zm
        if np.all(z == 0) and np.all(B @ s == y):
            out.append('skipped')
            if not close(new, Bl, 1e-14 * np.abs(B).max()):
                yield 'exact', 'already exact matrix was changed'
            return
        if k == 'SR1':
            w, ws = z, np.abs(z)
            den = float(z @ sl)
            thr = np.sqrt(EPS) * float(np.linalg.norm(np.asarray(z, float)) * np.linalg.norm(s))
            derr = float(zerr @ np.abs(s)) + np.sqrt(EPS) * float(np.linalg.norm(zerr) * np.linalg.norm(s))
            if abs(den) < thr * (1 - 1e-6) - 2 * derr:
                out.append('skipped')
                if not same(new, B):
                    yield 'degenerate', f'denominator {den!r} below {thr!r} but the matrix changed'
                return
            if abs(den) < max(thr * (1 + 1e-6) + 2 * derr, 1e4 * derr):
                out.append('undecided')
                return
        elif k == 'BG':
            w, den = sl, float(sl @ sl)
            derr = 1e-15 * den
            if den < 1e-200:
                out.append('undecided')
                return
        else:
            w = Bl.T @ yl
            den = float(w @ sl)
            derr = 8 * len(s) * EPS * float(np.abs(y) @ np.abs(B) @ np.abs(s))
            if den < -2 * derr:
                out.append('skipped')
                if not same(new, B):
                    yield 'degenerate', f'denominator {den!r} is not positive but the matrix changed'
                return
            if den < 1e4 * derr or den < 1e-200:
                out.append('undecided')
                return
        out.append('applied')
        ref = Bl + np.outer(z, w) / LD(den)
        # error: rounding of z, of w (BB) and of the denominator
        werr = {'SR1': zerr, 'BG': 0 * zerr, 'BB': 8 * len(s) * EPS * (np.abs(B).T @ np.abs(y))}[k]
        za, wa = np.abs(np.asarray(z, float)), np.abs(np.asarray(w, float))
        tol = (
            np.outer(zerr, wa) + np.outer(za, werr) + np.outer(zerr, werr)
            + np.outer(za, wa) * (derr / abs(den) + 16 * EPS)
        ) / abs(den) * 4 + 8 * EPS * (np.abs(B) + np.outer(za, wa) / abs(den))
        if not close(new, ref, tol):
            yield 'formula', f'differs from the defining rank-one update by {float(np.abs(new - ref).max()):.3e}'
        r = np.abs(np.asarray(new, LD) @ sl - yl)
        if np.any(r > tol @ np.abs(s) + 4 * zerr):
            yield 'secant', f'|B+ s - y|={float(r.max()):.3e}, |y|={np.abs(y).max():.3e}'
        if k == 'SR1':
            cnt['symmetry_checked'] += 1
            a = np.abs((new - B) - (new - B).T)
            if np.any(a > 2 * (tol + tol.T)):
                yield 'symmetry', f'asymmetric change {a.max():.3e}'


# hybrid schemes -----------------------------------------------------------
INNER = ['BFGS', 'DFP', 'SR1', 'BG', 'Broyden:0.5', 'BB', 'default']


def mclose(A, R, tol=1e-10):
    m = max(np.abs(A).max(), np.abs(R).max(), 1e-300)
    return np.abs(A - R).max() <= tol * m


@register
class C19(Check):
    id = 'C19'
    n = {'quick': 3000, 'thorough': 25000}
    technique = 'runtime monitoring: reference automaton run in lock-step with the real scheme, plus recorded updates of real runs'
    rule = (
        'two thirds: a scheme object driven through two runs of random updates with random counters/residuals next to a '
        'reference automaton; one third: a real minimisation with all updates of the scheme and of the wrapped scheme '
        'recorded; non-trivial: the scheme switched (FX: took both branches) at least once; distinct: by scheme, wrapped '
        'scheme, threshold, and switching pattern'
    )

    def gen(self, rng, i, tier):
        if i % 3 == 2:
            spec = cases.gen(rng, schemes=['HybridFixed:BFGS:2', 'HybridFixed:SR1:1', 'HybridFixed:DFP:3',
                                           'HybridFraction:BFGS:0.1', 'HybridFraction:SR1:0.0', 'HybridFraction:DFP:0.3',
                                           'FX:BFGS:0.2', 'FX:DFP:0.9', 'FX:SR1:0.5'], maxiter=(30, 60),
                             problems_=['rosen', 'trig', 'quartic', 'badscale', 'wells', 'ls_rosen', 'ls_trig', 'ls_fletcher'],
                             style=cases.pick(rng, ['default', 'rand']), refine_w=0.05)
            spec['options'].update(fatol=0.0, frtol=0.0)
            spec['e2e'] = True
            spec['again'] = bool(rng.random() < 0.4)
            if rng.random() < 0.4:  # many intermediate ratios: counters matter
                spec['options'].update(mu=0.02, eta=0.97)
            return spec
        return {'scheme': cases.pick(rng, ['HybridFixed', 'HybridFraction', 'FX']), 'inner': cases.pick(rng, INNER),
                'seed': int(rng.integers(2**31)), 'n': int(rng.integers(1, 6)), 'k': int(rng.integers(5, 45)),
                'default': bool(rng.random() < 0.3)}

    def run(self, spec, cnt):
        return self.e2e(spec, cnt) if spec.get('e2e') else self.unit(spec, cnt)

    def unit(self, spec, cnt):
        rng = np.random.default_rng(spec['seed'])
        n, k = spec['n'], spec['scheme']
        kw = {}
        if k == 'HybridFixed':
            thr = 20 if spec['default'] else int(rng.integers(0, 12))
            kw = {} if spec['default'] else {'switch_iteration': thr}
        elif k == 'HybridFraction':
            thr = 0.8 if spec['default'] else float(rng.choice([0.0, 0.3, 0.5, 0.8]))
            kw = {} if spec['default'] else {'switch_threshold': thr}
        else:
            thr = 0.2 if spec['default'] else float(rng.choice([0.0, 0.1, 0.5, 0.9]))
            kw = {} if spec['default'] else {'hybrid_tol': thr}
        happ = {'HybridFixed': HybridFixed, 'HybridFraction': HybridFraction, 'FX': FX}[k](
            *([] if spec['inner'] == 'default' else [cases.make_happ(spec['inner'])]), **kw)
        viol, sig = [], []
        for run in range(2):
            ref = cases.make_happ('BFGS' if spec['inner'] == 'default' else spec['inner'])
            B0 = rand_sym(rng, n, cases.pick(rng, ['eye', 'spd']))
            initialise(happ, n, B0)
            initialise(ref, n, B0)
            if not same(happ.get_mat(), B0):
                viol.append(('init', f'run {run}: initial matrix {happ.get_mat()!r}, given {B0!r}'))
            switched = False
            pat = ''
            f = 0.0 if k == 'FX' else None
            non = 0
            since = 0
            for j in range(spec['k']):
                old = happ.get_mat()
                s, y = rand_pair(rng, old, cases.pick(rng, ['quad', 'noisy', 'random', 'negcurv']))
                hess = rand_sym(rng, n, cases.pick(rng, ['spd', 'indef']))
                h0 = hess.copy()
                if k == 'HybridFixed':
                    since = int(rng.choice([since + 1, since + 1, since + 1, 0, thr]))
                    happ.update(s=s, y=y, hess=hess, iter_since_tr_update=since)
                    ref.update(s=s, y=y)
                    want = ref.get_mat() if switched else h0
                    switched |= since >= thr
                    pat += 'I' if want is not h0 else 'D'
                elif k == 'HybridFraction':
                    it = 1 + j + int(rng.integers(0, 3)) if rng.random() < 0.2 else 1 + j
                    if rng.random() < 0.3:
                        it = 24 + int(rng.integers(0, 5))
                    non = int(rng.integers(0, it + 1))
                    if rng.random() < 0.3:
                        non = min(it, int(np.ceil(thr * it)))
                    happ.update(s=s, y=y, hess=hess, tr_nonupdates=non, iterations=it)
                    ref.update(s=s, y=y)
                    want = ref.get_mat() if switched else h0
                    if it > 25 and abs(non / it - thr) < 1e-12 and non / it != thr:
                        cnt['undecided'] += 1
                        break
                    switched |= it > 25 and non / it > thr
                    pat += 'I' if want is not h0 else 'D'
                else:
                    rp = rng.normal(size=3)
                    red = float(rng.choice([thr + 0.05, thr - 0.05, rng.uniform(-0.5, 1), thr]))
                    r = rp * np.sqrt(max(1 - red, 0.0))
                    ratio = (rp @ rp - r @ r) / (rp @ rp)
                    ref.set_mat(old)
                    ref.update(s=s, y=y)
                    happ.update(delta=s, gamma=y, r=r, rprev=rp, hess=hess)
                    if abs(ratio - thr) < 1e-12:
                        cnt['undecided'] += 1
                        # both branches are within rounding of the criterion
                        got = happ.get_mat()
                        if not (mclose(got, h0) or mclose(got, ref.get_mat())):
                            viol.append(('branch', f'update {j}: neither branch'))
                        continue
                    want = h0 if ratio >= thr else ref.get_mat()
                    pat += 'D' if ratio >= thr else 'I'
                new = happ.get_mat()
                cnt['updates'] += 1
                ctx = f'{k}({spec["inner"]},{thr}) run {run} update {j} after pattern {pat!r}'
                if not mclose(new, want):
                    viol.append(('matrix', f'{ctx}: {new.tolist()} expected {want.tolist()}'))
                    break
                if not same(hess, h0):
                    viol.append(('modified', ctx))
                d = happ.get_diff()
                if np.abs(d - (new - old)).max() > 1e-12 * (np.abs(new).max() + np.abs(old).max() + np.abs(d).max()):
                    viol.append(('diff', f'{ctx}: reported update {d.tolist()} but change {(new - old).tolist()}'))
                if np.abs(new).max() > 1e10:
                    break
                # writing into the arrays handed out must not reach the scheme
                new[:] = 7.0
                d[:] = 7.0
                hess[:] = 7.0
                if not mclose(happ.get_mat(), want):
                    viol.append(('aliased', f'{ctx}: matrix changed when the caller wrote into its own arrays'))
                    break
            cnt['switched_runs'] += 'I' in pat and 'D' in pat
            sig.append(pat)
        nt = any('I' in p and 'D' in p for p in sig)
        return viol, (k, spec['inner'], thr, n, tuple(sig)) if nt else None

    def e2e(self, spec, cnt):
        b, t, ups, inner, rec = recorded(spec, spec.get('again'))
        cnt['e2e_later_runs'] += bool(spec.get('again'))
        viol = []
        sch = spec['scheme'].split(':')
        thr = float(sch[2])
        kind = sch[0]
        tr = list(oracles.trials(t))
        mu, eta = oracles.opt_of(b, 'mu'), oracles.opt_of(b, 'eta')
        since, nlo, nhi = {}, {}, {}
        c = lo = hi = 0
        for k, call, pre, post, last in tr:
            upd = post['delta'] != pre['delta']
            c = 0 if upd else c + 1
            lo += bool(np.isfinite(call['f']) and mu < post['tr_ratio'] < eta)
            hi += bool(not upd and post['tr_ratio'] > 0)
            since[k], nlo[k], nhi[k] = c, lo, hi
        switched = False
        pat = ''
        for u in ups:
            k, a = u['call'], u['args']
            if k == len(t.calls) - 1 and t.exc is not None:
                break
            cnt['e2e_updates'] += 1
            if kind == 'HybridFixed':
                if a['iter_since_tr_update'] != since[k]:
                    viol.append(('counter', f"iter {k}: scheme told {a['iter_since_tr_update']} iterations since the radius changed, counted {since[k]}"))
                use = switched
                switched |= since[k] >= thr
            elif kind == 'HybridFraction':
                if not nlo[k] <= a['tr_nonupdates'] <= nhi[k]:
                    viol.append(('counter', f"iter {k}: scheme told {a['tr_nonupdates']} intermediate iterations, counted {nlo[k]}..{nhi[k]}"))
                if a['iterations'] != k:
                    viol.append(('counter', f"iter {k}: scheme told iteration {a['iterations']}"))
                use = switched
                switched |= k > 25 and a['tr_nonupdates'] / k > thr
            else:
                rp, r = a['rprev'], a['r']
                use = None
                if rp @ rp > 0:
                    ratio = (rp @ rp - r @ r) / (rp @ rp)
                    if abs(ratio - thr) > 1e-10:
                        use = ratio < thr
            if use is None:
                continue
            pat += 'I' if use else 'D'
            want = u['inner_mat'] if use else rec.calls[k]['H']
            if np.abs(want).max() < 1e100 and not mclose(u['mat'], want, 1e-9):
                viol.append(('matrix', f"iter {k} pattern {pat!r}: scheme in use is not the {'iterative' if use else 'supplied'} one"))
                break
        if kind != 'FX':
            # the wrapped scheme has seen every accepted step
            if len(inner) != len(ups):
                viol.append(('inner', f'wrapped scheme got {len(inner)} of {len(ups)} updates'))
            for u, w in zip(ups, inner):
                if not (same(u['args']['s'], w['args']['s']) and same(u['args']['y'], w['args']['y'])):
                    viol.append(('inner', f"iter {u['call']}: wrapped scheme got a different pair"))
                    break
        nt = 'I' in pat and 'D' in pat
        cnt['e2e_switched_runs'] += nt
        return viol, ('e2e', spec['scheme'], spec['n'], pat) if nt else None


# recorded end-to-end runs -------------------------------------------------
def attach(happ, log, rec):
    cls = type(happ)
    sig = inspect.signature(cls.update)

    def update(self, *a, **k):
        args = sig.bind(self, *a, **k).arguments
        ev = {'args': {n: record.cp(v) for n, v in args.items() if n != 'self'}, 'call': len(rec.calls) - 1}
        log.append(ev)
        cls.update(self, *a, **k)
        ev['mat'], ev['diff'] = self.get_mat(), self.get_diff()
        inner = getattr(self, 'hessian_update', None)
        if inner is not None:
            ev['inner_mat'] = inner.get_mat()

    happ.__class__ = type('Recorded' + cls.__name__, (cls,), {'update': update})


def recorded(spec, again=False):
    b = cases.build(spec)
    rec = record.Recorder(b.problem, b.mode, faults=make_faults(spec, b.mode))
    happ = cases.make_happ(spec['scheme'])
    ups, inner = [], []
    attach(happ, ups, rec)
    if getattr(happ, 'hessian_update', None) is not None:
        attach(happ.hessian_update, inner, rec)
    opt = cases.make_opt(b, rec, happ=happ)
    if again:  # what is checked is the second run of this optimizer
        record.run_min(opt, rec, b.x0, hess0=b.hess0)
        for log in (ups, inner, rec.calls):
            log.clear()
    t = record.run_min(opt, rec, b.x0, hess0=b.hess0)
    return b, t, ups, inner, rec


@register
class C21(TraceCheck):
    id = 'C21'
    n = {'quick': 4000, 'thorough': 40000}
    technique = 'runtime monitoring: update() arguments and matrices recorded by an instrumented subclass of the scheme'
    fault_p = 0.2
    rule = (
        'random runs with every Hessian approximation scheme and initialisation; each update() call is recorded together '
        'with the objective log; non-trivial: at least two accepted steps and one rejected trial; distinct: by '
        '(scheme, solver, strategy, bound kind, dimension, path, flag)'
    )

    def gen(self, rng, i, tier):
        spec = super().gen(rng, i, tier)
        while spec['scheme'] == 'none':
            spec = super().gen(rng, i, tier)
        m = cases.mode_of(spec['scheme'])
        if rng.random() < 0.4:
            spec['hess0'] = cases.pick(rng, ['spd', 'small', 'hess'] if m != 'fg' else ['spd', 'small', 'indef'])
        return spec

    def run(self, spec, cnt):
        b, t, ups, inner, rec = recorded(spec)
        viol = []
        cnt['runs'] += 1
        K = len(t.calls) - 1
        st = oracles.states(t)
        byk = {}
        for u in ups:
            byk.setdefault(u['call'], []).append(u)
        if K >= 1:
            h0 = st[1]['hess']
            n = spec['n']
            want = {None: np.eye(n), 'hess': t.calls[0].get('H')}.get(b.hess0 if not isinstance(b.hess0, np.ndarray) else 0, b.hess0)
            cnt['initialisations_' + str(spec.get('hess0'))] += 1
            if not mclose(h0, want, 1e-12):
                viol.append(('init', f'initial model Hessian {h0.tolist()}, expected {np.asarray(want).tolist()}'))
        elif isinstance(t.exc, (ValueError, TypeError)) and len(t.calls) == 1:
            viol.append(('init', f'initialisation {spec.get("hess0")!r} of a valid run failed: {t.exc!r}'))
        prev = 0  # call index of the current iterate
        nacc = nrej = 0
        for k, c, pre, post, last in oracles.trials(t):
            aborted = last and t.exc is not None
            us = byk.get(k, [])
            if aborted:
                break
            moved = not (same(pre['x'], post['x']) and same(pre['fval'], post['fval']))
            if same(pre['x'], c['x']):
                # zero displacement: acceptance is decided by the ratio
                moved = post['tr_ratio'] > 0
            if not moved:
                nrej += 1
                if us:
                    viol.append(('update_on_reject', f'iter {k}: scheme was updated {len(us)} times by a rejected trial'))
                if not same(pre['hess'], post['hess']):
                    viol.append(('model_on_reject', f'iter {k}: model Hessian changed on a rejected trial'))
                continue
            nacc += 1
            if len(us) != 1:
                viol.append(('update_count', f'iter {k}: {len(us)} updates for an accepted step'))
                prev = k
                continue
            u = us[0]
            if 'mat' in u and not same(u['mat'], post['hess']):
                viol.append(('model', f'iter {k}: model Hessian is not the matrix of the scheme after the update'))
            viol += [(a, f'iter {k}: {m}') for a, m in self.args(spec, u['args'], t.calls[prev], c, pre, cnt)]
            prev = k
        extra = [k for k in byk if k < 1 or k > K]
        if extra:
            viol.append(('update_extra', f'updates outside of iterations {extra}'))
        if t.exc is None and not same(t.final['hess'], t.opt.hessian_update.get_mat()):
            viol.append(('reported', 'reported Hessian is not the matrix of the scheme'))
        cnt['accepted_steps'] += nacc
        cnt['rejected_trials'] += nrej
        return viol, trace_sig(spec, t) if nacc >= 2 and nrej >= 1 else None

    def args(self, spec, a, old, new, pre, cnt):
        s, se = disp(old['x'], new['x'])
        se = 8 * se + 64 * EPS * np.abs(s)
        ga = a.get('s', a.get('delta'))
        cnt['update_calls_checked'] += 1
        if ga is not None and np.any(np.abs(ga - s) > se):
            yield 'arg_s', f'step {ga.tolist()}, displacement {s.tolist()}'
            return
        y = new['g'] - old['g']
        if 'y' in a and np.any(np.abs(a['y'] - y) > 1e-9 * (np.abs(new['g']) + np.abs(old['g'])).max()):
            yield 'arg_y', f"gradient change {a['y'].tolist()}, objective gave {y.tolist()}"
        if 'hess' in a and not mclose(a['hess'], new['H'], 1e-10):
            yield 'arg_hess', f"Hessian {a['hess'].tolist()}, objective gave {new['H'].tolist()}"
        if 'r' in a and not same(a['r'], new['res']):
            yield 'arg_r', f"residual {a['r'].tolist()}, objective gave {new['res'].tolist()}"
        if 'rprev' in a and not same(a['rprev'], old['res']):
            yield 'arg_rprev', f"previous residual {a['rprev'].tolist()}, objective gave {old['res'].tolist()}"
        if 'yb' in a or 'gamma' in a:
            dJ, r = new['sres'] - old['sres'], new['res']
            yb = dJ.T @ r
            mag = (np.abs(new['sres']) + np.abs(old['sres'])).T @ np.abs(r)
            if 'yb' in a:
                if spec['scheme'].split(':')[0] in ('TSSM', 'GNSBFGS'):
                    f = np.linalg.norm(r) / np.linalg.norm(old['res'])
                    yb, mag = yb * f, mag * f
                cnt['structured_arguments_checked'] += 1
                if np.any(np.abs(a['yb'] - yb) > 1e-10 * mag.max() + 1e-300):
                    yield 'arg_yb', f"structured change {a['yb'].tolist()}, expected {yb.tolist()}"
            else:
                g = new['H'] @ ga + yb
                m = np.abs(new['H']) @ np.abs(ga) + mag
                cnt['structured_arguments_checked'] += 1
                if np.any(np.abs(a['gamma'] - g) > 1e-10 * m.max() + 1e-300):
                    yield 'arg_gamma', f"gamma {a['gamma'].tolist()}, expected {g.tolist()}"


# structured schemes -------------------------------------------------------
@register
class C20(Check):
    id = 'C20'
    n = {'quick': 3200, 'thorough': 30000}
    technique = 'runtime monitoring: structured secant equations and formulas checked after every update in extended precision'
    rule = (
        'each case drives an SSM, TSSM or GNSBFGS object through up to 15 updates with random Gauss-Newton matrices, '
        'residuals (including zero and tiny ones) and structured changes of positive and negative curvature; non-trivial: '
        'the second-order term was updated and skipped at least once; distinct: by scheme, parameters and outcome pattern'
    )

    def gen(self, rng, i, tier):
        k = cases.pick(rng, ['SSM', 'TSSM', 'GNSBFGS'])
        return {'scheme': k, 'phi': float(rng.choice([0.0, 1.0, 0.5, 0.25])), 'enf': bool(rng.random() < 0.8),
                'tol': float(rng.choice([1e-6, 0.1, 1.0])), 'seed': int(rng.integers(2**31)),
                'n': int(rng.integers(1, 6)), 'k': int(rng.integers(4, 16))}

    def run(self, spec, cnt):
        rng = np.random.default_rng(spec['seed'])
        n, k = spec['n'], spec['scheme']
        phi = spec['phi']
        if k == 'GNSBFGS':
            phi = 0.0
            happ, warned = construct(GNSBFGS, {'hybrid_tol': spec['tol'], 'enforce_curv_cond': spec['enf']},
                                     {'hybrid_tol': 1e-6, 'enforce_curv_cond': True}, rng)
        else:
            happ, warned = construct({'SSM': SSM, 'TSSM': TSSM}[k], {'phi': phi, 'enforce_curv_cond': spec['enf']},
                                     {'phi': 0.0, 'enforce_curv_cond': True}, rng)
        B0 = rand_sym(rng, n, 'spd')
        initialise(happ, n, B0)
        viol = []
        if k != 'GNSBFGS' and rng.random() < 0.2:
            out = float(rng.choice([-0.5, -1e-3, 1.001, 2.0]))
            cnt['warnings_expected'] += 1
            if not construct(type(happ), {'phi': out}, {}, rng)[1]:
                viol.append(('warning', f'{k} with phi={out!r} raised no warning'))
        if warned:
            viol.append(('warning', f'{k} with phi={phi!r} raised a warning'))
        if not same(happ.get_mat(), B0):
            viol.append(('init', f'initial matrix {happ.get_mat()!r}, given {B0!r}'))
        A = np.eye(n) * EPS  # second order term
        pat = ''
        for j in range(spec['k']):
            old = happ.get_mat()
            s = rng.normal(size=n) * 10 ** rng.uniform(-2, 1)
            m = int(rng.integers(max(1, n - 1), n + 3))
            J = rng.normal(size=(m, n))
            r = rng.normal(size=m) * 10 ** rng.uniform(-2, 1)
            z = rng.random()
            if z < 0.05:
                r = np.zeros(m)
            C = J.T @ J
            S = rand_sym(rng, n, cases.pick(rng, ['spd', 'indef', 'indef'])) * 10 ** rng.uniform(-1, 0.5)
            yb = S @ s
            if z > 0.85:
                yb = -10 * C @ s  # strongly negative total curvature
            elif z > 0.65 and k == 'GNSBFGS':
                # curvature close to the switching tolerance
                yb = s * spec['tol'] * (1 + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-4, 0))
            y = C @ s + yb + 0.1 * rng.normal(size=n)
            c0 = [v.copy() for v in (s, y, r, C, yb)]
            happ.update(s=s, y=y, r=r, hess=C, yb=yb)
            new, diff, sd = happ.get_mat(), happ.get_diff(), np.array(happ.get_structured_diff(), copy=True)
            ctx = f'{k}(phi={phi}, enforce={spec["enf"]}, tol={spec["tol"]}) update {j} after {pat!r} s={s.tolist()} yb={yb.tolist()} r={r.tolist()} C={C.tolist()} A={A.tolist()}'
            if not all(same(p, q) for p, q in zip(c0, (s, y, r, C, yb))):
                viol.append(('modified', ctx))
            if not np.all(np.isfinite(new)):
                viol.append(('not_finite', ctx))
                break
            big = np.abs(old).max() + np.abs(new).max() + np.abs(diff).max()
            if np.abs(diff - (new - old)).max() > 1e-12 * big:
                viol.append(('diff', f'reported update {diff.tolist()} but change {(new - old).tolist()}: ' + ctx))
            nr = np.linalg.norm(r)
            if k == 'SSM':
                base, ys, scale = C + A, yb + C @ s, 1.0
            elif k == 'TSSM':
                base, ys, scale = C + nr * A, yb + C @ s, nr
            else:
                base, ys, scale = A, yb, 1.0
            b = float(ys @ s)
            bm = float(np.abs(ys) @ np.abs(s))
            q = float(yb @ s / (s @ s))
            skip = None
            if k == 'GNSBFGS':
                if abs(q - spec['tol']) < 1e-9 * (1 + abs(q)):
                    cnt['undecided'] += 1
                    break
                if not q > spec['tol']:
                    skip = 'gn'
            if skip is None and spec['enf'] and b < -1e-12 * bm:
                skip = 'curv'
            if k == 'TSSM' and nr == 0:
                skip = 'zero'
            if skip is None and (abs(b) < 1e-6 * bm):
                cnt['undecided'] += 1
                break
            cnt['updates'] += 1
            if skip:
                cnt['skipped_' + skip] += 1
                pat += skip[0]
                An = A
                tot = C + (nr * np.eye(n) if skip == 'gn' else (nr if k == 'TSSM' else 1.0) * A)
                if np.any(sd != 0):
                    viol.append(('structured_skip', f'second-order term changed by {sd.tolist()} although the update is skipped ({skip}): ' + ctx))
                if not mclose(new, tot, 1e-12):
                    viol.append(('total_skip', f'{new.tolist()} expected {tot.tolist()} ({skip}): ' + ctx))
            else:
                ref, mag, K, b_, c_ = broyden_ref(base, s, ys, phi)
                ua = np.abs(s) @ np.abs(base) @ np.abs(s)
                if abs(float(c_)) < 1e-6 * ua or K > 1e6:
                    cnt['undecided'] += 1
                    break
                pat += 'u'
                cnt['applied'] += 1
                cnt['applied_' + k] += 1
                tol = np.asarray(2e-13 * K * mag, float)
                if k == 'GNSBFGS':
                    tot = np.asarray(ref, float) + C
                else:
                    tot = np.asarray(ref, float)
                tol = tol + 1e-13 * np.abs(C)
                if np.any(np.abs(new - tot) > tol):
                    viol.append(('formula', f'total matrix {new.tolist()} expected {tot.tolist()}: ' + ctx))
                want = ys if k != 'GNSBFGS' else C @ s + yb
                res = np.abs(new @ s - want)
                if np.any(res > tol @ np.abs(s) + 1e-12 * (np.abs(C) @ np.abs(s) + np.abs(yb))):
                    viol.append(('secant', f'|B+ s - y|={res.max():.3e} of {np.abs(want).max():.3e}: ' + ctx))
                dA = (np.asarray(ref, float) - base) / scale
                if np.any(np.abs(sd - dA) > 4 * tol / scale):
                    viol.append(('structured_diff', f'reported {sd.tolist()} expected {dA.tolist()}: ' + ctx))
                An = A + sd
            if np.abs(new - new.T).max() > 1e-10 * np.abs(new).max() * (1 if pat[-1] != 'u' else K):
                viol.append(('symmetry', f'asymmetry {np.abs(new - new.T).max():.3e}: ' + ctx))
            A = (An + An.T) / 2
            A = An
            if viol or np.abs(A).max() > 1e8:
                break
        nt = 'u' in pat and len(set(pat)) > 1
        return viol, (k, phi, spec['enf'], spec['tol'], n, pat) if nt else None
