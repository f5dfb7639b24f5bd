"""Runs one check: `python -m fm.driver <ID> [--replay FILE]`."""
import argparse
import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

from . import env

import numpy as np

WORKERS = int(os.environ.get('FM_WORKERS', '8'))


class CaseTimeout(BaseException):
    """the per-case watchdog: the case is inconclusive, never a violation"""


def _alarm(*_):
    raise CaseTimeout()


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float) and not np.isfinite(o):
        return repr(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def case_rng(seed, cid, i):
    return np.random.default_rng([seed, zlib.crc32(cid.encode()), i])


def run_case(check, spec, cnt, limit):
    """-> (violations, signature, status)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        viol, sig = check.run(spec, cnt)
        return list(viol), sig, 'ok'
    except CaseTimeout:
        return [], None, 'timeout'
    except MemoryError:
        return [], None, 'memory'
    except Exception as e:  # harness trouble is never reported as a violation
        return [], None, 'harness: ' + ''.join(traceback.format_exception(e))[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(check, seed, tier, n, w, deadline, out):
    res = dict(cnt=Counter(), viol=[], sigs=set(), samples=[], done=0, nontriv=0,
               inconclusive=Counter(), errors=[])
    tmo = 0
    sys.stderr = open(os.devnull, 'w')
    for i in range(w, n, WORKERS):
        if time.monotonic() > deadline:
            res['inconclusive']['deadline'] += 1
            break
        rng = case_rng(seed, check.id, i)
        spec = check.gen(rng, i, tier)
        cnt = Counter()
        viol, sig, status = run_case(check, spec, cnt, check.limit)
        res['done'] += 1
        res['cnt'].update(cnt)
        if status != 'ok':
            res['inconclusive'][status.split(':')[0]] += 1
            if status.startswith('harness') and len(res['errors']) < 3:
                res['errors'].append(f'case {i}: {status}')
            if status == 'timeout':
                tmo += 1
                if tmo >= 3:
                    res['inconclusive']['stopped_after_timeouts'] += 1
                    break
        if sig is not None:
            res['nontriv'] += 1
            res['sigs'].add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])
            if len(res['samples']) < 2:
                res['samples'].append({'case': i, 'spec': jsonable(spec), 'observed': dict(cnt)})
        if viol:
            res['viol'].append((i, spec, [(str(k), str(m)) for k, m in viol[:6]]))
            if len(res['viol']) >= 20:
                break
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.replace(out + '.tmp', out)


def write_replay(check, seed, i, spec, viol):
    d = os.path.join(env.VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    body = {'property': check.id, 'seed': seed, 'case': i, 'spec': spec, 'violations': viol}
    s = json.dumps(body, default=jsonable, indent=1)
    p = os.path.join('replay', f'{check.id}-{hashlib.md5(s.encode()).hexdigest()[:10]}.json')
    with open(os.path.join(env.VERIF, p), 'w') as f:
        f.write(s)
    return p


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--replay')
    ap.add_argument('--n', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--case', type=int)
    a = ap.parse_args(argv)
    from .checks import CHECKS

    check = CHECKS[a.id]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay or a.case is not None:
        if a.replay:
            with open(a.replay) as f:
                spec = json.load(f)['spec']
        else:
            spec = check.gen(case_rng(seed, check.id, a.case), a.case, tier)
            print(json.dumps(jsonable(spec)))
        cnt = Counter()
        viol, sig, status = run_case(check, spec, cnt, 600)
        print(status, dict(cnt))
        for k, m in viol:
            print(f'  {k}: {m}')
        if viol:
            print(f'VIOLATION property={check.id} replay={a.replay}')
        return 1 if viol else 0

    t0 = time.monotonic()
    n = a.n or check.n[tier]
    deadline = t0 + (150 if tier == 'quick' else 780)
    scratch = tempfile.mkdtemp(prefix='fm_', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.environ['FM_SCRATCH'] = scratch
    nw = min(WORKERS, n)
    sys.stdout.flush()
    pids = {}
    try:
        for w in range(nw):
            out = os.path.join(scratch, f'res{w}')
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    worker(check, seed, tier, n, w, deadline, out)
                    code = 0
                except BaseException:
                    traceback.print_exc(file=sys.stdout)
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            pids[pid] = w
        left = set(pids)
        while left and time.monotonic() < deadline + 2 * check.limit:
            for pid in list(left):
                if os.waitpid(pid, os.WNOHANG)[0]:
                    left.discard(pid)
            time.sleep(0.02)
        for pid in left:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        R = dict(cnt=Counter(), viol=[], sigs=set(), samples=[], done=0, nontriv=0,
                 inconclusive=Counter(), errors=[])
        for w in range(nw):
            p = os.path.join(scratch, f'res{w}')
            if not os.path.exists(p):
                R['inconclusive']['worker_lost'] += 1
                continue
            with open(p, 'rb') as f:
                r = pickle.load(f)
            for k in ('cnt', 'inconclusive'):
                R[k].update(r[k])
            for k in ('viol', 'samples', 'errors'):
                R[k] += r[k]
            R['sigs'] |= r['sigs']
            R['done'] += r['done']
            R['nontriv'] += r['nontriv']
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)

    kinds = {}
    for i, spec, viol in sorted(R['viol'], key=lambda v: v[0]):
        for k, m in viol:
            kinds.setdefault(k, []).append((i, spec, m, viol))
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': R['done'],
            'distinct_nontrivial': len(R['sigs']),
            'rule': check.rule,
            'samples': R['samples'][:4],
            'nontrivial_cases': R['nontriv'],
            'observed': {k: int(v) for k, v in sorted(R['cnt'].items())},
            'inconclusive': dict(R['inconclusive']),
            'harness_errors': R['errors'][:3],
            'violating_cases': len(R['viol']),
            'violation_kinds': {k: len(v) for k, v in kinds.items()},
        },
        'assumptions': list(check.assumptions),
        'wall_s': round(time.monotonic() - t0, 2),
    }
    with open(os.path.join(env.VERIF, 'evidence', f'{check.id}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print(f"{check.id} [{tier}] seed={seed}: {R['done']} cases, {R['nontriv']} non-trivial, "
          f"{len(R['sigs'])} distinct, inconclusive {dict(R['inconclusive'])}, {ev['wall_s']} s")
    for e in R['errors'][:2]:
        print('harness error:', e)
    for k, v in sorted(kinds.items(), key=lambda kv: -len(kv[1]))[:6]:
        i, spec, m, viol = v[0]
        p = write_replay(check, seed, i, spec, viol)
        print(f'  {k} ({len(v)} cases), case {i}: {m[:400]}')
        print(f'VIOLATION property={check.id} replay={p}')
    return 1 if kinds else 0


if __name__ == '__main__':
    sys.exit(main())
