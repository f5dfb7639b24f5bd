"""Comparison of two recorded runs."""
import numpy as np

from .record import STATE
from .spec import same

OUT = ('f', 'g', 'H', 'res', 'sres')


def pack(t, log=None):
    """plain-data image of a Trace"""
    return {
        'calls': [{k: c[k] for k in ('x',) + OUT if k in c} for c in t.calls],
        'pre': [c['pre'] for c in t.calls if 'pre' in c],
        'ret': None if t.ret is None else t.ret_copy,
        'exc': None if t.exc is None else (type(t.exc).__name__, str(t.exc)),
        'final': t.final,
        'history': t.history,
        'log': log,
    }


def brief(v):
    return repr(v)[:160]


def same_hist(a, b):
    if set(a) != set(b):
        return f'fields {sorted(set(a) ^ set(b))}'
    for k in a:
        if len(a[k]) != len(b[k]):
            return f'{k}: {len(a[k])} entries against {len(b[k])}'
        for j, (u, v) in enumerate(zip(a[k], b[k])):
            if isinstance(u, str) or isinstance(v, str):
                ok = u == v
            else:
                ok = same(u, v)
            if not ok:
                return f'{k}[{j}]: {u!r} against {v!r}'
    return None


def diff(a, b, what=('calls', 'ret', 'exc', 'final', 'history', 'log'), outputs=True):
    """list of (kind, message); a is the run under test, b the reference"""
    v = []
    n = min(len(a['calls']), len(b['calls']))
    if 'calls' in what:
        for k in range(n):
            for nm in ('x',) + (OUT if outputs else ()):
                p, q = a['calls'][k].get(nm), b['calls'][k].get(nm)
                if not same(p, q):
                    return [('evaluations', f'evaluation {k}: {nm} = {brief(p)}, reference {brief(q)}')]
        if len(a['calls']) != len(b['calls']):
            return [('evaluations', f"{len(a['calls'])} evaluations, reference {len(b['calls'])}")]
    if 'exc' in what and a['exc'] != b['exc']:
        v.append(('exception', f"{brief(a['exc'])}, reference {brief(b['exc'])}"))
    if 'ret' in what:
        if (a['ret'] is None) != (b['ret'] is None) or a['ret'] is not None and not all(
            same(p, q) for p, q in zip(a['ret'], b['ret'])
        ):
            v.append(('result', f"{brief(a['ret'])}, reference {brief(b['ret'])}"))
    if 'final' in what:
        if a['final']['exitflag'] != b['final']['exitflag']:
            v.append(('exitflag', f"{a['final']['exitflag']!r}, reference {b['final']['exitflag']!r}"))
        if len(a['calls']) > (a['exc'] is not None):  # without an evaluation the state is undefined
            for k in STATE:
                if not same(a['final'][k], b['final'][k]):
                    v.append(('state', f"{k} = {brief(a['final'][k])}, reference {brief(b['final'][k])}"))
        for k, (p, q) in enumerate(zip(a['pre'], b['pre'])):
            if k == 0:
                continue
            for nm in STATE:
                if not same(p[nm], q[nm]):
                    v.append(('state', f'before evaluation {k}: {nm} = {brief(p[nm])}, reference {brief(q[nm])}'))
                    break
    if 'history' in what:
        d = same_hist(a['history'], b['history'])
        if d:
            v.append(('history', d + ' (reference)'))
    if 'log' in what and a['log'] is not None and b['log'] is not None and a['log'] != b['log']:
        j = next((j for j, (p, q) in enumerate(zip(a['log'], b['log'])) if p != q), min(len(a['log']), len(b['log'])))
        v.append(('log', f"message {j}: {brief(a['log'][j:j + 1])}, reference {brief(b['log'][j:j + 1])} "
                         f"({len(a['log'])} against {len(b['log'])} messages)"))
    return v
