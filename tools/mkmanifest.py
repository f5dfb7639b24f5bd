"""Writes /verif/MANIFEST.json from the registered checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fm.checks import CHECKS  # noqa: E402
from fm.env import VERIF  # noqa: E402

COMMON = ('Assurance: no violation on the executions observed (counts in the evidence file); says nothing about '
          'executions not generated. Trusted: the monitor and its oracle, numpy/scipy arithmetic, the recorded boundary.')
NOTES = {
    'C01': 'Exact comparison, no rounding allowance.',
    'C02': 'Bit-for-bit comparison for value interfaces; for residual interfaces the value and gradient are compared within rounding bounds.',
    'C05': 'Ratio and radius recomputed from recorded values within running rounding-error bounds; decisions inside the bound are skipped and counted.',
    'C06': 'Slack 1e-6 relative plus square root of machine precision.',
    'C07': 'Comparisons carry rounding-error bounds; undecidable comparisons are counted, not judged.',
    'C08': 'The dual bound is a certificate of global optimality, independent of the solver.',
    'C11': 'The clock is virtual (time.time, monotonic and perf_counter are replaced), so the verdict does not depend on the machine load.',
    'C13': 'Reference runs are made in a process forked before the first run of the library.',
    'C14': 'Interleavings are at line granularity (or real preemption); the number of distinct ones is in the evidence.',
    'C17': 'Tolerances are rounding-error bounds of the formula, computed in extended precision.',
    'C18': 'Tolerances are rounding-error bounds of the formula, computed in extended precision.',
    'C20': 'Tolerances are rounding-error bounds of the formula, computed in extended precision.',
    'C29': 'Paths stop where a tie or rounding decides; comparisons carry 1e-6 of the model scale.',
    'C28': 'Differences count only if they persist on nearby problems; exact ties and rounding-level decisions are not judged.',
    'C25': 'Strong convexity gives a certified lower bound of the constrained minimum at every point.',
    'C26': 'Hangs are judged by counted interpreter events, not wall time; the wall-clock watchdog only makes a case inconclusive.',
}
checks = []
for cid in sorted(CHECKS):
    c = CHECKS[cid]
    cmd = f'/opt/venv/bin/python -m fm.driver {cid}'
    checks.append({'property': cid, 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                   'evidence_file': f'evidence/{cid}.json', 'technique': c.technique, 'level': c.level,
                   'level_note': (NOTES.get(cid, '') + ' ' + COMMON).strip()})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m fm.selftest', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: everything is observed at the public boundary. known_findings.txt lists repaired defects.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks))
