"""Writes DESIGN.md from design_head.md, the per-property notes below, design_tail.md and catch.json."""
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from fm.checks import CHECKS  # noqa: E402

N = json.load(open(V / 'tools' / 'design_notes.json'))
out = [open(V / 'tools' / 'design_head.md').read()]
props = {d['id']: d for d in map(json.loads, open(V / 'properties.jsonl'))}
for pid, d in props.items():
    n = CHECKS[pid].n
    out.append(f"### {pid} {d['title']}\n")
    out.append(f"*Cases {n['quick']} / {n['thorough']}.* {N[pid]}\n")
out.append(open(V / 'tools' / 'design_tail.md').read())
C = V / 'tools' / 'catch.json'
catch = json.load(open(C)) if C.exists() else {}
if catch:
    out.append('| planted change | what it needs | caught by (checks run against it) |\n|---|---|---|')
    rows = []
    for b in sorted(catch):
        m = json.load(open(V / 'seeded' / b / 'meta.json'))
        rows.append(f"| {b}{'*' if catch[b].get('first_missed') else ''} | {m['needs']} | {', '.join(catch[b]['caught']) or 'none'} |")
    out.append('\n'.join(rows) + '\n')
(V / 'DESIGN.md').write_text('\n'.join(out))
