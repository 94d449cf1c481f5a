#!/usr/bin/env python3
"""Developer tool: applies each seeded bug to /repo, runs the check of its property, undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
have = json.load(open(V + '/props.json'))
for i in ids:
    d = V + '/seeded/' + i; p = json.load(open(d + '/meta.json'))['property']
    if p not in have: print(i, p, 'no check', flush=True); continue
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    try: r = subprocess.run(['python3', 'check.py', p], cwd=V, capture_output=True, text=True)
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    print(i, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), '%.0fs' % (time.time() - t), ' | '.join(r.stdout.strip().splitlines()[-4:-1])[:400], flush=True)
