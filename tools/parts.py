#!/usr/bin/env python3
"""parts.py <ID> <n>: a thorough check of many programs, built and run in n parts (memory of the compiler); adds up the evidence"""
import json, os, subprocess, sys
pid, n = sys.argv[1], int(sys.argv[2])
ev = f'{os.environ["VERIF_DIR"]}/evidence/{pid}.json'
tot, notes, wall = None, [], 0.0
for i in range(n):
    r = subprocess.run(['./run.sh', pid, 'thorough'], env={**os.environ, 'VERIF_CHUNK': f'{i}/{n}'}, stdout=subprocess.PIPE, text=True)
    for l in r.stdout.splitlines():
        if not l.startswith(('note:', 'KNOWN-FINDING')): print(l)
        elif l.startswith('KNOWN') and l not in notes: notes.append(l)
    sys.stdout.flush()
    if r.returncode: sys.exit(r.returncode)
    e = json.load(open(ev)); wall += e['wall_s']
    if tot is None: tot = e; continue
    a, b = tot['coverage'], e['coverage']
    for k, v in b.items():
        if k in ('states', 'transitions', 'traces_validated_against_impl', 'evaluations', 'distinct_nontrivial', 'not_predicted_by_model', 'jobs'): a[k] = a.get(k, 0) + v
        elif isinstance(v, list): a[k] = (a.get(k) or [])[:12] + v[:12] if k != 'samples' else (a.get(k) or []) + v[:2]
        elif k not in a: a[k] = v
tot['coverage']['parts'] = n; tot['wall_s'] = round(wall, 2)
json.dump(tot, open(ev, 'w'), indent=1)
for l in notes: print(l)
