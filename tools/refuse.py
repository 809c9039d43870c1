#!/usr/bin/env python3
"""C24: every declaration of gen/refuse.py goes through the real derive macros in the compiler; the ones the rules refuse must end in an
error at their own line, the ones the rules allow must not be refused by the derive. Expansion only (no type checking) decides both;
a declaration that should be refused and is not is compiled in full before it is reported."""
import collections, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
D = os.environ['VERIF_DIR']; T = os.environ.get('VERIF_TIER') == 'thorough'
t0 = time.time()
SETS = [('std,bits,descriptive-errors', 'bits'), ('std', '')] + ([('bits', 'bits'), ('-', ''), ('alloc,bits', 'bits')] if T else [])
CHUNK = 500
def die(msg): print('C24: ' + msg); sys.exit(2)

def artifacts(feat):
    r = subprocess.run(['cargo', 'check', '--offline', '--message-format=json', '--features', feat.strip('-')], cwd=f'{D}/mc24', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env={**os.environ, 'CARGO_TARGET_DIR': f'{D}/mc24/target/{feat.replace(",", "_")}'})
    if r.returncode: print(r.stderr[-3000:]); die(f'build failed with features [{feat}]')
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'deku': return [f for f in m['filenames'] if f.endswith('.rmeta')][0]
    die('no artifact')

def rustc(path, rmeta, full):
    """line -> first error there; None if the compiler did not get through the file"""
    cmd = ['rustc', '--crate-name', 'decls', '--edition=2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '-A', 'warnings', '-o', path[:-3] + '.rmeta', '-L', 'dependency=' + os.path.dirname(rmeta), '--extern', 'deku=' + rmeta, path]
    r = subprocess.run(cmd + ([] if full else ['-Zno-analysis']), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env={**os.environ, 'RUSTC_BOOTSTRAP': '1'})
    if r.returncode not in (0, 1): return None
    flag = {}
    for l in r.stderr.splitlines():
        if not l.startswith('{'): continue
        m = json.loads(l)
        if not m['level'].startswith('error'): continue
        if 'internal compiler error' in m['level']: return None
        for s in m['spans']:
            if s['is_primary'] and s['file_name'] == path: flag.setdefault(s['line_start'], []).append((m['code'] and m['code']['code'], m['message']))
    if r.returncode and not flag: print(r.stderr[-1000:]); return None
    return flag

def run(feat, bits):
    out = f'{D}/mc24/out/{feat.replace(",", "_")}'
    subprocess.run(['rm', '-rf', out]); os.makedirs(out)
    a = [sys.executable, 'gen/refuse.py', out] + ([bits] if bits else []) + (['thorough'] if T else [])
    if subprocess.run(a, cwd=D).returncode: die('generation failed')
    rmeta = artifacts(feat)
    head, *decls = open(f'{out}/src/lib.rs').read().rstrip('\n').split('\n')
    exp = [v for _, v in sorted(((int(k), v) for k, v in json.load(open(f'{out}/expect.json')).items()))]
    assert len(exp) == len(decls)
    def chunk(ix, name, full):
        p = f'{out}/{name}.rs'
        open(p, 'w').write('\n'.join([head] + [decls[i] for i in ix]) + '\n')
        f = rustc(p, rmeta, full)
        if f is None and len(ix) > 1: # a compiler that gave up on the whole file: halves
            h = len(ix) // 2
            return {**chunk(ix[:h], name + 'l', full), **chunk(ix[h:], name + 'r', full)}
        if f is None: return {ix[0]: None}
        os.remove(p)
        return {i: f.get(k + 2, []) for k, i in enumerate(ix)}
    with ThreadPoolExecutor(8) as ex:
        got = {}
        for g in ex.map(lambda s: chunk(list(range(s, min(s + CHUNK, len(decls)))), f'x{s}', False), range(0, len(decls), CHUNK)): got.update(g)
        surv = [i for i in got if exp[i][0] is True and not got[i]][:512]
        again = {}
        for g in ex.map(lambda s: chunk(surv[s:s + 32], f'y{s}', True), range(0, len(surv), 32)): again.update(g)
    if any(v is None for v in got.values()) or any(v is None for v in again.values()): die('the compiler gave no answer')
    bad = []
    for i, (w, body) in enumerate(exp):
        if w is True and not got[i] and not again.get(i): bad.append(('contradictory declaration accepted', body, ''))
        if w is False and any(c is None for c, _ in got[i]): bad.append(('legitimate declaration refused', body, [m for c, m in got[i] if c is None][0]))
    n = collections.Counter(str(w) for w, _ in exp)
    msgs = {m for v in got.values() for c, m in v if c is None}
    return exp, bad, n, msgs, len(surv)

known = {}
for l in open(f'{D}/known_findings.txt'):
    m = re.match(r'finding: property=C24 key=(.*?) \| (.*)', l)
    if m: known[m.group(1)] = m.group(2)
ev = {'evaluations': 0, 'distinct_nontrivial': 0, 'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0}
decl, pairs, ref, msgs, bad, second = set(), set(), set(), set(), [], 0
samples = []
for feat, bits in SETS:
    exp, b, n, ms, s = run(feat, bits)
    ev['evaluations'] += len(exp); ev['traces_validated_against_impl'] += n['True'] + n['False']; second += s
    for w, body in exp:
        d, _, rest = body.partition(')] ')
        pairs.add(body); decl.add(rest)
        if w: ref.add(rest)
    msgs |= ms
    bad += [(feat,) + x for x in b]
    samples += [f'[{feat}] {"refused" if w else "allowed" if w is False else "open"}: {body}' for w, body in exp[:: len(exp) // 3]]
ev.update(states=len(decl), transitions=len(pairs), distinct_nontrivial=len(ref), samples=samples[:12],
          rule='states: distinct declarations (attribute combinations in a place of a struct, variant, id store or the top level); transitions: pairs of a declaration and a set of derives; evaluations: expansions, over all feature sets; distinct_nontrivial: declarations that must be refused',
          feature_sets=[f for f, _ in SETS], distinct_error_messages=len(msgs), compiled_in_full=second)
os.makedirs(f'{D}/evidence', exist_ok=True)
json.dump({'property': 'C24', 'tier': 'thorough' if T else 'quick', 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'model_checking', 'coverage': ev, 'wall_s': round(time.time() - t0, 2)}, open(f'{D}/evidence/C24.json', 'w'), indent=1)
new, hit = [], set()
for x in bad:
    k = f'{x[0]}:{x[2]}'
    if k in known: hit.add(k)
    else: new.append(x)
for k in sorted(hit): print(f'KNOWN-FINDING: property=C24 {k} {known[k]}')
if new:
    for f, why, body, m in new[:12]: print(f'  [{f}] {why}: {body} {m}')
    os.makedirs(f'{D}/replay', exist_ok=True)
    p = f'{D}/replay/C24.json'
    json.dump({'property': 'C24', 'failures': [{'features': f, 'failure': why, 'declaration': body, 'message': m} for f, why, body, m in new[:500]], 'count': len(new),
               'replay': 'put the declaration in a crate that depends on deku with these features and compile it'}, open(p, 'w'), indent=1)
    print(f'VIOLATION property=C24 replay={p}'); sys.exit(1)
print(f'C24: {len(decl)} declarations, {ev["evaluations"]} expansions, {len(ref)} of them refused, 0 violations')
