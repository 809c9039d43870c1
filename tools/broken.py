#!/usr/bin/env python3
"""broken.py <ID> <generated file> <build log>: the generated programs are within the documented attribute language and compile on
the unchanged tree; when the derive macros (or trait bounds) reject one of them, every input of that program violates the property.
Prints the violation and exits 1 when that is what the log shows; exits 2 for any other build failure."""
import json, os, re, sys
pid, gen, log = sys.argv[1:]
text = open(log, errors='replace').read()
base = os.path.basename(gen)
if re.search(r'no space left|signal: |memory allocation|linking with|failed to (write|create|read|run)|could not compile `(?!deku_mc)', text, re.I): sys.exit(2)
at = []   # (message, line)
for m in re.finditer(r'^error(?:\[E\d+\])?: (.+)\n(?: *\|?.*\n)*? *--> (\S+?):(\d+):', text, re.M):
    if not m.group(2).endswith('gen/' + base): sys.exit(2)
    at.append((m.group(1), int(m.group(3))))
if not at: sys.exit(2)
src = open(gen).read().split('\n')
msg, line = at[0]
item = '\n'.join(src[max(0, line - 12):line + 12])
d = os.environ.get('VERIF_DIR', '.')
os.makedirs(d + '/replay', exist_ok=True)
path = f'{d}/replay/{pid}.json'
json.dump({'property': pid, 'failure': 'a program that compiled before is rejected', 'errors': len(at), 'message': msg, 'file': gen, 'line': line, 'source': item}, open(path, 'w'), indent=1)
print(f'  [build] x{len(at)}: {msg} at {base}:{line}: {src[line - 1].strip()[:200]}')
print(f'VIOLATION property={pid} replay={path}')
sys.exit(1)
