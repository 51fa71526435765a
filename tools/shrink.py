#!/usr/bin/env python3
"""Shrink a nonconforming trace: shrink.py HARNESS DOMAIN MODULE TRACE LINE OUT
Drops operations and simplifies expressions while the specification still rejects the trace."""
import json, os, subprocess, sys, tempfile
h, domain, module, trace, line, out = sys.argv[1:7]
spec = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
ls = [json.loads(x) for x in open(trace)][:int(line)]
i = len(ls) - 1
while ls[i]['op'] != 'init':
    i -= 1
ls = ls[i:]
tmp = tempfile.mkdtemp()

def run(evs):
    a, b = tmp + '/a', tmp + '/b'
    open(a, 'w').write(''.join(json.dumps(e) + '\n' for e in evs))
    if subprocess.run([h, 'rerun', domain, a, b], capture_output=True).returncode:
        return None
    n = sum(1 for _ in open(b))
    p = subprocess.run(['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xmx2g', '-cp',
                        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC', '-workers', '1',
                        '-metadir', tmp + '/m', '-noGenerateSpecTE', '-config', module + '.cfg', module + '.tla'],
                       cwd=spec, env=dict(os.environ, TRACE=b), capture_output=True, text=True)
    if 'NONCONFORM' in p.stdout:
        return [json.loads(x) for x in open(b)]
    return None

cur = run(ls)
assert cur, 'conforms'
step = max(1, len(cur) // 2)
while step:
    k = 1
    while k < len(cur):
        c = cur[:k] + cur[k + step:]
        if len(c) < len(cur) and len(c) > 1 and c[-1]['op'] != 'init':
            r = run(c)
            if r:
                cur = r
                continue
        k += step
    step //= 2

CONDS = {'and', 'or', 'not', 'tern'}
def variants(n):
    if isinstance(n, list) and n and isinstance(n[0], str) and n[0] in CONDS:
        yield ['const', 'T']
        yield ['const', 'F']
        for c in n[1:]:
            yield c
        for j in range(1, len(n)):
            for v in variants(n[j]):
                yield n[:j] + [v] + n[j + 1:]
    elif isinstance(n, list) and n and n[0] != 'const':
        yield ['const', 'T']
        yield ['const', 'F']
changed = True
while changed:
    changed = False
    last = cur[-1]
    m = last.get('q', {}).get('m', {})
    if 'ast' in m:
        for st in ([1] if m.get('st') != 1 else []):
            c = json.loads(json.dumps(cur)); c[-1]['q']['m']['st'] = st
            r = run(c)
            if r: cur = r; m = cur[-1]['q']['m']
        for v in variants(m['ast']):
            c = json.loads(json.dumps(cur)); c[-1]['q']['m']['ast'] = v
            r = run(c)
            if r:
                cur = r; changed = True
                break
open(out, 'w').write(''.join(json.dumps(e) + '\n' for e in cur))
print(len(cur), 'events')
for e in cur[1:]: print(json.dumps(e))
