#!/usr/bin/env python3
"""seed.py ID PROPERTY 'needs' 'breaks' FILE <<< old\n===\nnew   (edits in scratch copy), demo.cpp at /tmp/demo.cpp, srcs from argv[6:]"""
import sys, os, subprocess, shutil, json
ID, prop, needs, breaks, file = sys.argv[1:6]
srcs = sys.argv[6:]
old, new = sys.stdin.read().split('\n===\n')
new = new.rstrip('\n'); old = old.rstrip('\n')
wt = '/tmp/wt-' + ID
subprocess.run(['rm', '-rf', wt]); subprocess.run(['cp', '-a', '/repo', wt], check=True)
p = os.path.join(wt, file)
s = open(p).read()
assert s.count(old) == 1, ('occurrences', s.count(old))
open(p, 'w').write(s.replace(old, new))
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
if os.path.exists('/tmp/demo.cpp'): shutil.move('/tmp/demo.cpp', d + '/demo.cpp')
if os.path.isdir('/tmp/demostub'): shutil.copytree('/tmp/demostub', d + '/stub', dirs_exist_ok=True)
inc = '-I"$here/stub" ' if os.path.isdir(d + '/stub') else ''
open(d + '/demo.sh', 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
g++ -std=c++17 -w -O0 -Isrc/DRAMPower -Isrc %s"$here/demo.cpp" %s -o "$out/demo" || exit 2
timeout 60 "$out/demo"
''' % (inc, ' '.join(srcs)))
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, capture_output=True, text=True)
print(ID, 'demo unchanged', r0.returncode, r0.stdout[-300:], r0.stderr[-600:], '| patched', r1.returncode, r1.stdout[-300:], r1.stderr[-600:])
# build and stable tests with the patch applied to /repo
subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
try:
    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
    t = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/out.json'], capture_output=True, text=True)
    base = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/out.json'))
    print(' build', b.returncode, 'tests', t.returncode, {k: (len(v) if isinstance(v, list) else v) for k, v in o.items()})
    if '--check' in os.environ.get('SEEDOPT', '--check'):
        c = subprocess.run(['python3', 'check.py', prop], cwd='/verif', capture_output=True, text=True)
        print(' check rc', c.returncode, c.stdout[-500:], c.stderr[-300:])
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    subprocess.run(['rm', '-rf', wt])
