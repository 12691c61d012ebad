#!/usr/bin/env python3
"""native.py SECS [PROP...]: random native runs of every lemma on the current tree; prints lemmas that fail or (nearly) always skip."""
import sys, os, glob, re, tempfile, shutil
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/engine')
import check, native
from concurrent.futures import ThreadPoolExecutor
secs = float(sys.argv[1])
def one(spec):
    w = tempfile.mkdtemp(prefix='nat-')
    out = []
    try:
        d, msg = check.extract(spec, w)
        if d is None: return [(spec, 'EXTRACT', msg)]
        lem = [d['functions'][x]['qn'] for x in d['roots'] if d['functions'][x]['n'].startswith('vp_lemma_')]
        ok, msg = native.build(d, spec, lem, w + '/n', check.FLAGS[1:])
        if not ok: return [(spec, 'BUILD', msg)]
        for l in lem:
            st, o = native.search(w + '/n', l.split('::')[-1], secs, 1)
            m = re.search(r'runs=(\d+) skipped=(\d+)', o)
            r, s = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
            if st != 'none' or r - s < 200: out.append((os.path.basename(spec), l, st, 'effective %d of %d' % (r - s, r), o[:300] if st != 'none' else ''))
        return out
    finally: shutil.rmtree(w)
specs = sorted(s for p in (sys.argv[2:] or ['C*']) for s in glob.glob('/verif/specs/%s.cpp' % p) + glob.glob('/verif/specs/%s_*.cpp' % p))
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for r in ex.map(one, sorted(set(specs))):
        for x in r: print(*x, flush=True)
