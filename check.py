#!/usr/bin/env python3
"""Runs the deductive check of one property on /repo's current sources.

usage: check.py PROPERTY [--tier quick|thorough] [--lemma SUBSTRING] [-v] [--keep]
"""
import sys, os, json, time, glob, subprocess, tempfile, shutil, fcntl, traceback, re, hashlib, resource, signal, pickle

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(HERE, 'build'))
FLAGS = ['-std=c++17', '-I' + os.path.join(REPO, 'src/DRAMPower'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'stub'), '-I' + os.path.join(HERE, 'specs')]


def tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'frontend/cxxdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'cxxdump-' + h)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            subprocess.run(['bash', os.path.join(HERE, 'frontend/build.sh'), out], check=True, stdout=sys.stderr)
    return out


def extract(spec, work):
    out = os.path.join(work, os.path.basename(spec) + '.json')
    p = subprocess.run([tool(), out, spec, '--', '-fno-access-control', '-DVP_GEN="vp_empty.inc"'] + FLAGS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout[-3000:]
    return json.load(open(out)), p.stdout


G = {}
MEM = 5 << 30        # address space of one worker, helper or solver


class OutOfTime(Exception):
    pass


class limit:
    """wall-clock limit on a piece of engine work (nested limits: the innermost one counts)"""
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        def hit(*a):
            raise OutOfTime()
        self.old = signal.signal(signal.SIGALRM, hit)
        self.t0 = time.time()
        self.left = signal.setitimer(signal.ITIMER_REAL, max(0.01, self.secs))[0]

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.left:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, self.left - (time.time() - self.t0)))
        return False


def input_terms(E, lens, inputs):
    """(native name, term) for every scalar input; lens: term id -> chosen length"""
    from terms import T, u64, subst, is_const
    import values as V
    out, unk = [], []

    def native(name, args):
        parts = name.split('[]')
        if len(parts) == 1:
            return name
        r = parts[0]
        for i, p in enumerate(parts[1:]):
            a = args[i] if i < len(args) else None
            r += '[%s]' % (a.val if a is not None and is_const(a) else '?') + p
        return r

    def leaf(t):
        if t.op == 'var':
            out.append((str(t.val), t))
        elif t.op == 'app':
            out.append((native(t.val, t.args), t))

    def go(v):
        if isinstance(v, T):
            leaf(v)
        elif isinstance(v, V.Rec):
            for k in v.f:
                go(v.f[k])
        elif isinstance(v, V.VecL):
            for x in v.e:
                go(x)
        elif isinstance(v, V.VecS):
            leaf(v.n)
            n = lens.get(v.n.id)
            if is_const(v.n):
                n = v.n.val
            if n is None:
                unk.append(v.n)
                return
            for i in range(min(n, 64)):
                go(V.vsubst(v.body, {v.x.id: u64(i)}))
        elif isinstance(v, V.Opt):
            leaf(v.has)
            if v.v is not None:
                go(v.v)
        elif isinstance(v, V.Bits):
            for x in v.b:
                go(x)
        elif isinstance(v, V.Str):
            leaf(v.t)
        elif isinstance(v, V.Variant):
            leaf(v.i)
            for x in v.alts.values():
                go(x)
    for name, ti, v in inputs:
        go(v)
    return out, unk


def counterexample(S, E, o, facts, tlimit):
    """concrete inputs (native name -> text) for a failed obligation"""
    from terms import u64, eq, le, and_
    from fractions import Fraction
    lens = {}
    extra = []
    for bound in (4, 12, None):
        lens, extra, ok = {}, [], True
        for lvl in range(4):
            terms, unk = input_terms(E, lens, o.inputs)
            if not unk:
                break
            ex = list(extra)
            if bound is not None:
                ex += [le(u, u64(bound)) for u in unk]
            m = S.model(o.pc, o.goal, facts, unk, timeout=tlimit, extra=ex)
            if m is None:
                ok = False
                break
            for u in unk:
                v = m.get(u.id, 0)
                if v > 64:
                    v = 64
                lens[u.id] = v
                extra.append(eq(u, u64(v)))
        if not ok:
            continue
        terms, unk = input_terms(E, lens, o.inputs)
        m = S.model(o.pc, o.goal, facts, [t for _, t in terms], timeout=tlimit, extra=extra)
        if m is None:
            continue
        res = {}
        for name, t in terms:
            v = m.get(t.id)
            if v is None:
                continue
            if isinstance(v, bool):
                res[name] = '1' if v else '0'
            elif isinstance(v, Fraction):
                res[name] = '%.17g' % float(v)
            else:
                res[name] = str(v)
        return res
    return None


def goaltext(g):
    try:
        with limit(2.0):
            return repr(g)[:600]
    except Exception:
        return '(large)'


def discharge(S, E, f, obls, t0, tlimit):
    import solve
    r = dict(discharged=0, by={}, failed=[], solver_s=0.0, samples=[])
    budget = G.get('budget', 240.0)
    for no, o in enumerate(obls):
        if time.time() - t0 > budget:
            res = solve.Result('unknown', None, 0, exact=False)
        else:
            try:
                with limit(G.get('perobl', 60.0)):
                    res = S.prove(o.pc, o.goal, E.facts)
            except (RecursionError, OutOfTime, MemoryError) as ex:
                res = solve.Result('unknown', type(ex).__name__, 0, exact=False)
        r['solver_s'] += res.time
        if res.status == 'proved':
            r['discharged'] += 1
            r['by'][res.by] = r['by'].get(res.by, 0) + 1
            if len(r['samples']) < 3 and o.kind == 'ensures':
                r['samples'].append('%s: %s [%s]' % (f['n'], o.name, res.by))
        else:
            fl = dict(no=no, name=o.name, kind=o.kind, fn=o.fn, loc=o.loc, status=res.status, exact=res.exact, by=res.by, goal=goaltext(o.goal))
            if len(r['failed']) < 4 and time.time() - t0 < budget:
                try:
                    with limit(40.0):
                        fl['cex'] = counterexample(S, E, o, E.facts, min(6.0, tlimit))
                except Exception as ex:
                    fl['cexerr'] = '%s: %s' % (type(ex).__name__, ex)
                try:
                    with limit(10.0):
                        fl['smt'] = solve.build(*(solve.normal(o.pc, o.goal)), E.facts, 'int')[0]
                except Exception:
                    fl['smt'] = None
            r['failed'].append(fl)
    return r


def run_lemma(job):
    """worker: one lemma of one spec"""
    si, fid, tier, tlimit = job
    import solve
    from engine import Engine
    from values import Unsupported
    dump, work = G['dumps'][si], G['work']
    f = dump['functions'][fid]
    t0 = time.time()
    r = dict(si=si, lemma=f['qn'], fid=fid, obligations=0, discharged=0, by={}, failed=[], unsupported=None, executed=[], std=[], vac=None, solver_s=0.0, notes=[], samples=[], contracts=[])
    try:
        E = Engine(dump)
        E.contracts = dict(G['contracts'][si])
        E.solver = solve.Solver(work, timeout=1.0)
        with limit(G.get('exec', 200.0)):
            E.lemma(fid)
    except (OutOfTime, MemoryError) as ex:
        r['unsupported'] = 'resource limit while generating obligations (%s)' % type(ex).__name__
        r['wall'] = time.time() - t0
        return r
    except Unsupported as ex:
        r['unsupported'] = str(ex)
        r['wall'] = time.time() - t0
        return r
    except RecursionError as ex:
        r['unsupported'] = 'recursion limit'
        r['wall'] = time.time() - t0
        return r
    except Exception as ex:
        r['unsupported'] = 'engine: %s: %s' % (type(ex).__name__, ex)
        r['trace'] = traceback.format_exc()
        r['wall'] = time.time() - t0
        return r
    r['executed'] = sorted(set(dump['functions'][x]['qn'] for x in E.executed if not dump['functions'][x].get('std') and not dump['functions'][x]['qn'].startswith('vp_')))
    r['std'] = sorted(E.stdused)
    r['contracts'] = sorted(dump['functions'][x]['qn'] for x in E.contract_used)
    r['notes'] = list(E.notes)
    r['exec_s'] = time.time() - t0
    S = solve.Solver(work, timeout=tlimit)
    seen = set()
    todo = []
    for o in E.obls:
        key = (o.name, o.loc, o.goal.id, tuple(sorted(p.id for p in o.pc)))
        if key not in seen:
            seen.add(key)
            todo.append(o)
    r['obligations'] = len(todo)
    nens = sum(1 for o in todo if o.kind == 'ensures')
    K = G.get('width', 1) if len(todo) > 24 else 1
    chunks = [todo[i::K] for i in range(K)]
    kids = []
    for c in range(1, K):
        path = os.path.join(work, 'chunk-%d-%s-%d' % (os.getpid(), f['n'], c))
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                res = discharge(S, E, f, chunks[c], t0, tlimit)
                with open(path, 'wb') as h:
                    pickle.dump(res, h)
                code = 0
            finally:
                os._exit(code)
        kids.append((pid, path, c))
    parts = [discharge(S, E, f, chunks[0], t0, tlimit)]
    for pid, path, c in kids:
        os.waitpid(pid, 0)
        try:
            with open(path, 'rb') as h:
                parts.append(pickle.load(h))
        except Exception:
            # the helper was lost: decide its share here
            parts.append(discharge(S, E, f, chunks[c], t0, tlimit) if time.time() - t0 < G['budget'] else
                         dict(discharged=0, by={}, solver_s=0.0, samples=[], failed=[dict(no=i, name=o.name, kind=o.kind, fn=o.fn, loc=o.loc, status='unknown', exact=False, by='helper lost', goal='') for i, o in enumerate(chunks[c])]))
    for p in parts:
        r['discharged'] += p['discharged']
        r['solver_s'] += p['solver_s']
        for k, v in p['by'].items():
            r['by'][k] = r['by'].get(k, 0) + v
        r['failed'].extend(p['failed'])
        r['samples'].extend(p['samples'])
    r['samples'] = r['samples'][:3]
    r['failed'].sort(key=lambda x: x['no'])
    r['ensures'] = nens
    # non-vacuity
    vac = []
    for c in E.covers:
        try:
            with limit(30.0):
                s = S.sat(c, E.facts, timeout=min(5.0, tlimit))
        except (RecursionError, OutOfTime, MemoryError):
            s = 'unknown'
        vac.append(s)
        if s == 'sat':
            break
    r['covers'] = len(E.covers)
    if not E.covers:
        r['vac'] = 'the end of the lemma is never reached'
    elif vac and all(v == 'unsat' for v in vac):
        r['vac'] = 'hypotheses are contradictory'
    elif vac and 'sat' not in vac:
        r['vacunk'] = True
    r['wall'] = time.time() - t0
    return r


def lost(job, why):
    si, fid = job[:2]
    f = G['dumps'][si]['functions'][fid]
    return dict(si=si, lemma=f['qn'], fid=fid, obligations=0, discharged=0, by={}, failed=[], unsupported=why, executed=[], std=[], vac=None, solver_s=0.0, notes=[], samples=[], contracts=[], wall=0.0)


def workers(jobs, n, perjob, total):
    """results of run_lemma over jobs, each in its own process group with memory and wall-clock limits"""
    todo, live = list(jobs), {}
    t0 = time.time()
    try:
        while todo or live:
            while todo and len(live) < n:
                job = todo.pop(0)
                path = os.path.join(G['work'], 'job-%d-%s' % (job[0], hashlib.sha1(str(job[1]).encode()).hexdigest()[:16]))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                        r = run_lemma(job)
                        with open(path + '.tmp', 'wb') as h:
                            pickle.dump(r, h)
                        os.rename(path + '.tmp', path)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(0)
                live[pid] = (job, path, time.time())
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (job, path, t) in live.items():
                    if now - t > perjob or now - t0 > total:
                        for k in (os.killpg, os.kill):
                            try:
                                k(p, signal.SIGKILL)
                            except OSError:
                                pass
                if now - t0 > total:
                    for job in todo:
                        yield lost(job, 'time limit of the whole check')
                    todo = []
                time.sleep(0.01)
                continue
            if pid not in live:
                continue
            job, path, t = live.pop(pid)
            try:
                with open(path, 'rb') as h:
                    yield pickle.load(h)
            except Exception:
                yield lost(job, 'resource limit (worker ended after %.0f s)' % (time.time() - t))
    finally:
        for p in live:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass


def find_contracts(dump):
    """vp_contract_x(...) { vp::stands_for(&F) ... }: contract used in place of F's body at call sites"""
    return dump.get('vp_contracts') or {}


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    keep = False
    prop = None
    i = 0
    while i < len(args):
        a = args[i]
        if a == '--tier':
            i += 1
            tier = args[i]
        elif a == '--lemma':
            i += 1
            only = args[i]
        elif a == '-v':
            verbose = True
        elif a == '--keep':
            keep = True
        else:
            prop = a
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    try:
        rc = check(prop, tier, only, verbose, seed, work, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work', work)
    sys.exit(rc)


def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']


def check(prop, tier, only, verbose, seed, work, t0):
    import native
    specs = sorted(glob.glob(os.path.join(HERE, 'specs', prop + '.cpp')) + glob.glob(os.path.join(HERE, 'specs', prop + '_*.cpp')))
    if not specs:
        print('no specification for', prop)
        return 2
    tlimit = 8.0 if tier == 'quick' else 40.0
    G['dumps'], G['work'], G['contracts'] = [], work, []
    G['budget'] = 150.0 if tier == 'quick' else 1200.0
    G['perobl'] = 45.0 if tier == 'quick' else 240.0
    G['exec'] = 150.0 if tier == 'quick' else 900.0
    jobs = []
    broken = []
    for si, spec in enumerate(specs):
        d, msg = extract(spec, work)
        if d is None:
            broken.append((spec, msg))
            G['dumps'].append(None)
            G['contracts'].append({})
            continue
        G['dumps'].append(d)
        G['contracts'].append(find_contracts(d))
        for fid in d['roots']:
            n = d['functions'][fid]['n']
            if n.startswith('vp_lemma_') and (only is None or only in n):
                jobs.append((si, fid, tier, tlimit))
    results = []
    G['width'] = max(1, min(6, 8 // max(1, min(8, len(jobs)))) if len(jobs) < 6 else 3)
    if jobs:
        for r in workers(jobs, min(6, len(jobs)), *((320.0, 560.0) if tier == 'quick' else (1800.0, 7200.0))):
            results.append(r)
            if verbose:
                print('%-52s obl %4d ok %4d  %5.1fs exec %.1fs %s%s' % (r['lemma'], r['obligations'], r['discharged'], r['wall'], r.get('exec_s', 0), r['unsupported'] or '', r['vac'] or ''), flush=True)
                for fl in r['failed']:
                    print('    FAILED %s [%s] %s in %s line %s by %s exact=%s' % (fl['name'], fl['kind'], fl['status'], fl['fn'], fl['loc'], fl['by'], fl['exact']))
                    print('       goal', fl['goal'][:300])
                    if fl.get('cexerr'):
                        print('       cexerr', fl['cexerr'])
                if r.get('trace') and verbose:
                    print(r['trace'])
    # obligations left open (not refuted) get a second, unhurried attempt, one lemma after the other
    again = [i for i, r in enumerate(results) if not r['unsupported'] and r['failed'] and all(fl['status'] == 'unknown' for fl in r['failed'])]
    room = (420.0 if tier == 'quick' else 3600.0)
    if again:
        G['budget'] *= 2
        G['perobl'] *= 2
        G['width'] = 4
    for n, i in enumerate(again[:8]):
        left = room - (time.time() - t0)
        if left < 20:
            break
        old = results[i]
        new = list(workers([(old['si'], old['fid'], tier, tlimit * 3)], 1, left, left))
        if verbose:
            print('again %-46s obl %4d ok %4d  %5.1fs' % (old['lemma'], new[0]['obligations'], new[0]['discharged'], new[0]['wall']), flush=True)
        if new and not new[0]['unsupported'] and (len(new[0]['failed']) <= len(old['failed']) or any(fl['status'] != 'unknown' for fl in new[0]['failed'])):
            results[i] = new[0]
    results.sort(key=lambda r: (r['si'], r['lemma']))
    # ---- lemmas not fully discharged: concrete inputs on the real code
    violations, bounded, findings, undecided = [], [], [], []
    kf = known(prop)
    bins = {}

    def binary(si):
        if si not in bins:
            d = G['dumps'][si]
            out = os.path.join(work, 'native%d' % si)
            lem = [d['functions'][x]['qn'] for x in d['roots'] if d['functions'][x]['n'].startswith('vp_lemma_')]
            ok, msg = native.build(d, specs[si], lem, out, FLAGS[1:])
            bins[si] = (out if ok else None, msg)
        return bins[si]
    rdir = os.path.join(HERE, 'replay')
    runs_total = 0
    secs = 6.0 if tier == 'quick' else 60.0
    pendingv = []
    for r in results:
        bad = [fl for fl in r['failed']]
        if not bad and not r['unsupported'] and not r['vac']:
            continue
        lname = r['lemma'].split('::')[-1]
        b, msg = binary(r['si'])
        if b is None and verbose:
            print('native build failed', msg)
        confirmed = None
        if b is not None:
            for fl in bad:
                if fl.get('cex') is not None:
                    p = os.path.join(work, 'cex')
                    with open(p, 'w') as f:
                        for k, v in fl['cex'].items():
                            f.write('%s=%s\n' % (k, v))
                    st, o = native.replay(b, lname, p)
                    fl['replay'] = st
                    if verbose:
                        print('   replay', fl['name'], st, o[:200].replace('\n', ' '))
                    if st == 'fail':
                        confirmed = (fl, o)
                        break
            if confirmed is None:
                st, o = native.search(b, lname, secs, seed)
                m = re.search(r'runs=(\d+) skipped=(\d+)', o)
                r['native_runs'] = int(m.group(1)) - int(m.group(2)) if m else 0
                if verbose:
                    print('   search', lname, st, o[:200].replace('\n', ' '))
                if st == 'fail':
                    fl = bad[0] if bad else dict(name=o.split('\n')[0][5:], kind='bounded', status='tested', fn='', loc='', goal='')
                    confirmed = (fl, o)
        real_bad = [fl for fl in bad if fl['kind'] != 'internal']
        spent = [fl for fl in bad if fl['by'] in ('RecursionError', 'OutOfTime', 'MemoryError', 'helper lost')]
        if confirmed:
            pendingv.append((r, confirmed[0], confirmed[1], True))
        elif r['vac']:
            undecided.append((r, r['vac']))
        elif r['unsupported'] or (bad and not real_bad) or (bad and any(fl['kind'] == 'internal' for fl in bad)):
            why = r['unsupported'] or 'loop summary not established (%s)' % bad[0]['name']
            bounded.append((r, why))
        elif len(spent) == len(bad):
            bounded.append((r, 'resource limit on %d obligations (%s)' % (len(bad), bad[0]['name'])))
        else:
            pendingv.append((r, real_bad[0], None, False))
    rc = 0
    os.makedirs(rdir, exist_ok=True)
    for r, fl, out, conf in pendingv:
        lname = r['lemma'].split('::')[-1]
        k = [x for x in kf if x['lemma'] == lname and (x.get('obligation') in (None, fl['name']))]
        if k:
            findings.append((r, k[0]))
            continue
        path = os.path.join(rdir, '%s-%s.txt' % (prop, lname))
        with open(path, 'w') as f:
            f.write('# property %s, lemma %s (%s)\n# failed obligation: %s [%s] in %s, line %s\n# status: %s by %s\n' % (prop, lname, specs[r['si']], fl['name'], fl['kind'], fl['fn'], fl['loc'], fl['status'], fl.get('by')))
            f.write('# goal: %s\n' % fl['goal'].replace('\n', ' '))
            if conf:
                f.write('# failing input on the real code (replay: %s %s replay THIS_FILE after building the lemma natively, see DESIGN.md)\n# observed: %s\n' % ('lemma-binary', lname, out.split('\n')[0]))
                f.write('\n'.join(out.split('\n')[1:]) + '\n')
            else:
                f.write('# no failing input found\n')
                if fl.get('cex'):
                    f.write('# solver model (not confirmed on the real code):\n' + ''.join('# %s=%s\n' % x for x in fl['cex'].items()))
                f.write('# verifier query:\n' + '\n'.join('; ' + l for l in (fl.get('smt') or '')[:20000].split('\n')) + '\n')
        violations.append((r, fl, path, conf))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'), flush=True)
        rc = 1
    for r, k in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for spec, msg in broken:
        print('specification %s does not compile against the current tree:\n%s' % (spec, msg[-1500:]))
        undecided.append((dict(lemma=os.path.basename(spec), obligations=0), 'does not compile'))
    for r, why in bounded:
        print('BOUNDED: %s: %s (random native runs: %s)' % (r['lemma'], why, r.get('native_runs', 0)))
    for r, why in undecided:
        print('UNDECIDED: %s: %s' % (r['lemma'], why))
    evidence(prop, tier, seed, results, bounded, undecided, violations, findings, specs, time.time() - t0)
    if rc == 0 and any(r for r, w in undecided):
        rc = 3 if not results else (2 if any(w != 'does not compile' for r, w in undecided) else 0)
        if rc:
            print('check could not decide the property')
    if verbose or rc == 0:
        print('%s: %d lemmas, %d obligations, %d discharged, %d bounded, %.1fs' % (prop, len(results), sum(r['obligations'] for r in results), sum(r['discharged'] for r in results), len(bounded), time.time() - t0))
    return rc


def evidence(prop, tier, seed, results, bounded, undecided, violations, findings, specs, wall):
    by = {}
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    fns = sorted(set(x for r in results for x in r['executed']))
    std = sorted(set(x for r in results for x in r['std']))
    contracts = sorted(set(x for r in results for x in r['contracts']))
    bset = set(r['lemma'] for r, _ in bounded)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(
                  obligations=sum(r['obligations'] for r in results if 'vp_lemma_bounded_' not in r['lemma']),
                  discharged=sum(r['discharged'] for r in results if 'vp_lemma_bounded_' not in r['lemma']),
                  bounded_obligations_not_counted_as_proved=sum(r['discharged'] for r in results if 'vp_lemma_bounded_' in r['lemma']),
                  checker_cmd='python3 check.py %s --tier %s' % (prop, tier),
                  trusted_base=['clang 18 parser and semantic analysis (extraction of the typed AST)', 'the engine in /verif/engine (VC generation and normaliser)', 'z3 and cvc5',
                                'assumed contracts on the C++ standard library: ' + ', '.join(std[:60])],
                  lemmas=[dict(lemma=r['lemma'], obligations=r['obligations'], discharged=r['discharged'], bounded=('fixed sizes, all contents' if 'vp_lemma_bounded_' in r['lemma'] else 'random native runs' if r['lemma'] in bset else False), by=r['by'],
                               solver_s=round(r['solver_s'], 2), loops=r['notes']) for r in results],
                  functions_under_contract=fns,
                  contracts_used_at_call_sites=contracts,
                  back_ends=by,
                  solver_seconds=round(sum(r['solver_s'] for r in results), 2),
                  bounded_stand_ins=[dict(lemma=r['lemma'], why=w, native_runs=r.get('native_runs', 0)) for r, w in bounded],
                  undecided=[dict(lemma=r['lemma'], why=w) for r, w in undecided],
                  known_findings=[k['what'] for r, k in findings],
                  samples=[s for r in results for s in r['samples']][:12]),
              assumptions=['floating point arithmetic treated as exact real arithmetic', 'sequences have fewer than 2^40 elements',
                           'loops are proved partially correct (termination assumed where no trip count is derived)', 'no aliasing between distinct lemma inputs',
                           'the assumed standard-library contracts listed in trusted_base (a loop over a map visits its keys in ascending order)'],
              wall_s=round(wall, 2), violations=len(violations))
    edir = os.environ.get('VP_EVID', os.path.join(HERE, 'evidence'))
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
