"""Native side: generates fill/compare code for the record types a specification uses (from the extracted AST), compiles the
specification against the real code, replays counterexamples and searches for failing inputs."""
import resource
import os, subprocess, json, hashlib

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cpp_name(dump, ti):
    t = dump['types'][ti]
    return t.get('n') or t.get('id')


def gen_records(dump):
    """Gen<> specialisations, dependencies first, for every record type reachable from vp::any / havoc / same"""
    types, recs, fns = dump['types'], dump['records'], dump['functions']
    roots = []
    for f in fns.values():
        if f['qn'] in ('vp::any', 'vp::havoc', 'vp::same') and f.get('targs'):
            for a in f['targs']:
                if 't' in a:
                    roots.append(a['t'])
    out, enums, done = [], [], set()

    def strip(ti):
        t = types[ti]
        while t['k'] in ('ref', 'rref', 'const'):
            ti = t['t']
            t = types[ti]
        return ti

    def visit(ti):
        t = types[ti]
        k = t['k']
        if k == 'enum':
            nm = t.get('n')
            if nm and ('e', nm) not in done and t.get('vals'):
                done.add(('e', nm))
                vs = [v[1] for v in t['vals']]
                enums.append('template <> struct EnumVals<%s> { static constexpr bool known = true; static constexpr long long v[] = {%s}; static constexpr int n = %d; };'
                             % (nm, ', '.join('%d' % int(v) for v in vs), len(vs)))
            return
        if k == 'arr':
            visit(t['t'])
            return
        if k != 'rec':
            return
        rid = t['id']
        if rid in done:
            return
        done.add(rid)
        r = recs.get(rid)
        if r is None:
            return
        if r['std']:
            for a in r.get('targs', []):
                for b in (a.get('p') or [a]):
                    if 't' in b:
                        visit(strip(b['t']))
            return
        if r.get('lambda'):
            return
        for b in r['bases']:
            visit(b['t'])
        for x in r['fields']:
            visit(x['t'])
        fill, same = [], []
        for b in r['bases']:
            bt = types[b['t']]
            br = recs.get(bt['id'])
            if br is None or br['std']:
                continue
            fill.append('Gen<%s>::fill(static_cast<%s&>(x), n);' % (bt['id'], bt['id']))
            same.append('Gen<%s>::same(static_cast<const %s&>(a), static_cast<const %s&>(b))' % (bt['id'], bt['id'], bt['id']))
        for x in r['fields']:
            ft = types[x['t']]
            if ft['k'] in ('ref', 'rref', 'ptr', 'memptr', 'fn'):
                continue
            if ft['k'] == 'rec' and recs.get(ft['id'], {}).get('lambda'):
                continue
            fill.append('Gen<std::remove_cv_t<decltype(x.%s)>>::fill(const_cast<std::remove_cv_t<decltype(x.%s)>&>(x.%s), n + ".%s");' % (x['n'], x['n'], x['n'], x['n']))
            same.append('Gen<std::remove_cv_t<decltype(a.%s)>>::same(a.%s, b.%s)' % (x['n'], x['n'], x['n']))
        out.append('template <> struct Gen<%s, void> {\n  static void fill(%s& x, const std::string& n) { (void)x; (void)n; %s }\n  static bool same(const %s& a, const %s& b) { (void)a; (void)b; return %s; }\n};'
                   % (rid, rid, ' '.join(fill), rid, rid, ' && '.join(same) or 'true'))
    for ti in roots:
        visit(strip(ti))
    return 'namespace vp {\n' + '\n'.join(enums) + '\n' + '\n'.join(out) + '\n}\n'


MAIN = r'''
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <fstream>
#include <iostream>
static sigjmp_buf vp_jb; static volatile sig_atomic_t vp_in = 0;
static void vp_sig(int s) { if (vp_in) siglongjmp(vp_jb, s); std::_Exit(3); }
struct Entry { const char* n; void (*f)(); };
static Entry entries[] = { %s };
static std::string vp_run(void (*f)()) {   // "" ok, "skip", or failure text
    int s = sigsetjmp(vp_jb, 1);
    if (s) { vp_in = 0; return std::string("signal ") + std::to_string(s) + (s == SIGABRT ? " (assertion failed)" : s == SIGILL ? " (undefined behaviour trap)" : ""); }
    vp_in = 1;
    std::string r;
    try { f(); }
    catch (vp::Skip&) { r = "skip"; }
    catch (vp::Fail& e) { r = e.what.empty() ? "unnamed" : e.what; }
    catch (std::exception& e) { r = std::string("exception escapes: ") + e.what(); }
    catch (...) { r = "exception escapes"; }
    vp_in = 0;
    return r;
}
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    std::cout.rdbuf(nullptr);
    if (!std::getenv("VP_STDERR")) { if (!std::freopen("/dev/null", "w", stderr)) return 2; }
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) { struct sigaction a{}; a.sa_handler = vp_sig; a.sa_flags = SA_NODEFER; sigaction(s, &a, nullptr); }
    void (*f)() = nullptr;
    for (auto& e : entries) if (std::string(e.n) == argv[1]) f = e.f;
    if (!f) { std::printf("NOLEMMA\n"); return 2; }
    auto& S = vp::src();
    if (std::string(argv[2]) == "replay") {
        std::ifstream in(argv[3]); std::string line;
        while (std::getline(in, line)) { auto p = line.find('='); if (p == std::string::npos || line[0] == '#') continue; S.given[line.substr(0, p)] = line.substr(p + 1); }
        S.reset(1); S.replay = true;
        std::string r = vp_run(f);
        if (r.empty()) { std::printf("HOLDS\n"); return 0; }
        if (r == "skip") { std::printf("SKIP\n"); return 0; }
        std::printf("FAIL %%s\n", r.c_str());
        for (auto& l : S.log) std::printf("%%s=%%s\n", l.first.c_str(), l.second.c_str());
        return 1;
    }
    double secs = std::atof(argv[3]); unsigned long seed = argc > 4 ? std::strtoul(argv[4], nullptr, 10) : 1;
    unsigned long maxrun = argc > 5 ? std::strtoul(argv[5], nullptr, 10) : ~0ul;
    unsigned long n = 0, skipped = 0; clock_t t0 = clock();
    for (;; n++) {
        if (n >= maxrun) break;
        if ((n & 63) == 0 && double(clock() - t0) / CLOCKS_PER_SEC > secs) break;
        S.reset(seed * 1000003ul + n);
        std::string r = vp_run(f);
        if (r == "skip") { skipped++; continue; }
        if (r.empty()) continue;
        std::printf("FAIL %%s\n", r.c_str());
        for (auto& l : S.log) std::printf("%%s=%%s\n", l.first.c_str(), l.second.c_str());
        return 1;
    }
    std::printf("NONE runs=%%lu skipped=%%lu\n", n, skipped);
    return 0;
}
'''


def build(dump, spec, lemmas, out, flags):
    """compile spec natively; returns (ok, message)"""
    d = os.path.dirname(out)
    os.makedirs(d, exist_ok=True)
    with open(out + '.gen.inc', 'w') as f:
        f.write(gen_records(dump))
    with open(out + '.main.cpp', 'w') as f:
        f.write('#define VP_NATIVE 1\n#define VP_GEN "%s.gen.inc"\n#include "%s"\n' % (out, spec))
        f.write(MAIN % ', '.join('{"%s", &%s}' % (l.split('::')[-1], l) for l in lemmas))
    cmd = ['g++', '-std=c++17', '-O1', '-w', '-fno-access-control', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=undefined', '-fsanitize-undefined-trap-on-error', '-fno-sanitize=vptr'] + flags + [out + '.main.cpp', '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout[-3000:]


def small():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def replay(bin_, lemma, path, timeout=60):
    try:
        p = subprocess.run([bin_, lemma, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, preexec_fn=small)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    o = p.stdout
    if o.startswith('FAIL'):
        return 'fail', o
    if o.startswith('HOLDS'):
        return 'holds', o
    if o.startswith('SKIP'):
        return 'skip', o
    return 'error', o


def search(bin_, lemma, secs, seed, maxrun=None):
    try:
        p = subprocess.run([bin_, lemma, 'search', str(secs), str(seed)] + ([str(maxrun)] if maxrun else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=secs + 60, preexec_fn=small)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return ('fail' if p.stdout.startswith('FAIL') else ('none' if p.stdout.startswith('NONE') else 'error')), p.stdout
