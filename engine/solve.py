"""Discharging obligations: the normaliser (term simplification under the path condition, case splits on branch conditions),
then SMT solvers (z3 and cvc5 side by side) over an exact integer encoding (machine integers as integers with explicit
wrap-around) and, for bit-level terms, a bit-vector encoding."""
import os, re, subprocess, tempfile, time
from fractions import Fraction
from terms import *

Z3 = '/usr/local/bin/z3-new' if os.path.exists('/usr/local/bin/z3-new') else 'z3'
STAGGER = 0.2     # seconds
CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'

BITOPS = ('band', 'bor', 'bxor')


# ------------------------------------------------------------------ normaliser
def literals(pc):
    lits = []
    for p in pc:
        if p.op == 'and':
            lits.extend(p.args)
        else:
            lits.append(p)
    return lits


def lit_map(lits):
    """substitution implied by literals: literal -> true/false, variable = constant"""
    m = {}
    for p in lits:
        if p.op == 'not':
            m[p.args[0].id] = FALSE
        else:
            m[p.id] = TRUE
            if p.op == 'eq':
                a, b = p.args
                if is_const(b) and not is_const(a) and a.op in ('var', 'app', 'cast', 'rem', 'div'):
                    m[a.id] = b
                elif a.op == 'var' and b.op == 'var':
                    pass
            if p.op == 'req0':
                # x - c = 0
                q = topoly(p.args[0])
                if len(q) <= 2:
                    ms = [k for k in q if k]
                    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                        m[ms[0][0][0]] = const(-q.get((), 0) / q[ms[0]], R)
    return m


def simp_under(t, lits, rounds=3):
    for _ in range(rounds):
        m = lit_map(lits)
        if t.op == 'not' and t.args[0].id in m:
            return not_(m[t.args[0].id])
        t2 = subst(t, m) if m else t
        if t2 is t:
            return t
        t = t2
        if is_const(t):
            return t
    return t


def equalities(lits):
    """variable -> term, from equalities among the literals (also two-sided bounds)"""
    m = {}
    ids = set(p.id for p in lits)
    for p in lits:
        a = b = None
        if p.op == 'eq' and p.args[0].sort != B:
            a, b = p.args
        elif p.op == 'not' and p.args[0].op == 'lt':
            x, y = p.args[0].args
            if x.id < y.id and not_(lt(y, x)).id in ids:
                a, b = x, y
        if a is None or a.sort == R:
            continue
        for u, v in sorted(((a, b), (b, a)), key=lambda q: -q[0].id):
            if u.op == 'var' and not str(u.val).startswith('#') and u.id not in fv(v) and not (fv(v) & set(m)):
                if u.id not in m and not any(u.id in fv(w) for w in m.values()):
                    m[u.id] = v
                break
    return m


def eliminate(lits):
    """equalities between index terms propagated through the other literals (the equalities themselves are kept)"""
    m = equalities(lits)
    if not m:
        return lits
    out, seen = [], set()
    for p in lits:
        q = subst(p, m)
        for r in ((p,) if q is p else (p, q) if p.op == 'eq' or (p.op == 'not' and p.args[0].op == 'lt') else (q, p)):
            for x in (r.args if r.op == 'and' else (r,)):
                if x is not TRUE and x.id not in seen:
                    seen.add(x.id)
                    out.append(x)
    return out


def simp_pc(pc):
    """path condition with literals propagated into each other; None when contradictory"""
    lits = literals(pc)
    units = [p for p in lits if p.op != 'or']
    out = []
    lits = eliminate(lits)
    for p in lits:
        if p is FALSE:
            return None
        if p.op == 'or':
            q = simp_under(p, units)
            if q is FALSE:
                return None
            if q is TRUE:
                continue
            if q.op != 'or':
                units.append(q)
            out.append(q)
        else:
            out.append(p)
    ids = set(p.id for p in out)
    for p in out:
        if not_(p).id in ids:
            return None
    return out


def bounds_of(lits):
    """simple interval facts term id -> (lo,hi) from literals"""
    b = {}
    for p in lits:
        q, pos = (p.args[0], False) if p.op == 'not' else (p, True)
        if q.op == 'lt':
            x, y = q.args
            if is_const(y):
                lo, hi = b.get(x.id, rng(x))
                b[x.id] = (lo, min(hi, y.val - 1)) if pos else (max(lo, y.val), hi)
            elif is_const(x):
                lo, hi = b.get(y.id, rng(y))
                b[y.id] = (max(lo, x.val + 1), hi) if pos else (lo, min(hi, x.val))
    return b


def linrange(t, rng):
    cs, c = t.val
    lo = hi = c
    for k, a in zip(cs, t.args):
        ra = rng(a)
        lo += min(k * ra[0], k * ra[1])
        hi += max(k * ra[0], k * ra[1])
    return lo, hi


class Order:
    """what a set of literals says about the size and order of integer terms (used to see that an operation cannot wrap: in every
    model of the literals the simplified reading of a term is its value)"""

    def __init__(self, lits):
        self.b = bounds_of(lits)
        self.up = {}          # id -> ids of terms known to be at least as large
        self.memo = {}
        self.gm = {}
        edges = []
        for p in lits:
            q, pos = (p.args[0], False) if p.op == 'not' else (p, True)
            if q.op == 'lt' and isinstance(q.args[0].sort, tuple):
                x, y = q.args if pos else (q.args[1], q.args[0])     # x <= y
                edges.append((x, y))
            elif q.op == 'eq' and pos and isinstance(q.args[0].sort, tuple):
                edges += [q.args, (q.args[1], q.args[0])]
        for x, y in edges:
            self.up.setdefault(x.id, []).append(y)
        for _ in range(4):
            ch = False
            for x, y in edges:
                if is_const(x):
                    continue
                hi = self.b.get(y.id, rng(y))[1]
                lo, h = self.b.get(x.id, rng(x))
                if hi < h:
                    self.b[x.id] = (lo, hi)
                    ch = True
            if not ch:
                break

    def rng(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        r = rng(t)
        self.memo[t.id] = r
        f = full(t.sort) if isinstance(t.sort, tuple) else None
        if t.op == 'ite':
            a, b = self.rng(t.args[1]), self.rng(t.args[2])
            r = (min(a[0], b[0]), max(a[1], b[1]))
        elif t.op == 'lin':
            x = self.linrng(t)
            if f[0] <= x[0] and x[1] <= f[1]:
                r = x
        elif t.op == 'cast' and isinstance(t.args[0].sort, tuple):
            a = self.rng(t.args[0])
            if f[0] <= a[0] and a[1] <= f[1]:
                r = a
        elif t.op == 'div' and is_const(t.args[1]) and t.args[1].val > 0:
            a = self.rng(t.args[0])
            if a[0] >= 0:
                r = (a[0] // t.args[1].val, a[1] // t.args[1].val)
        b = self.b.get(t.id)
        if b:
            r = (max(r[0], b[0]), min(r[1], b[1]))
        self.memo[t.id] = r
        return r

    def linrng(self, t):
        cs, c = t.val
        lo, hi = linrange(t, self.rng)
        if lo < 0 and not t.sort[1]:
            # pair what is subtracted with what it is known not to exceed
            plus = [(a, k) for k, a in zip(cs, t.args) if k == 1]
            minus = [(a, k) for k, a in zip(cs, t.args) if k == -1]
            for b, _ in minus:
                for i, (a, _) in enumerate(plus):
                    if self.ge(a, b):
                        ra, rb = self.rng(a), self.rng(b)
                        lo += max(0, ra[0] - rb[1]) - (ra[0] - rb[1])
                        del plus[i]
                        break
        return lo, hi

    def ge(self, a, b, d=0):
        if a is b:
            return True
        key = (a.id, b.id)
        r = self.gm.get(key)
        if r is not None:
            return r
        self.gm[key] = False
        r = self._ge(a, b, d)
        self.gm[key] = r
        return r

    def _ge(self, a, b, d):
        if self.rng(a)[0] >= self.rng(b)[1]:
            return True
        if d > 6:
            return False
        seen = set()
        st = [b]
        while st:
            x = st.pop()
            for y in self.up.get(x.id, ()):
                if y is a:
                    return True
                if y.id not in seen and len(seen) < 40:
                    seen.add(y.id)
                    st.append(y)
        if b.op == 'ite':
            c, x, y = b.args
            if c.op == 'lt' and ((c.args[0] is x and c.args[1] is y) or (c.args[0] is y and c.args[1] is x)):
                ismin = c.args[0] is x
                if ismin and (self.ge(a, x, d + 1) or self.ge(a, y, d + 1)):
                    return True
            if self.ge(a, x, d + 1) and self.ge(a, y, d + 1):
                return True
        if a.op == 'ite':
            c, x, y = a.args
            if c.op == 'lt' and ((c.args[0] is x and c.args[1] is y) or (c.args[0] is y and c.args[1] is x)):
                if c.args[0] is y and (self.ge(x, b, d + 1) or self.ge(y, b, d + 1)):
                    return True
            if self.ge(x, b, d + 1) and self.ge(y, b, d + 1):
                return True
        for y in self.up.get(b.id, ()):
            if y.op == 'ite' and self.ge(a, y, d + 1):
                return True
        return False


def split_conds(t):
    """branch conditions (ite guards) occurring in t outside binders"""
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in BINDERS:
            continue
        if x.op == 'ite':
            c = x.args[0]
            for l in (c.args if c.op in ('and', 'or') else (c,)):
                l = l.args[0] if l.op == 'not' else l
                if l.op in ('and', 'or'):
                    continue
                if any(str(byid(i).val).startswith('#') for i in fv(l)):
                    continue
                out[l.id] = out.get(l.id, 0) + 1
        st.extend(x.args)
    return out


def has_real(t):
    return any(x.sort == R for x in subterms([t]).values())


def normal(pc, goal):
    """(pc', goal') simplified; goal' TRUE when the normaliser alone discharges it"""
    lits = simp_pc(pc)
    if lits is None:
        return pc, TRUE
    m = equalities(lits)
    g = simp_under(goal, lits)
    if m:
        g2 = subst(g, m)
        if g2 is not g:
            g = simp_under(g2, lits)
    if g is not TRUE and g is not FALSE:
        o = Order(lits)
        for _ in range(3):
            m = {}
            for x in subterms([g]).values():
                if x.op == 'lt' and isinstance(x.args[0].sort, tuple) and not any(str(byid(i).val).startswith('#') for i in fv(x)):
                    if o.ge(x.args[0], x.args[1]):
                        m[x.id] = FALSE
            if not m:
                break
            g = subst(g, m)
            if g is TRUE:
                break
    return lits, g


def bitsum(g, most=8):
    """an equality of sums of ite-constants, decided by writing every summand as a multilinear polynomial over its boolean atoms
    (each monomial a conjunction of atoms): equal sums cancel, whatever the relation between the atoms.  TRUE or None"""
    if g.op != 'eq' or not isinstance(g.args[0].sort, tuple):
        return None
    s = g.args[0].sort
    d, c = tolin(sub(g.args[0], g.args[1]))
    if not any(byid(i).op == 'ite' for i in d):
        return None
    acc = {}
    for i, k in d.items():
        t = byid(i)
        if t.op != 'ite':
            acc[(i,)] = acc.get((i,), 0) + k
            continue
        atoms, todo, seen, ok = [], [t], set(), True
        while todo and ok:
            x = todo.pop()
            if x.id in seen or x.op == 'const':
                continue
            seen.add(x.id)
            if x.sort == B and not (x.op in ('not', 'and', 'or', 'xor', 'ite') or x.op == 'eq' and x.args[0].sort == B):
                atoms.append(x)
                ok = len(atoms) <= most
            elif x.sort == B or x.op == 'ite':
                todo.extend(x.args)
            else:
                ok = False
        if not ok:
            acc[(i,)] = acc.get((i,), 0) + k
            continue
        atoms.sort(key=lambda x: x.id)

        def ev(x, m):
            if x.op == 'const':
                return int(x.val)
            r = m.get(x.id)
            if r is not None:
                return r
            o = x.op
            if o == 'not':
                return 1 - ev(x.args[0], m)
            if o == 'and':
                return int(all(ev(y, m) for y in x.args))
            if o == 'or':
                return int(any(ev(y, m) for y in x.args))
            if o in ('xor', 'eq'):
                return int((ev(x.args[0], m) != ev(x.args[1], m)) == (o == 'xor'))
            return ev(x.args[1] if ev(x.args[0], m) else x.args[2], m)
        n = len(atoms)
        f = [ev(t, {a.id: (w >> j) & 1 for j, a in enumerate(atoms)}) for w in range(1 << n)]
        for j in range(n):
            for w in range(1 << n):
                if w >> j & 1:
                    f[w] -= f[w ^ (1 << j)]
        for w in range(1 << n):
            if f[w]:
                if w == 0:
                    c += k * f[0]
                else:
                    mono = ('m',) + tuple(a.id for j, a in enumerate(atoms) if w >> j & 1)
                    acc[mono] = acc.get(mono, 0) + k * f[w]
    mod = 1 << s[0]
    return TRUE if c % mod == 0 and all(k % mod == 0 for k in acc.values()) else None


def split(pc, goal, budget):
    """case split on guards; yields residual (pc, goal) leaves not closed by simplification; None when budget exceeded"""
    leaves = []
    n = [0]

    def go(pc, g):
        n[0] += 1
        if n[0] > budget:
            return False
        lits, g = normal(pc, g)
        if g is TRUE:
            return True
        if g.op == 'and':
            return all(go(lits, x) for x in g.args)
        cs = split_conds(g)
        if not cs:
            leaves.append((lits, g))
            return True
        c = byid(max(cs, key=lambda i: (cs[i], -i)))
        return go(lits + [c], subst(g, {c.id: TRUE})) and go(lits + [not_(c)], subst(g, {c.id: FALSE}))
    if not go(list(pc), goal):
        return None
    return leaves


# ------------------------------------------------------------------ lowering
class Lower:
    def __init__(self, mode):
        self.mode = mode       # 'int' | 'bv'
        self.decls = []
        self.defs = []
        self.memo = {}
        self.axioms = []
        self.funs = {}
        self.abstract = False
        self.sums = []
        self.folds = []
        self.declared = set()
        self.monos = []
        self.namec = 0
        self.inputs = {}       # smt text -> term (scalars whose model values are wanted)
        self.order = None      # facts of the query about order and size: which operations cannot wrap

    def sortname(self, s):
        if s == B:
            return 'Bool'
        if s == R:
            return 'Real'
        if self.mode == 'bv':
            return '(_ BitVec %d)' % s[0]
        return 'Int'

    def sym(self, n):
        return '|' + n.replace('|', '/').replace('\\', '/') + '|'

    def num(self, v):
        return str(v) if v >= 0 else '(- %d)' % -v

    def lit(self, t):
        s = t.sort
        if s == B:
            return 'true' if t.val else 'false'
        if s == R:
            v = t.val
            a = '%d.0' % abs(v.numerator)
            r = a if v.denominator == 1 else '(/ %s %d.0)' % (a, v.denominator)
            return '(- %s)' % r if v < 0 else r
        if self.mode == 'bv':
            return '(_ bv%d %d)' % (t.val & ((1 << s[0]) - 1), s[0])
        return self.num(t.val)

    def bound(self, t):
        return any(str(byid(i).val).startswith('#') for i in fv(t))

    def declfun(self, name, argsorts, s):
        key = name
        if key in self.funs:
            return
        self.funs[key] = (argsorts, s)
        self.decls.append('(declare-fun %s (%s) %s)' % (self.sym(name), ' '.join(self.sortname(a) for a in argsorts), self.sortname(s)))

    def rangeax(self, text, s):
        if self.mode == 'int' and isinstance(s, tuple):
            f = full(s)
            self.axioms.append('(and (<= %s %s) (<= %s %s))' % (self.num(f[0]), text, text, self.num(f[1])))

    def e(self, t, env=None):
        """SMT text of t.  env: memo for terms under the current quantifier"""
        r = self.memo.get(t.id)
        if r is not None:
            return r
        if env is not None:
            r = env.get(t.id)
            if r is not None:
                return r
        if t.op == 'const':
            r = self.lit(t)
            self.memo[t.id] = r
            return r
        bd = self.bound(t)
        if not bd:
            # children first (iteratively through recursion), then a definition
            x = self.node(t, None)
            if t.op in ('var', 'app') or x in ('true', 'false'):
                r = x
                if t.op == 'app':
                    self.rangeax(x, t.sort)
            else:
                self.namec += 1
                nm = 'd%d' % self.namec
                self.defs.append('(define-fun %s () %s %s)' % (nm, self.sortname(t.sort), x))
                r = nm
            self.memo[t.id] = r
            return r
        x = self.node(t, env)
        if env is not None:
            env[t.id] = x
        return x

    def quant(self, q, vars_, body, guards=None):
        """quantified formula with let-sharing for the body"""
        env = {}
        for v in vars_:
            env[v.id] = self.sym(str(v.val))
        # collect shared non-ground nodes
        cnt = {}
        order = []

        def visit(x):
            if is_const(x) or not self.bound(x):
                return
            if x.id in cnt:
                cnt[x.id] += 1
                return
            cnt[x.id] = 1
            if x.op not in BINDERS:
                for a in x.args:
                    visit(a)
            else:
                visit(x.args[0])
            order.append(x)
        visit(body)
        lets = []
        k = 0
        for x in order:
            if cnt[x.id] > 1 and x.op not in ('var',) and x is not body:
                s = self.node(x, env)
                self.namec += 1
                nm = 'l%d' % self.namec
                lets.append((nm, s))
                env[x.id] = nm
        b = self.e(body, env)
        rg = []
        for v in vars_:
            if self.mode == 'int' and isinstance(v.sort, tuple):
                f = full(v.sort)
                rg.append('(<= %s %s)' % (self.num(f[0]), env[v.id]))
                rg.append('(<= %s %s)' % (env[v.id], self.num(f[1])))
        hyp = rg + (guards(env) if guards else [])
        txt = b
        if hyp:
            txt = '(=> (and %s) %s)' % (' '.join(hyp), b)
        for nm, s in reversed(lets):
            txt = '(let ((%s %s)) %s)' % (nm, s, txt)
        return '(%s (%s) %s)' % (q, ' '.join('(%s %s)' % (self.sym(str(v.val)), self.sortname(v.sort)) for v in vars_), txt)

    def rng(self, t):
        """value range of t in every model of the hypotheses"""
        return self.order.rng(t) if self.order else rng(t)

    def linrng(self, t):
        return self.order.linrng(t) if self.order else linrange(t, rng)

    def wrap(self, text, lo, hi, s):
        """integer expression with value range [lo,hi] wrapped into sort s"""
        f = full(s)
        if f[0] <= lo and hi <= f[1]:
            return text
        M = 1 << s[0]
        qlo = (lo - f[0]) // M
        qhi = (hi - f[0]) // M
        if qhi - qlo <= 3:
            self.namec += 1
            x = 'w%d' % self.namec
            r = None
            for q in range(qlo, qhi + 1):
                val = x if q == 0 else ('(- %s %d)' % (x, q * M) if q > 0 else '(+ %s %d)' % (x, -q * M))
                if r is None:
                    r = val
                else:
                    # x >= f[0] + q*M  selects q
                    r = '(ite (>= %s %s) %s %s)' % (x, self.num(f[0] + q * M), val, r)
            return '(let ((%s %s)) %s)' % (x, text, r)
        if f[0] == 0:
            return '(mod %s %d)' % (text, M)
        return '(- (mod (+ %s %d) %d) %d)' % (text, -f[0], M, -f[0])

    def uf(self, name, t, env):
        self.abstract = True
        nm = '%s_%s' % (name, '_'.join(str(a.sort).replace(' ', '').replace('(', '').replace(')', '').replace(',', '') for a in t.args))
        nm += str(t.sort).replace(' ', '').replace('(', '_').replace(')', '').replace(',', '')
        self.declfun(nm, [a.sort for a in t.args], t.sort)
        x = '(%s %s)' % (self.sym(nm), ' '.join(self.e(a, env) for a in t.args))
        if not self.bound(t):
            self.rangeax(x, t.sort)
            if isinstance(t.sort, tuple) and self.mode == 'int':
                r = rng(t)
                self.axioms.append('(and (<= %s %s) (<= %s %s))' % (self.num(r[0]), x, x, self.num(r[1])))
        return x

    def node(self, t, env):
        op, s = t.op, t.sort
        E = lambda a: self.e(a, env)
        bv = self.mode == 'bv'
        if op == 'var':
            nm = str(t.val)
            if nm.startswith('#'):
                return env[t.id] if env and t.id in env else self.sym(nm)
            if nm not in self.declared:
                self.declared.add(nm)
                self.decls.append('(declare-fun %s () %s)' % (self.sym(nm), self.sortname(s)))
                if not bv and isinstance(s, tuple):
                    self.rangeax(self.sym(nm), s)
                self.inputs[self.sym(nm)] = t
            return self.sym(nm)
        if op == 'app':
            self.declfun(t.val, [a.sort for a in t.args], s)
            r = '(%s %s)' % (self.sym(t.val), ' '.join(E(a) for a in t.args))
            if self.bound(t):
                key = ('rax', t.val)
                if key not in self.declared and not bv and isinstance(s, tuple):
                    self.declared.add(key)
                    f = full(s)
                    vs = ['q%d' % i for i in range(len(t.args))]
                    ap = '(%s %s)' % (self.sym(t.val), ' '.join(vs))
                    self.axioms.append('(forall (%s) (! (and (<= %s %s) (<= %s %s)) :pattern (%s)))' % (
                        ' '.join('(%s %s)' % (v, self.sortname(a.sort)) for v, a in zip(vs, t.args)), self.num(f[0]), ap, ap, self.num(f[1]), ap))
            else:
                self.inputs[r] = t
            return r
        if op == 'not':
            return '(not %s)' % E(t.args[0])
        if op in ('and', 'or', 'xor'):
            return '(%s %s)' % (op, ' '.join(E(a) for a in t.args))
        if op == 'ite':
            return '(ite %s %s %s)' % tuple(E(a) for a in t.args)
        if op == 'eq':
            return '(= %s %s)' % (E(t.args[0]), E(t.args[1]))
        if op == 'lt':
            a, b = t.args
            if bv:
                return '(%s %s %s)' % ('bvslt' if a.sort[1] else 'bvult', E(a), E(b))
            return '(< %s %s)' % (E(a), E(b))
        if op == 'lin':
            cs, c = t.val
            if bv:
                w = s[0]
                parts = []
                for k, a in zip(cs, t.args):
                    if k == 1:
                        parts.append(E(a))
                    elif k == -1:
                        parts.append('(bvneg %s)' % E(a))
                    else:
                        parts.append('(bvmul (_ bv%d %d) %s)' % (k & ((1 << w) - 1), w, E(a)))
                if c:
                    parts.append('(_ bv%d %d)' % (c & ((1 << w) - 1), w))
                r = parts[0]
                for p in parts[1:]:
                    r = '(bvadd %s %s)' % (r, p)
                return r
            parts = []
            lo, hi = self.linrng(t)
            for k, a in zip(cs, t.args):
                x = E(a)
                parts.append(x if k == 1 else '(* %s %s)' % (self.num(k), x))
            if c:
                parts.append(self.num(c))
            txt = parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)
            return self.wrap(txt, lo, hi, s)
        if op == 'mul':
            a, b = t.args
            if bv:
                return '(bvmul %s %s)' % (E(a), E(b))
            ra, rb = self.rng(a), self.rng(b)
            ps = [x * y for x in ra for y in rb]
            if self.nl:
                return self.wrap('(* %s %s)' % (E(a), E(b)), min(ps), max(ps), s)
            return self.uf('mul', t, env)
        if op in ('div', 'rem'):
            a, b = t.args
            if bv:
                o = {('div', 0): 'bvudiv', ('div', 1): 'bvsdiv', ('rem', 0): 'bvurem', ('rem', 1): 'bvsrem'}[(op, 1 if s[1] else 0)]
                return '(%s %s %s)' % (o, E(a), E(b))
            if not is_const(b) and not self.nl:
                return self.uf(op, t, env)
            x, y = E(a), E(b)
            if not s[1] or (self.rng(a)[0] >= 0 and self.rng(b)[0] >= 0):
                return '(%s %s %s)' % ('div' if op == 'div' else 'mod', x, y)
            q = '(ite (= (>= %s 0) (>= %s 0)) (div (abs %s) (abs %s)) (- (div (abs %s) (abs %s))))' % (x, y, x, y, x, y)
            if op == 'div':
                return self.wrap(q, full(s)[0], full(s)[1] + 1, s)
            return '(ite (>= %s 0) (mod (abs %s) (abs %s)) (- (mod (abs %s) (abs %s))))' % (x, x, y, x, y)
        if op in BITOPS:
            a, b = t.args
            if bv:
                return '(%s %s %s)' % ({'band': 'bvand', 'bor': 'bvor', 'bxor': 'bvxor'}[op], E(a), E(b))
            return self.uf(op, t, env)
        if op in ('shl', 'shr'):
            a, b = t.args
            if bv:
                bs = E(b) if b.sort[0] == s[0] else self.e(cast(b, s), env)
                o = 'bvshl' if op == 'shl' else ('bvashr' if s[1] else 'bvlshr')
                return '(%s %s %s)' % (o, E(a), bs)
            if is_const(b):
                if op == 'shr':
                    return '(div %s %d)' % (E(a), 1 << b.val)
                ra = self.rng(a)
                return self.wrap('(* %d %s)' % (1 << b.val, E(a)), ra[0] << b.val, ra[1] << b.val, s)
            return self.uf(op, t, env)
        if op == 'bnot':
            if bv:
                return '(bvnot %s)' % E(t.args[0])
            return self.uf(op, t, env)
        if op == 'cast':
            a = t.args[0]
            if a.sort == B:
                return '(ite %s %s %s)' % (E(a), self.lit(const(1, s)), self.lit(const(0, s)))
            if s == B:
                return '(distinct %s %s)' % (E(a), self.lit(const(0, a.sort)))
            if bv:
                w, v = s[0], a.sort[0]
                if w == v:
                    return E(a)
                if w < v:
                    return '((_ extract %d 0) %s)' % (w - 1, E(a))
                return '((_ %s %d) %s)' % ('sign_extend' if a.sort[1] else 'zero_extend', w - v, E(a))
            ra = self.rng(a)
            return self.wrap(E(a), ra[0], ra[1], s)
        if op == 'bit':
            a, i = t.args[0], t.val
            if bv:
                return '(= ((_ extract %d %d) %s) #b1)' % (i, i, E(a))
            return '(= (mod (div %s %d) 2) 1)' % (E(a), 1 << i)
        if op == 'frombits':
            if bv:
                r = ' '.join('(ite %s #b1 #b0)' % E(x) for x in reversed(t.args))
                r = '(concat %s)' % r if len(t.args) > 1 else r
                if s[0] > len(t.args):
                    r = '((_ zero_extend %d) %s)' % (s[0] - len(t.args), r)
                return r
            return '(+ 0 %s)' % ' '.join('(ite %s %d 0)' % (E(x), 1 << i) for i, x in enumerate(t.args))
        if op == 'req0':
            return '(= %s 0.0)' % E(t.args[0])
        if op == 'rpos':
            return '(> %s 0.0)' % E(t.args[0])
        if op == 'poly':
            parts = []
            for mono, c in t.val:
                fs = []
                for i, p in mono:
                    x = byid(i)
                    for _ in range(abs(p)):
                        fs.append((x, p < 0))
                cst = self.lit(const(c, R))
                if not fs:
                    parts.append(cst)
                    continue
                if len(fs) == 1 and not fs[0][1]:
                    m = E(fs[0][0])
                elif self.nl:
                    m = ' '.join('(/ 1.0 %s)' % E(x) if inv else E(x) for x, inv in fs)
                    m = '(* %s)' % m if len(fs) > 1 else m
                else:
                    m = self.monomial(mono, env)
                parts.append(m if c == 1 else '(* %s %s)' % (cst, m))
            return parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)
        if op == 'i2r':
            if bv:
                return self.uf('i2r', t, env)
            return '(to_real %s)' % E(t.args[0])
        if op == 'r2i':
            if bv:
                return self.uf('r2i', t, env)
            x = E(t.args[0])
            f = full(s)
            u = self.uf_plain('r2iout%d_%d' % s, [R], s, x)
            tr = '(ite (>= %s 0.0) (to_int %s) (- (to_int (- %s))))' % (x, x, x)
            return '(let ((r2v %s)) (ite (and (<= %s r2v) (<= r2v %s)) r2v %s))' % (tr, self.num(f[0]), self.num(f[1]), u)
        if op == 'rdiv0':
            nm = 'rdiv0'
            self.declfun(nm, [], R)
            return nm
        if op == 'all':
            v = byid(t.val[0])
            n = t.args[0]
            nt = E(n)

            def g(env2):
                if bv:
                    return ['(bvult %s %s)' % (env2[v.id], self.e(n, env))]
                return ['(< %s %s)' % (env2[v.id], self.e(n, env))]
            # merge enclosing environment
            return self.quant_in('forall', v, t.args[1], g, env)
        if op == 'sum':
            return self.binder_const('sum', t, env)
        if op == 'fold':
            return self.binder_const('fold', t, env)
        raise ValueError('cannot lower ' + op)

    nl = False

    def uf_plain(self, nm, sorts, s, arg):
        self.declfun(nm, sorts, s)
        return '(%s %s)' % (self.sym(nm), arg)

    def quant_in(self, q, v, body, guards, env):
        if env:
            outer = dict(env)
        else:
            outer = {}
        env2 = dict((k, x) for k, x in outer.items() if not self.depends(k, v))
        env2[v.id] = self.sym(str(v.val))
        cnt = {}
        order = []

        def visit(x):
            if is_const(x) or not self.bound(x) or x.id in env2:
                return
            if x.id in cnt:
                cnt[x.id] += 1
                return
            cnt[x.id] = 1
            if x.op not in BINDERS:
                for a in x.args:
                    visit(a)
            order.append(x)
        visit(body)
        lets = []
        for x in order:
            if cnt[x.id] > 1 and x.op != 'var' and x is not body:
                s = self.node(x, env2)
                self.namec += 1
                nm = 'l%d' % self.namec
                lets.append((nm, s))
                env2[x.id] = nm
        b = self.e(body, env2)
        rg = []
        if self.mode == 'int' and isinstance(v.sort, tuple):
            f = full(v.sort)
            rg.append('(<= %s %s)' % (self.num(f[0]), env2[v.id]))
        hyp = rg + guards(env2)
        txt = '(=> (and %s) %s)' % (' '.join(hyp), b) if hyp else b
        for nm, s in reversed(lets):
            txt = '(let ((%s %s)) %s)' % (nm, s, txt)
        return '(%s ((%s %s)) %s)' % (q, self.sym(str(v.val)), self.sortname(v.sort), txt)

    def depends(self, tid, v):
        return v.id in fv(byid(tid))

    def monomial(self, mono, env):
        """nonlinear monomial as an uninterpreted value (functional in its factors under binders)"""
        self.abstract = True
        args = [byid(i) for i, p in mono]
        nm = 'mono%s' % '_'.join(str(p).replace('-', 'm') for i, p in mono)
        if not any(self.bound(a) for a in args):
            key = ('mono', mono)
            nm = 'mono!%s' % '_'.join('%d^%s' % (i, p) for i, p in mono)
            if key not in self.declared:
                self.declared.add(key)
                self.decls.append('(declare-fun |%s| () Real)' % nm)
                # facts about products that linear reasoning often needs: sign when factors are known
                for a in args:
                    self.e(a)
                # equal factors, equal product (for products that differ in one factor)
                for other, onm in self.monos:
                    p, q = [f for f in mono if f not in other], [f for f in other if f not in mono]
                    if len(p) == 1 and len(q) == 1 and p[0][1] == q[0][1] and len(mono) == len(other):
                        a, b = byid(p[0][0]), byid(q[0][0])
                        if a.op == 'i2r' and b.op == 'i2r' and a.args[0].sort == b.args[0].sort:
                            a, b = a.args[0], b.args[0]
                        self.axioms.append('(=> (= %s %s) (= |%s| |%s|))' % (self.e(a), self.e(b), nm, onm))
                if len(self.monos) < 24:
                    self.monos.append((mono, nm))
            return '|%s|' % nm
        self.declfun(nm, [R] * len(args), R)
        return '(%s %s)' % (self.sym(nm), ' '.join(self.e(a, env) for a in args))

    def binder_const(self, kind, t, env):
        self.abstract = True
        fvs = [byid(i) for i in sorted(fv(t)) if str(byid(i).val).startswith('#')]
        nm = '%s!%d' % (kind, t.id)
        if not fvs:
            if nm not in self.declared:
                self.declared.add(nm)
                self.decls.append('(declare-fun |%s| () %s)' % (nm, self.sortname(t.sort)))
                self.rangeax('|%s|' % nm, t.sort)
                self.e(t.args[0])
                (self.sums if kind == 'sum' else self.folds).append(t)
            return '|%s|' % nm
        self.declfun(nm, [v.sort for v in fvs], t.sort)
        return '(|%s| %s)' % (nm, ' '.join(self.e(v, env) for v in fvs))


def sum_lemmas(L):
    """ground axioms about the sums and folds of the query (each is a theorem of the binder's definition)"""
    out = []
    done = set()
    rounds = 0
    while rounds < 3:
        rounds += 1
        ss = list(L.sums)
        new = False
        for i, a in enumerate(ss):
            key = ('z', a.id)
            if key not in done:
                done.add(key)
                new = True
                n, = (a.args[0],)
                out.append(or_(not_(eq(n, const(0, n.sort))), eq(a, const(0, a.sort))))
                if rounds == 1 and len(ss) <= 6 and not is_const(n) and isinstance(n.sort, tuple):
                    # last element taken out
                    m1 = sub(n, const(1, n.sort))
                    xa = byid(a.val[0])
                    s1 = sum_(xa, m1, a.args[1])
                    if s1.op == 'sum':
                        plus = radd if a.sort == R else add
                        out.append(or_(eq(n, const(0, n.sort)), eq(a, plus(s1, subst(a.args[1], {xa.id: m1})))))
            for b in ss:
                if a is b or a.sort != b.sort or a.args[0].sort != b.args[0].sort:
                    continue
                key = ('u', a.id, b.id)
                if key in done:
                    continue
                done.add(key)
                new = True
                na, nb = a.args[0], b.args[0]
                xa, xb = byid(a.val[0]), byid(b.val[0])
                ba, bb = a.args[1], b.args[1]
                bb_on_a = subst(bb, {xb.id: xa})
                if bb_on_a is ba:
                    # unfolding: na = nb + 1 (no wrap)
                    out.append(implies(and_(eq(na, add(nb, const(1, nb.sort))), not_(eq(na, const(0, na.sort)))),
                                       eq(a, add(b, subst(bb, {xb.id: nb})))))
                    out.append(implies(eq(na, nb), eq(a, b)))
                elif a.id < b.id:
                    d = fresh('d', xa.sort)
                    out.append(or_(not_(eq(na, nb)), eq(a, b), and_(lt(d, na), not_(eq(subst(ba, {xa.id: d}), subst(bb, {xb.id: d}))))))
        fs = list(L.folds)
        for a in fs:
            ks, w = a.val[0], a.val[1]
            m = len(ks) - 1
            key = ('fz', a.id)
            if key not in done:
                done.add(key)
                new = True
                out.append(or_(not_(eq(a.args[0], const(0, a.args[0].sort))), eq(a, a.args[1 + w])))
            for b in fs:
                if a is b:
                    continue
                key = ('fu', a.id, b.id)
                if key in done:
                    continue
                done.add(key)
                if a.val[0] == b.val[0] and a.args[1:] == b.args[1:]:
                    new = True
                    na, nb = a.args[0], b.args[0]
                    # components of the state after nb steps
                    comps = [mk('fold', (nb,) + tuple(a.args[1:]), byid(ks[1 + j]).sort, (ks, j)) for j in range(m)]
                    mp = {ks[0]: nb}
                    for j in range(m):
                        mp[ks[1 + j]] = comps[j]
                    stepw = subst(a.args[1 + m + w], mp)
                    out.append(implies(and_(eq(na, add(nb, const(1, nb.sort))), not_(eq(na, const(0, na.sort)))), eq(a, stepw)))
                    if w == b.val[1]:
                        out.append(implies(eq(na, nb), eq(a, b)))
                elif len(a.val[0]) == len(b.val[0]) and w == b.val[1] and a.id < b.id and a.sort == b.sort:
                    kb = b.val[0]
                    if any(byid(x).sort != byid(y).sort for x, y in zip(ks, kb)):
                        continue
                    new = True
                    # extensionality: equal inits, trip counts and step functions give equal results
                    d = fresh('d', byid(ks[0]).sort)
                    ys = [fresh('y', byid(ks[1 + j]).sort) for j in range(m)]
                    ma = {ks[0]: d, **{ks[1 + j]: ys[j] for j in range(m)}}
                    mb = {kb[0]: d, **{kb[1 + j]: ys[j] for j in range(m)}}
                    diff = [not_(eq(subst(a.args[1 + m + j], ma), subst(b.args[1 + m + j], mb))) for j in range(m)]
                    inits = [not_(eq(a.args[1 + j], b.args[1 + j])) for j in range(m)]
                    out.append(or_(not_(eq(a.args[0], b.args[0])), eq(a, b), *inits, and_(lt(d, a.args[0]), or_(*diff))))
        if not new:
            break
        before = (len(L.sums), len(L.folds))
        for x in out:
            L.e(x)
        if before == (len(L.sums), len(L.folds)):
            break
    return out


def relevant(facts, seeds):
    """facts sharing symbols with the seeds (transitively)"""
    syms = set()

    def syms_of(t):
        r = set()
        for x in subterms([t]).values():
            if x.op == 'var' and not str(x.val).startswith('#'):
                r.add(x.val)
            elif x.op == 'app':
                r.add(x.val)
        return r
    fs = [(f, syms_of(f)) for f in facts]
    for s in seeds:
        syms |= syms_of(s)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f, sy in fs:
            if sy & syms or not sy:
                out.append(f)
                if not sy <= syms:
                    syms |= sy
                    changed = True
            else:
                rest.append((f, sy))
        fs = rest
    return out


def build(pc, goal, facts, mode, nl=False, extra=()):
    """SMT-LIB text whose unsatisfiability is validity of  facts & pc => goal"""
    L = Lower(mode)
    L.nl = nl
    asserts = []
    g = goal
    # skolemise a universally quantified goal
    hyps = list(pc) + list(extra)
    while g.op == 'all' or (g.op == 'or' and any(x.op == 'all' for x in g.args)):
        if g.op == 'all':
            v, n, b = openb(g, 'sk')
            hyps.append(lt(v, n))
            g = b
        else:
            parts = []
            for x in g.args:
                if x.op == 'all':
                    v, n, b = openb(x, 'sk')
                    parts.append(or_(not_(lt(v, n)), b))
                else:
                    parts.append(x)
            g = or_(*parts)
        if g is TRUE:
            return None, L
    hyps, inst = instances(hyps, g)
    hyps = hyps + inst
    fs = relevant(list(facts), hyps + [g])
    if mode == 'int':
        L.order = Order(literals(fs + hyps))
    for h in fs + hyps:
        asserts.append(L.e(h))
    asserts.append('(not %s)' % L.e(g))
    lem = sum_lemmas(L)
    for x in lem:
        asserts.append(L.e(x))
    # instantiate universally quantified hypotheses at index terms of the query
    body = '\n'.join(L.defs + L.axioms + asserts)
    logic = 'ALL'
    if mode == 'int' and not nl and '(forall' not in body and '(exists' not in body and not any(' Real)' in d or '(Real' in d or ' Real' in d for d in L.decls + L.defs):
        # linear arithmetic without quantifiers (div and mod by constants)
        logic = 'QF_UFLIA' if any(not re.search(r' \(\) [A-Za-z]+\)$', d) for d in L.decls) else 'QF_LIA'
    txt = ['(set-option :produce-models true)', '(set-logic %s)' % logic]
    txt += L.decls
    # axioms may refer to definitions and vice versa: definitions first
    txt += L.defs
    txt += ['(assert %s)' % a for a in L.axioms]
    txt += ['(assert %s)' % a for a in asserts]
    return '\n'.join(txt), L


def truth(t):
    """condition c with t == (c ? 1 : 0), or None"""
    if t.sort == B:
        return t
    if t.op == 'ite' and is_const(t.args[1]) and is_const(t.args[2]):
        a, b = t.args[1].val, t.args[2].val
        if (a, b) == (1, 0):
            return t.args[0]
        if (a, b) == (0, 1):
            return not_(t.args[0])
    return None


def binders_in(t):
    return any(x.op == 'all' for x in subterms([t]).values())


def iffs(pc, g):
    """an equivalence between conditions with quantifiers is proved in two directions, with the quantified hypotheses
    skolemised and instantiated"""
    if g.op == 'eq':
        a, b = truth(g.args[0]), truth(g.args[1])
        if a is not None and b is not None and (binders_in(a) or binders_in(b)):
            if a.op in ('not', 'or') and b.op in ('not', 'or'):
                a, b = not_(a) if a.op == 'not' else not_(and_(a)), not_(b)
                if a.op == 'not' and a.args[0].op == 'or':
                    a = and_(*[not_(q) for q in a.args[0].args])
                if b.op == 'not' and b.args[0].op == 'or':
                    b = and_(*[not_(q) for q in b.args[0].args])
            out = []
            for x, y in ((a, b), (b, a)):
                ys = y.args if y.op == 'and' else (y,)
                for z in ys:
                    l2, g2 = normal(list(pc) + [x], z)
                    if g2 is not TRUE:
                        out.append((l2, g2))
            return out
    return [(pc, g)]


def selectors(pc, g):
    """a goal that distinguishes many values of one index term is proved value by value"""
    if g.op == 'all':
        # prenex first
        while g.op == 'all':
            v, n, b = openb(g, 'sk')
            pc, g = list(pc) + [lt(v, n)], b
    groups = {}
    for x in subterms([g]).values():
        if x.op == 'eq' and isinstance(x.args[0].sort, tuple) and x.args[0].sort[0] == 64 and not any(str(byid(i).val).startswith('#') for i in fv(x)):
            d, c = tolin(sub(x.args[0], x.args[1]))
            if not d or len(d) > 3:
                continue
            lead = min(d)
            if d[lead] < 0:
                d, c = {i: -k for i, k in d.items()}, -c
            groups.setdefault((tuple(sorted(d.items())), x.args[0].sort), {})[c] = x
    groups = [(k, v) for k, v in groups.items() if len(v) >= 12 and any(c in (1, -1) and byid(i).op == 'var' for i, c in k[0])]
    if not groups:
        return None
    (key, so), atoms = max(groups, key=lambda kv: len(kv[1]))
    d = dict(key)
    vs = [byid(i) for i, k in d.items() if k in (1, -1) and byid(i).op == 'var']
    if not vs:
        return None
    vs.sort(key=lambda v: not str(v.val).startswith('sk'))
    v = vs[0]
    rest = {i: k for i, k in d.items() if i != v.id}
    return lambda: selected(pc, g, d, v, rest, atoms, so)


def selected(pc, g, d, v, rest, atoms, so):
    out = []
    for c, x in atoms.items():
        r = fromlin({i: -k * d[v.id] for i, k in rest.items()}, -c * d[v.id], so)
        m = {v.id: r}
        lp, lg = normal([subst(p, m) for p in pc], subst(g, m))
        if lg is not TRUE:
            for y in (lg.args if lg.op == 'and' else (lg,)):
                out.append((lp, y))
    m = {x.id: FALSE for x in atoms.values()}
    lp, lg = normal(list(pc) + [not_(x) for x in atoms.values()], subst(g, m))
    if lg is not TRUE:
        out.append((lp, lg))
    return out


def instances(hyps, goal):
    """ground instances of universally quantified hypotheses; existential ones skolemised.  Returns (hyps, extra)"""
    hs, extra = [], []
    cand = {}

    def skol(h):
        # not all(n, b)
        v, n, b = openb(h.args[0], 'sk')
        cand[v.id] = v
        return and_(lt(v, n), not_(b))

    def pos(h):
        if h.op == 'not' and h.args[0].op == 'all':
            return skol(h)
        if h.op == 'or':
            return or_(*[pos(x) if (x.op == 'not' and x.args[0].op == 'all') else x for x in h.args])
        return h
    for h in hyps:
        hs.append(pos(h))
    for t in subterms(list(hs) + [goal]).values():
        if t.op == 'var' and isinstance(t.sort, tuple) and t.sort == U64:
            nm = str(t.val)
            if nm.startswith(('sk', 'trip', 'd!', 'iter', 'k!')):
                cand[t.id] = t
        if t.op == 'app' and len(t.args) >= 1 and t.args[0].sort == U64 and not any(str(byid(i).val).startswith('#') for i in fv(t)):
            if len(cand) < 24 and not is_const(t.args[0]):
                cand[t.args[0].id] = t.args[0]

    def alls(h):
        if h.op == 'all':
            return [(None, h)]
        if h.op == 'or':
            r = [x for x in h.args if x.op == 'all']
            if len(r) == 1:
                return [(or_(*[x for x in h.args if x is not r[0]]), r[0])]
        return []
    for h in hs:
        for side, a in alls(h):
            y = byid(a.val[0])
            cs = list(cand.values())[:12]
            blk = [x.args[1] for x in subterms([a.args[1]]).values() if x.op in ('div', 'rem') and x.args[0] is y and is_const(x.args[1]) and 1 < x.args[1].val <= 8]
            if blk:
                # the quantified index is taken apart into block and offset: every offset of the candidate blocks
                cs = cs[:4] + [add(mul(blk[0], c), u64(j)) for c in cs[:3] if c.sort == U64 and c.op == 'var' for j in range(blk[0].val)]
            for c in cs:
                if c.sort != y.sort:
                    continue
                inst = or_(not_(lt(c, a.args[0])), subst(a.args[1], {y.id: c}))
                if side is not None:
                    inst = or_(side, inst)
                if inst is not TRUE:
                    extra.append(inst)
    return hs, extra


def has_bitops(ts):
    for x in subterms(ts).values():
        if x.op in BITOPS or x.op == 'bnot' or (x.op == 'bit' and x.val >= 2) or (x.op in ('shl', 'shr') and not is_const(x.args[1])) or (x.op == 'shr' and x.sort[1]):
            return True
    return False


def nonlinear(ts):
    for x in subterms(ts).values():
        if x.op == 'mul':
            return True
        if x.op in ('div', 'rem') and not is_const(x.args[1]):
            return True
        if x.op == 'poly':
            for m, c in x.val:
                if len(m) > 1 or (m and m[0][1] != 1):
                    return True
    return False


def slow():
    """how much longer things take because the machine is busy (1..3)"""
    try:
        return min(3.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 8)))
    except OSError:
        return 1.0


def run(text, cmds, timeout, tmpdir, want=None):
    """run several solvers on (text); cmds: list of (label, argv, text).  First decisive answer wins."""
    procs = []
    t0 = time.time()
    for label, argv, txt in cmds:
        fd, path = tempfile.mkstemp(suffix='.smt2', dir=tmpdir)
        with os.fdopen(fd, 'w') as f:
            f.write(txt + '\n(check-sat)\n')
            if want:
                f.write('(get-value (%s))\n' % ' '.join(want))
        p = subprocess.Popen(argv + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        procs.append([label, p, path, None])
    res = ('unknown', None, '')
    try:
        pending = list(procs)
        while pending and time.time() - t0 < timeout:
            for q in list(pending):
                if q[1].poll() is not None:
                    out = q[1].stdout.read()
                    pending.remove(q)
                    first = out.strip().split('\n')[0].strip() if out.strip() else ''
                    if first in ('unsat', 'sat'):
                        res = (first, q[0], out)
                        return res
                    if '(error' in out and os.environ.get('VP_DEBUG'):
                        print('solver error', q[0], out[:500])
            time.sleep(0.002)
    finally:
        for q in procs:
            if q[1].poll() is None:
                q[1].kill()
                q[1].wait()
            try:
                q[1].stdout.close()
            except Exception:
                pass
            try:
                os.unlink(q[2])
            except OSError:
                pass
    return res


class Result:
    def __init__(self, status, by, time_, model=None, exact=True, text=None):
        self.status = status     # proved | refuted | unknown
        self.by = by
        self.time = time_
        self.model = model
        self.exact = exact
        self.text = text


def sexp(s):
    toks = re.findall(r'\|[^|]*\||"[^"]*"|[()]|[^\s()]+', s)
    pos = [0]

    def p():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            r = []
            while toks[pos[0]] != ')':
                r.append(p())
            pos[0] += 1
            return r
        return t
    out = []
    while pos[0] < len(toks):
        out.append(p())
    return out


def val(x):
    if isinstance(x, str):
        if x == 'true':
            return True
        if x == 'false':
            return False
        if x.startswith('#x'):
            return int(x[2:], 16)
        if x.startswith('#b'):
            return int(x[2:], 2)
        if x.startswith('|') or not re.match(r'^-?[0-9]', x):
            return None
        x = x.rstrip('?')
        if '.' in x:
            return Fraction(x)
        return int(x)
    if x and x[0] == '-':
        if len(x) == 2:
            v = val(x[1])
            return None if v is None else -v
        return None
    if x and x[0] == '/':
        a, b = val(x[1]), val(x[2])
        if a is None or b is None or b == 0:
            return None
        return Fraction(a) / Fraction(b)
    if x and x[0] == '_' and isinstance(x[1], str) and x[1].startswith('bv'):
        return int(x[1][2:])
    if x and x[0] == 'to_real':
        return val(x[1])
    return None


class Solver:
    def __init__(self, tmpdir, timeout=10.0):
        self.tmp = tmpdir
        self.timeout = timeout
        self.stats = {}

    def z3(self, t, label='z3'):
        return [Z3, '-T:%d' % max(1, int(3 * t)), 'smt.random_seed=1']

    def cvc5(self, t):
        return [CVC5, '--lang=smt2', '--tlimit=%d' % int(t * 3000), '--produce-models']

    def prove(self, pc, goal, facts=(), timeout=None):
        """returns Result"""
        t0 = time.time()
        timeout = timeout or self.timeout
        if goal is TRUE:
            return Result('proved', 'normaliser', 0.0)
        lits, g = normal(pc, goal)
        if g is TRUE:
            return Result('proved', 'normaliser', time.time() - t0)
        leaves = None
        if (has_real(g) or g.op == 'req0') and split_conds(g):
            leaves = split(lits, g, 400)
        elif any(x.op in ('sum', 'fold') for x in subterms([g]).values()) and split_conds(g):
            leaves = split(lits, g, 60)
        if leaves is None:
            leaves = []
            gs = list(g.args) if g.op == 'and' else [g]
            for x in gs:
                leaves.append((lits, x))
        if not leaves:
            return Result('proved', 'normaliser', time.time() - t0)
        by = set()
        sel = []
        for lp, lg in leaves:
            r = selectors(lp, lg)
            if r is not None:
                q = self.query(lp, lg, facts, min(2.5, timeout))
                if q.status == 'proved':
                    continue
            sel.extend(r() if r is not None else [(lp, lg)])
        leaves = [y for lp, lg in sel for y in iffs(lp, lg)]
        if not leaves:
            return Result('proved', 'normaliser', time.time() - t0)
        done = {}
        if len(leaves) > 16:
            done = self.shared(leaves, facts, max(1.0, timeout))
        for i, (lp, lg) in enumerate(leaves):
            if i in done:
                by.add(done[i])
                continue
            r = self.query(lp, lg, facts, max(1.0, timeout))
            if r.status != 'proved':
                g2 = self.sweep(lp, lg, facts)
                if g2 is not lg:
                    r2 = Result('proved', 'normaliser', 0) if g2 is TRUE else self.query(lp, g2, facts, max(1.0, timeout))
                    if r2.status == 'proved':
                        r = r2
            if r.status != 'proved':
                g2 = self.sweep(lits, g, facts)
                if g2 is not g:
                    r2 = self.prove(lits, g2, facts, timeout)
                    if r2.status == 'proved':
                        return r2
                r.time = time.time() - t0
                return r
            by.add(r.by)
        return Result('proved', '+'.join(sorted(by)), time.time() - t0)

    def sweep(self, pc, goal, facts, most=12):
        """the goal with those of its conditional values that are equal under the path condition merged (products and roundings
        of equal values then coincide, which linear reasoning over them does not see)"""
        if not nonlinear([goal]) and not has_real(goal):
            return goal
        groups = {}
        for x in sorted(subterms([goal]).values(), key=lambda x: x.id):
            if x.op == 'ite' and isinstance(x.sort, tuple) and not nonlinear([x]) and not any(str(byid(i).val).startswith('#') for i in fv(x)):
                groups.setdefault((x.sort, fv(x)), []).append(x)
        m = {}
        for xs in groups.values():
            reps = []
            for x in xs[:8]:
                for y in reps:
                    if most <= 0:
                        break
                    most -= 1
                    if self.query(pc, eq(x, y), facts, 1.0, False).status == 'proved':
                        m[x.id] = y
                        break
                else:
                    reps.append(x)
        return subst(goal, m) if m else goal

    def shared(self, leaves, facts, timeout, k=3):
        """index -> back end of the leaves proved by k forked helpers (each stops at its first failure)"""
        kids = []
        for c in range(k):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    for i in range(c, len(leaves), k):
                        r = self.query(leaves[i][0], leaves[i][1], facts, timeout)
                        if r.status != 'proved':
                            break
                        os.write(wr, ('%d %s\n' % (i, r.by)).encode())
                finally:
                    os._exit(0)
            os.close(wr)
            kids.append((pid, rd))
        done = {}
        for pid, rd in kids:
            with os.fdopen(rd) as f:
                for l in f:
                    if l.endswith('\n'):
                        a, b = l.split(' ', 1)
                        done[int(a)] = b.strip()
            os.waitpid(pid, 0)
        return done

    def field(self, pc, goal, facts):
        """an equation between real expressions, decided by field arithmetic: the denominators are shown to be nonzero, multiplied
        out, and the difference must vanish as a polynomial"""
        memo = self.__dict__.setdefault('fieldmemo', {})
        key = tuple(p.id for p in pc)

        def holds(c):
            c2 = memo.get((key, c.id))
            if c2 is None:
                c2 = memo[key, c.id] = c is TRUE or self.query(pc, c, facts, 1.5, False).status == 'proved'
            return c2
        m = {}
        for t in list(subterms([goal]).values()):
            if t.op == 'i2r' and t.args[0].op == 'lin' and not t.args[0].sort[1]:
                a = t.args[0]
                d, c = tolin(a)
                pos = fromlin({i: k for i, k in d.items() if k > 0}, max(c, 0), a.sort)
                neg_ = fromlin({i: -k for i, k in d.items() if k < 0}, max(-c, 0), a.sort)
                if any(x.op == 'lin' and nowrap_lin(x) is None for x in (pos, neg_)) or not holds(le(neg_, pos)):
                    continue
                r = const(c, R)
                for i, k in d.items():
                    r = radd(r, rmul(const(k, R), i2r(byid(i))))
                m[t.id] = r
        if m:
            goal = subst(goal, m)
            if goal is TRUE:
                return True
            if goal.op != 'req0':
                return False
        p = goal.args[0]
        for _ in range(12):
            q = topoly(p)
            k = {}
            for mono in q:
                for i, e in mono:
                    if e < 0:
                        k[i] = max(k.get(i, 0), -e)
            if not k:
                return not q
            i = max(k, key=lambda i: (byid(i).op == 'poly', i))
            a = byid(i)
            nz = not_(eq(a.args[0], const(0, a.args[0].sort))) if a.op == 'i2r' else not_(eq(a, const(0, R)))
            if len(q) > 4000 or not holds(nz):
                return False
            r = const(0, R)
            acc = {}
            for mono, c in q.items():
                e = dict(mono).get(i, 0) + k[i]
                rest = tuple(x for x in mono if x[0] != i)
                x = frompoly({rest: c})
                for _ in range(e):
                    x = rmul(x, a)
                for mm, cc in topoly(x).items():
                    acc[mm] = acc.get(mm, 0) + cc
            p = frompoly(acc)
        return False

    def query(self, pc, goal, facts, timeout, fields=True):
        if fields and goal.op == 'req0' and self.field(pc, goal, facts):
            return Result('proved', 'field arithmetic', 0)
        if bitsum(goal) is TRUE:
            return Result('proved', 'normaliser', 0)
        ts = list(pc) + [goal]
        nlq = nonlinear(ts)
        bitq = has_bitops(ts)
        cmds = []
        txt, L = build(pc, goal, facts, 'int')
        if txt is None:
            return Result('proved', 'normaliser', 0)
        exact = not L.abstract
        texts = {'int': (txt, L)}
        cmds.append(('z3', self.z3(timeout), txt))
        cmds.append(('cvc5', self.cvc5(timeout), txt))
        if 'QF_LIA' in txt[:100]:
            cmds.reverse()
        if nlq:
            t2, L2 = build(pc, goal, facts, 'int', nl=True)
            texts['nl'] = (t2, L2)
            cmds.append(('z3-nl', self.z3(timeout), t2))
        if bitq or (nlq and not has_real(goal)):
            try:
                t3, L3 = build(pc, goal, facts, 'bv')
                texts['bv'] = (t3, L3)
                cmds.append(('z3-bv', self.z3(timeout), t3))
                cmds.append(('cvc5-bv', self.cvc5(timeout), t3))
            except ValueError:
                pass
        best = None
        rem_ = list(cmds)
        # a 'sat' from an abstracted encoding is not decisive while an exact one is still running
        r = self.race(rem_, timeout, texts)
        if r[0] == 'unsat':
            return Result('proved', r[1].split('-')[0], 0)
        if r[0] == 'sat':
            key = {'z3-nl': 'nl', 'z3-bv': 'bv', 'cvc5-bv': 'bv'}.get(r[1], 'int')
            return Result('refuted', r[1], 0, exact=not texts[key][1].abstract, text=texts[key])
        return Result('unknown', None, 0, exact=False, text=texts.get('nl') or texts['int'])

    def race(self, cmds, timeout, texts):
        procs = []
        timeout *= slow()
        t0 = time.time()
        paths = {}
        waiting = list(cmds)

        def start():
            label, argv, txt = waiting.pop(0)
            if id(txt) not in paths:
                fd, path = tempfile.mkstemp(suffix='.smt2', dir=self.tmp)
                with os.fdopen(fd, 'w') as f:
                    f.write(txt + '\n(check-sat)\n')
                paths[id(txt)] = path
            p = subprocess.Popen(argv + [paths[id(txt)]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            procs.append((label, p))
            pending.append((label, p))
        cand = None
        pending = []
        try:
            delay = 0.001
            while (pending or waiting) and time.time() - t0 < timeout + 1:
                # most queries are decided at once by the first solver; the others join when it takes longer
                if waiting and (not pending or (time.time() - t0 > STAGGER * len(procs))):
                    start()
                    if time.time() - t0 > STAGGER * len(procs):
                        continue
                for q in list(pending):
                    if q[1].poll() is None:
                        continue
                    out = q[1].stdout.read()
                    pending.remove(q)
                    first = out.strip().split('\n')[0].strip() if out.strip() else ''
                    if '(error' in out and os.environ.get('VP_DEBUG'):
                        print('solver error', q[0], out[:800])
                        open('/tmp/err.smt2', 'w').write(cmds[[c[0] for c in cmds].index(q[0])][2])
                    if first == 'unsat':
                        return ('unsat', q[0])
                    if first == 'sat':
                        key = {'z3-nl': 'nl', 'z3-bv': 'bv', 'cvc5-bv': 'bv'}.get(q[0], 'int')
                        if not texts[key][1].abstract:
                            return ('sat', q[0])
                        if cand is None:
                            cand = ('sat', q[0])
                            # give the exact encodings a little longer
                            timeout = min(timeout, time.time() - t0 + (6.0 if any(not texts[{'z3-nl': 'nl', 'z3-bv': 'bv', 'cvc5-bv': 'bv'}.get(x[0], 'int')][1].abstract or x[0] in ('z3-nl', 'z3-bv', 'cvc5-bv') for x in pending + waiting) else 0.5))
                time.sleep(delay)
                delay = min(0.02, delay * 1.5)
        finally:
            for q in procs:
                if q[1].poll() is None:
                    q[1].kill()
                    q[1].wait()
                q[1].stdout.close()
            for p in paths.values():
                os.unlink(p)
        return cand or ('unknown', None)

    # -------------------------------------------------------------- models
    def sat(self, pc, facts, timeout=None):
        """is the path condition satisfiable (cover)?  'sat' | 'unsat' | 'unknown'"""
        timeout = timeout or self.timeout
        lits = simp_pc(pc)
        if lits is None:
            return 'unsat'
        if not lits:
            return 'sat'
        nlq = nonlinear(lits)
        txt, L = build(lits, FALSE, facts, 'int', nl=nlq)
        texts = {'int': (txt, L)}
        cmds = [('z3', self.z3(timeout), txt), ('cvc5', self.cvc5(timeout), txt)]
        if has_bitops(lits):
            t3, L3 = build(lits, FALSE, facts, 'bv')
            texts['bv'] = (t3, L3)
            cmds.append(('z3-bv', self.z3(timeout), t3))
        return self.race(cmds, timeout, texts)[0]

    def model(self, pc, goal, facts, terms, timeout=6.0, extra=()):
        """values for `terms` in a model of pc & !goal (candidate counterexample), or None.  dict term id -> python value"""
        ts = list(pc) + [goal]
        bitq = has_bitops(ts)
        for mode, nl in ((('bv', False),) if bitq and not has_real(goal) else ()) + (('int', nonlinear(ts)),):
            try:
                txt, L = build(pc, goal, facts, mode, nl=nl, extra=extra)
                if txt is None:
                    return None
                want = []
                wt = []
                nd = len(L.decls)
                for t in terms:
                    want.append(L.e(t))
                    wt.append(t)
                txt2 = '\n'.join(['(set-option :produce-models true)', '(set-logic ALL)'] + L.decls + L.defs + ['(assert %s)' % a for a in L.axioms] + txt.split('\n')[2 + nd:][-0:] if False else [])
            except ValueError:
                continue
            # rebuild with the extra declarations
            body = [l for l in txt.split('\n') if l.startswith('(assert')]
            ax = set(body)
            lines = ['(set-option :produce-models true)', '(set-logic ALL)'] + L.decls + L.defs
            lines += body + [x for x in ('(assert %s)' % a for a in L.axioms) if x not in ax]
            if not want:
                want = ['true']
            fd, path = tempfile.mkstemp(suffix='.smt2', dir=self.tmp)
            with os.fdopen(fd, 'w') as f:
                f.write('\n'.join(lines) + '\n(check-sat)\n(get-value (%s))\n' % ' '.join(want))
            try:
                out = subprocess.run(self.z3(timeout) + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout + 5).stdout
            except subprocess.TimeoutExpired:
                out = ''
            finally:
                os.unlink(path)
            if not out.startswith('sat') and not out.startswith('unknown'):
                continue
            rest = out.split('\n', 1)[1] if '\n' in out else ''
            try:
                pairs = sexp(rest)
            except IndexError:
                continue
            if not pairs or not isinstance(pairs[0], list):
                continue
            res = {}
            for t, pr in zip(wt, pairs[0]):
                if isinstance(pr, list) and len(pr) == 2:
                    v = val(pr[1])
                    if v is not None:
                        if isinstance(t.sort, tuple):
                            v = norm(int(v), t.sort)
                        res[t.id] = v
            return res
        return None
