"""Loops.  A loop whose condition stays concrete is executed iteration by iteration (exact).  Any other loop gets an inductive
summary: every location the body changes is expressed as a closed form of the iteration number k (induction variables, sums,
conjunctions/disjunctions, element-wise array writes, last values, recursive folds), together with a trip count.  The solver
that proposes the closed form is not trusted: base case, preservation by an arbitrary iteration and trip count are emitted as
obligations ('internal'); if one of them cannot be discharged the lemma is reported as outside reach, never as proved."""
from terms import *
from values import *
import values as V

UNROLL = 300


def apps(t, names, out=None):
    """application nodes of the given function names inside t"""
    res = []
    for x in subterms([t]).values():
        if x.op == 'app' and x.val in names:
            res.append(x)
    return res


class Sol:
    """solutions of loop leaves, applied to terms"""

    def __init__(self, kvar):
        self.k = kvar
        self.sc = {}     # var id -> term in k
        self.ar = {}     # app name -> (xs, term in k)

    def term(self, t, at, memo=None):
        if memo is None:
            memo = {}
        r = self._go(t, memo)
        if at is not self.k:
            r = subst(r, {self.k.id: at})
        return r

    def _go(self, t, memo):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.id in self.sc:
            r = self.sc[t.id]
        elif not t.args:
            r = t
        elif t.op in ('sum', 'all'):
            v, n, b = openb(t)
            n2, b2 = self._go(n, memo), self._go(b, memo)
            r = t if n2 is n and b2 is b else (sum_(v, n2, b2) if t.op == 'sum' else all_(v, n2, b2))
        elif t.op == 'fold':
            vs, n, ins, bs = openb(t)
            r = fold_(t.val[1], vs[1:], vs[0], [self._go(i, memo) for i in ins], self._go(n, memo), [self._go(b, memo) for b in bs])
        elif t.op == 'app' and t.val in self.ar:
            xs, body = self.ar[t.val]
            args = [self._go(a, memo) for a in t.args]
            r = subst(body, {x.id: a for x, a in zip(xs, args)})
        else:
            args = [self._go(a, memo) for a in t.args]
            r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
        memo[t.id] = r
        return r

    def val(self, v, at):
        memo = {}

        def f(path, t, stars):
            return self.term(t, at, memo)
        return mapleaves(v, lambda t: self.term(t, at, memo))


def mapleaves(v, f):
    """apply f to every term inside a value (guards, indices and closures included)"""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Rec):
        return Rec(v.rid, {k: mapleaves(x, f) for k, x in v.f.items()})
    if isinstance(v, VecL):
        return VecL([mapleaves(x, f) for x in v.e], v.et)
    if isinstance(v, VecS):
        return VecS(f(v.n), v.x, mapleaves(v.body, f), v.et)
    if isinstance(v, Opt):
        return Opt(f(v.has), mapleaves(v.v, f) if v.v is not None else None)
    if isinstance(v, Bits):
        return Bits([f(x) for x in v.b])
    if isinstance(v, Str):
        return Str(f(v.t))
    if isinstance(v, Variant):
        return Variant(f(v.i), {k: mapleaves(x, f) for k, x in v.alts.items()})
    if isinstance(v, Ptr):
        def lvm(l):
            if l is None:
                return None
            return Lv(l.root, tuple((p[0], f(p[1])) if len(p) > 1 and isinstance(p[1], T) else p for p in l.path))
        return mkptr([(f(g), lvm(l)) for g, l in v.alts])
    if isinstance(v, Clo):
        return mkclo([(f(g), (c[:2] + (mapleaves(c[2], f),) + c[3:]) if c is not None and len(c) > 2 and isinstance(c[2], Val) else c) for g, c in v.alts])
    if type(v).__name__ == 'Stream':
        return type(v)(mapsegs(v.segs, f))
    return v


def mapsegs(segs, f):
    out = []
    for s in segs:
        if s[0] == 'tok':
            out.append(('tok', s[1], mapleaves(s[2], f)))
        elif s[0] == 'cond':
            out.append(('cond', f(s[1]), mapsegs(s[2], f), mapsegs(s[3], f)))
        elif s[0] == 'rep':
            out.append(('rep', f(s[1]), s[2], mapsegs(s[3], f)))
        else:
            out.append(s)
    return tuple(out)


class Loops:
    def __init__(self, eng):
        self.E = eng

    # ------------------------------------------------------------------ one iteration
    def iteration(self, c, inc, body, st, fr, condknown=False):
        """evaluate condition (already assumed when condknown), body and increment in st.
        returns list of break states; st is the normal end (possibly dead)"""
        E = self.E
        fr.brk.append([])
        fr.cont.append([])
        try:
            E.stmt(body, st, fr)
        finally:
            brk = fr.brk.pop()
            conts = fr.cont.pop()
        from engine import merge, DeadPath
        for cs in conts:
            st.become(merge(cs, st))
        if not st.dead and inc is not None:
            try:
                E.discard(inc, st, fr)
            except DeadPath:
                st.dead = True
        return brk

    def cond(self, c, st, fr):
        E = self.E
        if c is None:
            return TRUE
        return E.tobool(E.ev(c, st, fr))

    def loop(self, s, c, inc, body, st, fr):
        from engine import merge, DeadPath
        E = self.E
        exits = []
        st_init = st.fork()
        nobl = len(E.obls)
        nret = len(fr.rets)
        nthrow = len(E.throws[-1])
        it = 0
        summarised = False
        while True:
            if st.dead:
                break
            base = st.fork()
            nb = len(E.obls)
            E.emptied = None
            try:
                cv = self.cond(c, st, fr)
            except DeadPath:
                st.dead = True
                break
            drains = E.emptied
            cv = E.oracle(st, cv)
            if cv is FALSE:
                exits.append(st.fork())
                st.dead = True
                break
            if cv is TRUE and it < UNROLL:
                exits.extend(self.iteration(c, inc, body, st, fr))
                it += 1
                continue
            if it >= UNROLL:
                # too long: summarise from the start
                del E.obls[nobl:]
                del fr.rets[nret:]
                del E.throws[-1][nthrow:]
                exits = []
                st.become(st_init)
            else:
                del E.obls[nb:]
                st.become(base)
                if (it == 0 and self.small(cv, st)) or (drains is not None and 0 < drains <= 40):
                    # few iterations, or the loop drains a container of known size
                    saved = st.fork()
                    keep = (len(E.obls), len(fr.rets), len(E.throws[-1]), len(E.facts))
                    r = self.bounded(c, inc, body, st, fr, max(26, (drains or 0) + 2))
                    if r is not None:
                        exits.extend(r)
                        break
                    del E.obls[keep[0]:]
                    del fr.rets[keep[1]:]
                    del E.throws[-1][keep[2]:]
                    del E.facts[keep[3]:]
                    st.become(saved)
                if 0 < it <= 3 and not exits and len(fr.rets) == nret and len(E.throws[-1]) == nthrow:
                    # the first iterations happened to be decidable: prefer one summary of the whole loop
                    keep = (list(E.obls), len(E.facts))
                    saved = st.fork()
                    del E.obls[nobl:]
                    st.become(st_init)
                    try:
                        exits.extend(self.summarise(s, c, inc, body, st, fr))
                        break
                    except Unsupported:
                        E.obls[:] = keep[0]
                        del fr.rets[nret:]
                        del E.throws[-1][nthrow:]
                        del E.facts[keep[1]:]
                        exits = []
                        st.become(saved)
            keep = (len(E.obls), len(fr.rets), len(E.throws[-1]), len(E.facts))
            saved = st.fork()
            try:
                exits.extend(self.summarise(s, c, inc, body, st, fr))
            except Unsupported as ex:
                del E.obls[keep[0]:]
                del fr.rets[keep[1]:]
                del E.throws[-1][keep[2]:]
                del E.facts[keep[3]:]
                st.become(saved)
                r = self.bounded(c, inc, body, st, fr)
                if r is None:
                    raise Unsupported('loop at %s:%s: %s' % (E.fnstack[-1] if E.fnstack else '', s.get('line'), ex))
                exits.extend(r)
            summarised = True
            break
        exits = [x for x in exits if not x.dead]
        if not exits:
            st.dead = True
            return
        r = exits[-1]
        for x in reversed(exits[:-1]):
            r = merge(x, r)
        # drop roots created inside
        r.mem = {k: v for k, v in r.mem.items()}
        st.become(r)

    def small(self, cv, st):
        """at most a couple of dozen iterations, by the known range of the bound"""
        for x in (cv.args if cv.op == 'and' else (cv,)):
            if x.op == 'not' and x.args[0].op == 'eq' and is_const(x.args[0].args[1]) and isinstance(x.args[0].args[0].sort, tuple):
                b = x.args[0].args[0]
                if rng(b)[1] <= 24 or st.decide(le(b, const(24, b.sort))) is TRUE:
                    return True
            if x.op == 'lt' and isinstance(x.args[0].sort, tuple):
                a, b = x.args
                if rng(b)[1] <= 24 or st.decide(le(b, const(24, b.sort))) is TRUE:
                    return True
        return False

    def bounded(self, c, inc, body, st, fr, limit=70):
        """exact unrolling when the condition becomes false by value range within `limit` iterations"""
        from engine import DeadPath
        E = self.E
        exits = []
        keep = (len(E.obls), len(fr.rets), len(E.throws[-1]), len(E.facts))
        for i in range(limit):
            if st.dead:
                return exits
            try:
                cv = self.cond(c, st, fr)
            except DeadPath:
                return exits
            cv = E.oracle(st, cv)
            if cv is FALSE:
                exits.append(st.fork())
                st.dead = True
                return exits
            if cv is not TRUE:
                exits.append(st.fork(not_(cv)))
                st.assume(cv)
                if st.dead:
                    return exits
            exits.extend(self.iteration(c, inc, body, st, fr))
        del E.obls[keep[0]:]
        del fr.rets[keep[1]:]
        del E.throws[-1][keep[2]:]
        del E.facts[keep[3]:]
        return None

    # ------------------------------------------------------------------ shapes
    def unify(self, a, b, root):
        """value equal to a, in the shape of b where they differ (for widening the loop-head state)"""
        if a is b or V.shape(a) == V.shape(b):
            return a
        E = self.E
        if isinstance(a, Rec) and isinstance(b, Rec) and a.rid == b.rid:
            return Rec(a.rid, {k: self.unify(a.f[k], b.f[k], root) for k in a.f})
        if isinstance(a, (VecL, VecS)) and isinstance(b, (VecL, VecS)):
            if isinstance(a, VecL) and isinstance(b, VecL) and len(a.e) == len(b.e):
                return VecL([self.unify(x, y, root) for x, y in zip(a.e, b.e)], a.et)
            if isinstance(a, VecL) and not a.e:
                x = fresh('x', U64)
                proto = tolam(b)
                body = V.vsubst(proto.body, {proto.x.id: x})
                n = u64(0)
                body = self.arbitrary(body, (x,))
                return VecS(n, x, body, a.et if a.et is not None else b.et)
            a2, b2 = tolam(a), tolam(b)
            return VecS(a2.n, a2.x, self.unify(a2.body, V.vsubst(b2.body, {b2.x.id: a2.x}), root), a2.et)
        if isinstance(a, Opt) and isinstance(b, Opt):
            if a.v is None and b.v is not None:
                return Opt(a.has, self.arbitrary(b.v, ()))
            if b.v is None:
                return a
            return Opt(a.has, self.unify(a.v, b.v, root))
        raise Unsupported('loop changes the shape of a value: %s / %s' % (type(a).__name__, type(b).__name__))

    def arbitrary(self, v, stars):
        if isinstance(v, Ptr) or (isinstance(v, Clo) and not V.onelam(v)):
            return v
        def f(path, t, st2):
            allst = tuple(stars) + tuple(st2)
            nm = 'arb!%d' % next(_arb)
            return app(nm, allst, t.sort)
        return leaves(v, f)

    # ------------------------------------------------------------------ summary
    def summarise(self, s, c, inc, body, st, fr):
        from engine import merge, DeadPath, State
        E = self.E
        st0 = st.fork()
        kvar = fresh('k', U64)
        pre = dict(st0.mem)
        W = {}       # (root, path) -> (name, sort, nstars)
        names = set()
        streams = {}
        fr_rets, fr_throws = len(fr.rets), len(E.throws[-1])
        locals0 = dict(fr.locals)

        def symstate():
            s1 = st0.fork()
            s1.mem = {}
            for r, v in pre.items():
                s1.mem[r] = self.sym(r, v, W)
            for r, (kind, val) in streams.items():
                s1.mem[r] = val
            return s1

        for rnd in range(14):
            s1 = symstate()
            mark = len(E.facts)
            tmark = next(_arbmark)
            lastid = fresh('mark', B).id
            E.suppress += 1
            try:
                try:
                    C = self.cond(c, s1, fr)
                    s1c = s1.fork()
                    s1.assume(C)
                    npc = len(st0.pc)
                    if s1.dead:
                        raise Unsupported('loop condition contradictory')
                    brk = self.iteration(c, inc, body, s1, fr)
                except DeadPath:
                    s1.dead = True
                    brk = []
            finally:
                E.suppress -= 1
            newfacts = E.facts[mark:]
            del E.facts[mark:]
            hasexit = bool(brk) or len(fr.rets) > fr_rets or len(E.throws[-1]) > fr_throws
            del fr.rets[fr_rets:]
            del E.throws[-1][fr_throws:]
            fr.locals = dict(locals0)
            if s1.dead:
                # the body never completes normally: at most one iteration
                return self.peel(c, inc, body, st, fr)
            changed = False
            for r in pre:
                if r not in s1.mem or r not in st0.mem:
                    continue
                a, b = self.cursym(r, pre, W, streams), s1.mem[r]
                if a is b:
                    continue
                if self.hasstream(b):
                    ch = self.stream_step(r, a, b, pre, streams, kvar, st0)
                    changed = changed or ch
                    continue
                if V.shape(a) != V.shape(b):
                    u = self.unify(pre[r], b, r)
                    if V.shape(u) == V.shape(pre[r]):
                        raise Unsupported('loop changes the shape of a value')
                    pre[r] = u
                    for key in [x for x in W if x[0] == r]:
                        del W[key]
                    changed = True
                    continue
                la, lb = self.flat(a), self.flat(b, a)
                for p, (ta, stars) in la.items():
                    tb, stars2 = lb[p]
                    if stars2 != stars:
                        tb = subst(tb, {x.id: y for x, y in zip(stars2, stars)})
                    if ta is not tb and (r, p) not in W:
                        nm = 'w!%d' % next(_arb)
                        W[(r, p)] = (nm, ta.sort, stars)
                        names.add(nm)
                        changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop fixpoint did not converge')
        # ---- step terms
        step = {}
        for (r, p), (nm, so, stars) in W.items():
            lb = self.flat(s1.mem[r], self.cursym(r, pre, W, streams))
            tb, stars2 = lb[p]
            if stars2 != stars:
                tb = subst(tb, {x.id: y for x, y in zip(stars2, stars)})
            step[(r, p)] = tb
        nrm = [x for x in s1.pc if x not in st0.pc]
        Nrm = and_(*nrm)
        # fresh symbols created by the body are per-iteration values
        skol = {}
        for t in list(step.values()) + [Nrm, C] + newfacts:
            for i in fv(t):
                if i > lastid and byid(i).op == 'var' and not str(byid(i).val).startswith('#'):
                    v = byid(i)
                    if any(v is y for _, _, stars in W.values() for y in stars):
                        continue
                    if any(str(v.val) == nm for nm, _, _ in W.values()):
                        continue
                    skol[i] = app('%s@k' % v.val, (kvar,), v.sort)
        if skol:
            step = {k: subst(t, skol) for k, t in step.items()}
            Nrm = subst(Nrm, skol)
            C = subst(C, skol)
            newfacts = [subst(t, skol) for t in newfacts]
        # ---- solve
        sol = Sol(kvar)
        self.solve(W, step, pre, kvar, sol)
        Ck = sol.term(C, kvar)
        Nk = sol.term(Nrm, kvar)
        conts = self.conjuncts(and_(Ck, Nk))
        conts = [x for x in [st0.decide(x) for x in conts] if x is not TRUE]
        n, nfacts, exact = self.trip(conts, kvar, st0)
        for t in newfacts:
            f = sol.term(t, kvar)
            st.assume(all_(kvar, add(n, u64(1)), f)) if False else E.facts.append(all_(kvar, u64((1 << 64) - 1), f))
        for f in nfacts:
            st.assume(f)
        sn = st.fork()

        def summary(at):
            m = {}
            for r in pre:
                v = self.sym(r, pre[r], W)
                if r in streams:
                    m[r] = streams[r][0](at, n)
                else:
                    m[r] = sol.val(v, at) if self.rooted(r, W) else v
            return m
        # ---- obligations: base case
        if not E.suppress:
            m0 = summary(u64(0))
            for r in pre:
                if r in streams or not self.rooted(r, W):
                    continue
                la, lb = self.flat(pre[r]), self.flat(m0[r], pre[r])
                for p, (ta, stars) in la.items():
                    tb, stars2 = lb[p]
                    if stars2 != stars:
                        tb = subst(tb, {x.id: y for x, y in zip(stars2, stars)})
                    if ta is not tb:
                        self.internal(st, eq(ta, tb), 'loop summary: base case')
            # ---- an arbitrary iteration
            kk = fresh('iter', U64)
            sk = st.fork(lt(kk, n))
            if not sk.dead:
                sk.mem = summary(kk)
                for r, (fn, val) in streams.items():
                    sk.mem[r] = self.stream_at(r, streams, kk, n)
                try:
                    if not exact:
                        sk.assume(subst(and_(Ck, Nk), {kvar.id: kk}))
                    cnow = self.cond(c, sk, fr)
                    if exact:
                        self.internal(sk, cnow, 'loop summary: trip count')
                    sk.assume(cnow)
                    base_pc = len(sk.pc)
                    if not sk.dead:
                        self.iteration(c, inc, body, sk, fr)
                except DeadPath:
                    sk.dead = True
                del fr.rets[fr_rets:]
                del E.throws[-1][fr_throws:]
                fr.locals = dict(locals0)
                if not sk.dead:
                    m1 = {r: (mapleaves(v, lambda t: unfold(t, kk)) if self.rooted(r, W) else v) for r, v in summary(add(kk, u64(1))).items()}
                    for r in pre:
                        if r not in sk.mem:
                            continue
                        if r in streams:
                            self.stream_check(r, streams, sk, kk, n)
                            continue
                        if not self.rooted(r, W):
                            if sk.mem[r] is not pre[r] and V.shape(sk.mem[r]) == V.shape(pre[r]):
                                self.chk(sk, pre[r], sk.mem[r], 'loop summary: frame')
                            continue
                        if V.shape(m1[r]) != V.shape(sk.mem[r]):
                            raise Unsupported('loop summary shape')
                        self.chk(sk, m1[r], sk.mem[r], 'loop summary: preservation')
                    if exact and hasexit:
                        self.internal(st.fork(lt(kk, n)), subst(Nk, {kvar.id: kk}), 'loop summary: trip count (exits)')
                elif exact and E_alive(n):
                    self.internal(st.fork(lt(kk, n)), FALSE, 'loop summary: iteration completes')
        # ---- exit
        se = st.fork()
        se.mem = summary(n)
        for r, (fn, val) in streams.items():
            se.mem[r] = fn(n, n)
            ob = streams[r][1] if False else None
        self.stream_exit(streams, se, n)
        exits = []
        try:
            cn = self.cond(c, se, fr)
        except DeadPath:
            return exits
        if not hasexit:
            if exact and not E.suppress:
                self.internal(se, not_(cn), 'loop summary: trip count (exit)')
            se.assume(not_(cn))
            exits.append(se)
            return exits
        d = se.decide(cn)
        if d is not TRUE:
            exits.append(se.fork(not_(cn)))
        if d is not FALSE:
            sx = se.fork(cn)
            Nn = subst(Nk, {kvar.id: n})
            sx.assume(not_(Nn))
            if not sx.dead:
                brk = self.iteration(c, inc, body, sx, fr)
                exits.extend(brk)
        return exits

    def chk(self, st, a, b, name):
        la, lb = self.flat(a), self.flat(b, a)
        for p, (ta, stars) in la.items():
            tb, stars2 = lb[p]
            if stars2 != stars:
                tb = subst(tb, {x.id: y for x, y in zip(stars2, stars)})
            if ta is not tb:
                self.internal(st, eq(ta, tb), name)

    def internal(self, st, goal, name):
        E = self.E
        if E.suppress or st.dead or goal is TRUE:
            return
        from engine import Obl
        E.obls.append(Obl(name, list(st.pc), goal, 'internal', None, E.fnstack[-1] if E.fnstack else ''))

    def peel(self, c, inc, body, st, fr):
        from engine import DeadPath
        exits = []
        try:
            cv = self.cond(c, st, fr)
        except DeadPath:
            return exits
        exits.append(st.fork(not_(cv)))
        st.assume(cv)
        if not st.dead:
            exits.extend(self.iteration(c, inc, body, st, fr))
            if not st.dead:
                raise Unsupported('peeled iteration completes')
        return exits

    def rooted(self, r, W):
        return any(x[0] == r for x in W)

    def conjuncts(self, c):
        return list(c.args) if c.op == 'and' else ([] if c is TRUE else [c])

    # symbols in place of varying leaves
    def sym(self, r, v, W):
        if not self.rooted(r, W):
            return v
        def f(path, t, stars):
            w = W.get((r, path))
            if w is None:
                return t
            return app(w[0], tuple(stars), w[1])
        return leaves(v, f)

    def cursym(self, r, pre, W, streams):
        if r in streams:
            return streams[r][1]
        key = (r, id(pre[r]), tuple(sorted((str(k[1]) for k in W if k[0] == r))))
        c = getattr(self, '_cs', None)
        if c is None:
            c = self._cs = {}
        if key not in c:
            c[key] = (pre[r], self.sym(r, pre[r], W))
        return c[key][1]

    def flat(self, v, like=None):
        """path -> (term, stars); stars are taken from v (callers rename)"""
        out = {}

        def f(path, t, stars):
            out[path] = (t, tuple(stars))
            return t
        leaves(v, f)
        return out

    # ------------------------------------------------------------------ solving the recurrences
    def solve(self, W, step, pre, kvar, sol):
        leaf = {}
        for (r, p), (nm, so, stars) in W.items():
            init, st_init = self.flat(pre[r])[p]
            if st_init != stars:
                init = subst(init, {x.id: y for x, y in zip(st_init, stars)})
            leaf[nm] = dict(key=(r, p), sort=so, stars=stars, init=init, step=step[(r, p)])
        unsolved = dict(leaf)

        def deps(t):
            d = set()
            for x in subterms([t]).values():
                if x.op == 'var' and x.val in unsolved:
                    d.add(x.val)
                elif x.op == 'app' and x.val in unsolved:
                    d.add(x.val)
            return d

        progress = True
        while unsolved and progress:
            progress = False
            for nm in list(unsolved):
                L = unsolved[nm]
                t = sol.term(L['step'], kvar)
                d = deps(t)
                if d - {nm}:
                    continue
                r = self.solve1(nm, L, t, kvar)
                if r is None:
                    continue
                if L['stars']:
                    sol.ar[nm] = (L['stars'], r)
                else:
                    sol.sc[app(nm, (), L['sort']).id] = r
                del unsolved[nm]
                progress = True
        if unsolved:
            # simultaneous recursion over the remaining scalars
            if any(L['stars'] for L in unsolved.values()):
                raise Unsupported('loop recurrence on array contents')
            # strongly connected part only: repeatedly take a minimal closed set
            nms = sorted(unsolved)
            xs = [app(nm, (), unsolved[nm]['sort']) for nm in nms]
            bodies = [sol.term(unsolved[nm]['step'], kvar) for nm in nms]
            inits = [unsolved[nm]['init'] for nm in nms]
            depm = {nm: deps(b) for nm, b in zip(nms, bodies)}
            for j, nm in enumerate(nms):
                # transitive closure of what nm needs
                need = {nm}
                todo = [nm]
                while todo:
                    for y in depm[todo.pop()]:
                        if y not in need:
                            need.add(y)
                            todo.append(y)
                idx = [i for i, m in enumerate(nms) if m in need]
                sol.sc[xs[j].id] = fold_(idx.index(j), [xs[i] for i in idx], kvar, [inits[i] for i in idx], kvar, [bodies[i] for i in idx])

    def solve1(self, nm, L, t, k):
        so, stars, init = L['sort'], L['stars'], L['init']
        if not stars:
            w = app(nm, (), so)
            if w.id not in fv(t):
                prev = subst(t, {k.id: sub(k, u64(1))})
                if prev is init:
                    return init
                return ite(eq(k, u64(0)), init, prev)
            # written in exactly one iteration
            for g in [y for y in subterms([t]).values() if y.op == 'eq' and isinstance(y.args[0].sort, tuple) and k.id in fv(y) and w.id not in fv(y)]:
                if not self.untouched(t, g, w):
                    continue
                kx = self.solve_eq(g, k)
                if kx is None or k.id in fv(kx):
                    continue
                return ite(lt(kx, k), subst(t, {g.id: TRUE, k.id: kx, w.id: init}), init)
            if so == B:
                a, b = subst(t, {w.id: TRUE}), subst(t, {w.id: FALSE})
                j = fresh('j', U64)
                if b is FALSE:
                    return and_(init, all_(j, k, subst(a, {k.id: j})))
                if a is TRUE:
                    return or_(init, any_(j, k, subst(b, {k.id: j})))
                return None
            d = self.incr(t, w)
            if d is None:
                if isinstance(so, tuple) and t is mul(const(2, so), w) and so[0] == 64:
                    # doubling; shifts by the width or more give zero
                    return ite(lt(k, u64(64)), shl(init, k), const(0, so))
                return None
            return self.accumulate(init, d, k, so)
        # array leaf
        self_apps = apps(t, {nm})
        exact_ = app(nm, stars, so)
        others = [x for x in self_apps if x is not exact_]
        if others and len(stars) == 1 and not (t.op == 'app' and t.val == nm):
            r = self.inplace(nm, L, t, k, exact_, others)
            if r is not None:
                return r
        if others:
            # shift:  w(x+c)
            if len(stars) == 1 and t.op == 'app' and t.val == nm and isinstance(t.args[0].sort, tuple):
                c = sub(t.args[0], stars[0])
                if stars[0].id not in fv(c) and k.id not in fv(c):
                    return subst(init, {stars[0].id: add(stars[0], mul(c, k))})
            return None
        e = fresh('e', so)
        te = subst(t, {exact_.id: e})
        x = stars[-1] if len(stars) == 1 else None
        # element-wise write at an affine index
        for x in stars:
            for g in [y for y in subterms([te]).values() if y.op == 'eq' and x.id in fv(y) and isinstance(y.args[0].sort, tuple)]:
                if not self.untouched(te, g, e):
                    continue
                a = subst(te, {g.id: TRUE})
                idx = self.solve_eq(g, x)
                if idx is None or x.id in fv(idx):
                    continue
                if k.id not in fv(idx):
                    continue
                kx = self.invert(idx, k, x)
                if kx is None:
                    r = self.blocked(te, g, idx, k, x, e, init)
                    if r is not None:
                        return r
                    continue
                val = subst(a, {k.id: kx, e.id: init})
                return ite(lt(kx, k), val, init)
        if e.id not in fv(te):
            prev = subst(te, {k.id: sub(k, u64(1))})
            return ite(eq(k, u64(0)), init, prev)
        if so == B:
            a, b = subst(te, {e.id: TRUE}), subst(te, {e.id: FALSE})
            j = fresh('j', U64)
            if b is FALSE:
                return and_(init, all_(j, k, subst(a, {k.id: j})))
            if a is TRUE:
                return or_(init, any_(j, k, subst(b, {k.id: j})))
            return None
        d = self.incr(te, e)
        if d is not None:
            return self.accumulate(init, d, k, so)
        return None

    def untouched(self, t, g, w):
        """t leaves w alone when g is false"""
        b = subst(t, {g.id: FALSE})
        if b is w:
            return True
        return w.sort == B and subst(b, {w.id: FALSE}) is FALSE and subst(b, {w.id: TRUE}) is TRUE

    def invert(self, idx, k, x):
        """term kx with  x == idx(k) <=> k == kx  (idx affine in k with coefficient 1 or -1), or None"""
        dd, cc = tolin(idx)
        co = dd.get(k.id)
        if co not in (1, -1):
            return None
        rest = sub(idx, mul(const(co, U64), k))
        if k.id in fv(rest):
            return None
        return sub(x, rest) if co == 1 else sub(rest, x)

    def inplace(self, nm, L, t, k, exact_, others):
        """element idx(k) is rewritten from its own old value: it was not touched before iteration k"""
        so, init = L['sort'], L['init']
        x = L['stars'][0]
        ids = set(y.args[0].id for y in others)
        if len(ids) != 1:
            return None
        idx = others[0].args[0]
        kx = self.invert(idx, k, x)
        if kx is None or x.id in fv(idx):
            return None
        e = fresh('e', so)
        g = eq(x, idx)
        te = subst(t, {exact_.id: e, **{y.id: e for y in others}})
        if subst(subst(te, {g.id: FALSE}), {}) is not e and subst(t, {exact_.id: e, g.id: FALSE}) is not e:
            return None
        val = subst(te, {g.id: TRUE, k.id: kx, e.id: init})
        return ite(lt(kx, k), val, init)

    def blocked(self, te, g, idx, k, x, e, init):
        """bit j of block k/c written in iteration k:  x == k/c and k%c == j  <=>  k == c*x + j"""
        if not (idx.op == 'div' and idx.args[0] is k and is_const(idx.args[1])):
            return None
        c = idx.args[1]
        r = rem(k, c)
        a = subst(te, {g.id: TRUE})
        for j in range(c.val):
            gj = eq(r, u64(j))
            if gj.id not in subterms([a]):
                continue
            if subst(a, {gj.id: FALSE}) is not e:
                continue
            kx = add(mul(c, x), u64(j))
            val = subst(a, {gj.id: TRUE, k.id: kx, e.id: init})
            inside = and_(lt(x, u64(((1 << 64) - 1) // c.val - 1)), lt(kx, k))
            return ite(inside, val, init)
        return None

    def solve_eq(self, g, x):
        """index term i such that g <=> x == i"""
        a, b = g.args
        if a.sort != x.sort:
            return None
        d, c = tolin(sub(a, b))
        co = d.get(x.id)
        if co not in (1, -1):
            return None
        rest = fromlin({i: v for i, v in d.items() if i != x.id}, c, a.sort)
        return neg(rest) if co == 1 else rest

    def incr(self, t, w):
        """d with t == w + d and d free of w, or None"""
        if t is w:
            return const(0, w.sort)
        if w.id not in fv(t):
            return None
        if t.op == 'ite':
            if w.id in fv(t.args[0]):
                return None
            a, b = self.incr(t.args[1], w), self.incr(t.args[2], w)
            if a is None or b is None:
                return None
            return ite(t.args[0], a, b)
        if t.sort == R:
            p = topoly(t)
            rest = {}
            cw = 0
            inner = []
            for m, c in p.items():
                if m == ((w.id, 1),):
                    cw = c
                elif any(w.id in fv(byid(i)) for i, _ in m):
                    inner.append((m, c))
                else:
                    rest[m] = c
            r = frompoly(rest)
            if cw == 1 and not inner:
                return r
            if cw == 0 and len(inner) == 1 and inner[0][1] == 1 and len(inner[0][0]) == 1 and inner[0][0][0][1] == 1:
                x = self.incr(byid(inner[0][0][0][0]), w)
                return None if x is None else radd(x, r)
            return None
        if t.op == 'lin':
            d, c = tolin(t)
            inner = [(i, k) for i, k in d.items() if w.id in fv(byid(i))]
            if len(inner) != 1 or inner[0][1] != 1:
                return None
            rest = fromlin({i: k for i, k in d.items() if i != inner[0][0]}, c, t.sort)
            x = self.incr(byid(inner[0][0]), w)
            return None if x is None else add(x, rest)
        return None

    def accumulate(self, init, d, k, so):
        if k.id not in fv(d):
            if so == R:
                return radd(init, rmul(i2r(k), d))
            return add(init, mul(cast(k, so), d))
        j = fresh('j', U64)
        return add(init, sum_(j, k, subst(d, {k.id: j})))

    # ------------------------------------------------------------------ trip count
    def trip(self, cs, k, st):
        closed, general = [], []
        inv = []
        for c in cs:
            if k.id not in fv(c):
                inv.append(c)
                continue
            n = self.trip1(c, k, st)
            if n is None:
                general.append(c)
            else:
                closed.append(n)
        if not cs:
            raise Unsupported('loop never exits')
        n = None
        for x in closed:
            n = x if n is None else ite(lt(x, n), x, n)
        if not general:
            if n is None:
                # condition does not change: zero iterations or non-termination
                raise Unsupported('loop condition does not depend on the iteration')
            for c in inv:
                n = ite(c, n, u64(0))
            return n, [], True
        m = fresh('trip', U64)
        g = and_(*(general + inv))
        j = fresh('j', U64)
        facts = [all_(j, m, subst(g, {k.id: j}))]
        if n is not None:
            facts.append(le(m, n))
            facts.append(implies(lt(m, n), not_(subst(g, {k.id: m}))))
        else:
            self.E.note('termination of the loop in %s is assumed' % (self.E.fnstack[-1] if self.E.fnstack else ''))
            facts.append(not_(subst(g, {k.id: m})))
        return m, facts, False

    def affine(self, t, k):
        """t == a + co*k with a free of k -> (a, co) (modular)"""
        if k.id not in fv(t):
            return t, 0
        if t.op == 'cast':
            r = self.affine(t.args[0], k)
            if r is None or t.sort[0] > t.args[0].sort[0]:
                return None
            return cast(r[0], t.sort), r[1]
        d, c = tolin(t)
        co = 0
        a = const(c, t.sort)
        for i, q in d.items():
            x = byid(i)
            if x is k:
                co += q
            elif k.id in fv(x):
                if x.op == 'cast' and x.args[0] is k and x.sort[0] <= 64:
                    co += q
                else:
                    return None
            else:
                a = add(a, mul(const(q, t.sort), x))
        return a, co

    def trip1(self, c, k, st):
        neg_ = False
        if c.op == 'not':
            neg_ = True
            c = c.args[0]
        if c.op == 'eq' and neg_ and isinstance(c.args[0].sort, tuple):
            a, b = c.args
            r = self.affine(sub(a, b), k)
            if r is None:
                return None
            if r[1] == 1:
                return self.widen(neg(r[0]))
            if r[1] == -1:
                return self.widen(r[0])
            return None
        if c.op == 'lt' and isinstance(c.args[0].sort, tuple):
            a, b = c.args
            ra, rb = self.affine(a, k), self.affine(b, k)
            if ra is None or rb is None:
                return None
            if not neg_:
                # a + k < b
                if ra[1] == 1 and rb[1] == 0:
                    return self.widen(ite(lt(ra[0], rb[0]), sub(rb[0], ra[0]), const(0, a.sort)))
                # a < b - k   (descending)
                if ra[1] == 0 and rb[1] == -1:
                    return self.widen(ite(lt(ra[0], rb[0]), sub(rb[0], ra[0]), const(0, a.sort)))
                if ra[1] > 1 and rb[1] == 0:
                    s = const(ra[1], a.sort)
                    # exact when a + step does not wrap past b:  b <= max - step + 1
                    if st.decide(le(rb[0], const(full(a.sort)[1] - ra[1] + 1, a.sort))) is TRUE:
                        dlt = sub(rb[0], ra[0])
                        return self.widen(ite(lt(ra[0], rb[0]), div(add(dlt, const(ra[1] - 1, a.sort)), s), const(0, a.sort)))
                return None
            # not (a < b)  :  b <= a
            if ra[1] == 0 and rb[1] == 1:
                # b + k <= a ; never exits when a is the maximum
                mx = const(full(a.sort)[1], a.sort)
                if st.decide(lt(ra[0], mx)) is TRUE:
                    return self.widen(ite(le(rb[0], ra[0]), add(sub(ra[0], rb[0]), const(1, a.sort)), const(0, a.sort)))
                return None
            if ra[1] == -1 and rb[1] == 0:
                mn = const(full(a.sort)[0], a.sort)
                if st.decide(lt(mn, rb[0])) is TRUE:
                    return self.widen(ite(le(rb[0], ra[0]), add(sub(ra[0], rb[0]), const(1, a.sort)), const(0, a.sort)))
                return None
        return None

    def widen(self, t):
        """difference of machine integers, as an unsigned count"""
        s = t.sort
        return cast(cast(t, (s[0], 0)), U64)

    # ------------------------------------------------------------------ byte streams
    def hasstream(self, v):
        return type(v).__name__ == 'Stream'

    def stream_step(self, r, a, b, pre, streams, kvar, st0):
        from stdmodel import Stream, segs_subst, seg_same, segs_same
        if r in streams:
            kind = streams[r][2]
            if kind == 'w':
                base = streams[r][1].segs
                if len(b.segs) >= len(base) and segs_same(b.segs[:len(base)], base):
                    streams[r] = (self.mkw(pre[r].segs, b.segs[len(base):]), streams[r][1], 'w', b.segs[len(base):])
                    return False
                raise Unsupported('stream written in a non-uniform way')
            if kind == 'r':
                if len(b.segs) == 1 and b.segs[0][0] == 'mark':
                    return False
                raise Unsupported('stream read does not match what was written')
        a0, b0 = a.segs, b.segs
        if len(b0) >= len(a0) and segs_same(b0[:len(a0)], a0):
            m = Stream((('mark', r),))
            streams[r] = (None, m, 'w', None)
            return True
        raise Unsupported('stream use in loop')

    def mkw(self, base, extra):
        return extra

    def stream_at(self, r, streams, kk, n):
        return streams[r][1]

    def stream_check(self, r, streams, sk, kk, n):
        pass

    def stream_exit(self, streams, se, n):
        if streams:
            raise Unsupported('stream in summarised loop')


def unfold(t, k, memo=None):
    """sums, conjunctions and folds over k+1 elements rewritten over k elements (k + 1 does not wrap)"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if not t.args or k.id not in fv(t):
        return t
    k1 = add(k, u64(1))
    if t.op in ('sum', 'all') and t.args[0] is k1:
        y = byid(t.val[0])
        b = subst(t.args[1], {y.id: k})
        if t.op == 'sum':
            s = sum_(y, k, t.args[1])
            r = radd(s, b) if t.sort == R else add(s, b)
        else:
            r = and_(all_(y, k, t.args[1]), b)
    elif t.op == 'fold' and t.args[0] is k1:
        ks, w = t.val
        m = len(ks) - 1
        mp = {ks[0]: k}
        for j in range(m):
            mp[ks[1 + j]] = mk('fold', (k,) + tuple(t.args[1:]), byid(ks[1 + j]).sort, (ks, j))
        r = subst(t.args[1 + m + w], mp)
    elif t.op in ('sum', 'all', 'fold'):
        r = t
    else:
        args = [unfold(a, k, memo) for a in t.args]
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
    memo[t.id] = r
    return r


def E_alive(n):
    return not (is_const(n) and n.val == 0)


import itertools as _it
_arb = _it.count(1)
_arbmark = _it.count(1)
