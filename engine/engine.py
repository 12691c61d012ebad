"""Deductive engine: executes the extracted typed AST symbolically, generating verification conditions.

Every lemma is a C++ function over the real code; its `requires` become hypotheses, its `ensures` (and safety conditions of
the code it runs: indices in range, engaged optionals, no signed overflow, asserts) become obligations.  Loops whose trip
count is not a literal get an inductive summary which is itself emitted as obligations (see loops.py).
"""
import json, re, sys
from terms import *
from values import *
import values as V

sys.setrecursionlimit(100000)


class State:
    __slots__ = ('mem', 'pc', 'dead')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.dead = False

    def fork(self, c=TRUE):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.dead = self.dead
        s.assume(c)
        return s

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            self.dead = True
            return
        if c.op == 'and':
            for a in c.args:
                self.assume(a)
            return
        for p in self.pc:
            if p is c:
                return
            if p is not_(c):
                self.dead = True
                return
        self.pc.append(c)

    def become(self, o):
        self.mem = o.mem
        self.pc = o.pc
        self.dead = o.dead

    def decide(self, c):
        """simplify c under the literals of the path condition"""
        if c is TRUE or c is FALSE:
            return c
        m = {}
        for p in self.pc:
            if p is c:
                return TRUE
            if p.op == 'not' and p.args[0] is c:
                return FALSE
        if c.op == 'not':
            r = self.decide(c.args[0])
            return not_(r) if r is TRUE or r is FALSE else c
        if c.op == 'and':
            r = [self.decide(a) for a in c.args]
            return and_(*r)
        if c.op == 'or':
            r = [self.decide(a) for a in c.args]
            return or_(*r)
        # range facts:  x < const / const < x / x == const in the path condition
        return self.decide_range(c)

    def bounds(self, t):
        lo, hi = rng(t)
        for p in self.pc:
            q, pos = (p.args[0], False) if p.op == 'not' else (p, True)
            if q.op == 'lt':
                a, b = q.args
                if a is t and is_const(b):
                    if pos:
                        hi = min(hi, b.val - 1)
                    else:
                        lo = max(lo, b.val)
                elif b is t and is_const(a):
                    if pos:
                        lo = max(lo, a.val + 1)
                    else:
                        hi = min(hi, a.val)
            elif q.op == 'eq' and pos:
                a, b = q.args
                if a is t and is_const(b):
                    lo = hi = b.val
                elif b is t and is_const(a):
                    lo = hi = a.val
            elif q.op == 'eq' and not pos:
                a, b = q.args
                if a is t and is_const(b) and b.val == lo:
                    lo += 1
        return lo, hi

    def decide_range(self, c):
        if c.op in ('lt', 'eq') and isinstance(c.args[0].sort, tuple):
            a, b = c.args
            ba = self.bounds(a) if not is_const(a) else (a.val, a.val)
            bb = self.bounds(b) if not is_const(b) else (b.val, b.val)
            if c.op == 'lt':
                if ba[1] < bb[0]:
                    return TRUE
                if ba[0] >= bb[1]:
                    return FALSE
            else:
                if ba[1] < bb[0] or bb[1] < ba[0]:
                    return FALSE
                if ba[0] == ba[1] == bb[0] == bb[1]:
                    return TRUE
        return c


def merge(a, b):
    """merge two states (paths from a common fork)"""
    if a.dead:
        return b
    if b.dead:
        return a
    n = 0
    m = min(len(a.pc), len(b.pc))
    while n < m and a.pc[n] is b.pc[n]:
        n += 1
    ca = and_(*a.pc[n:])
    cb = and_(*b.pc[n:])
    # sharper discriminator
    d = None
    for x in a.pc[n:]:
        if not_(x) in b.pc[n:]:
            d = x
            break
    sel = d if d is not None else ca
    s = State()
    s.pc = a.pc[:n]
    mem = {}
    for r, va in a.mem.items():
        vb = b.mem.get(r)
        if vb is None:
            mem[r] = va
        elif va is vb:
            mem[r] = va
        else:
            mem[r] = V.vite(sel, va, vb)
    for r, vb in b.mem.items():
        if r not in mem:
            mem[r] = vb
    s.mem = mem
    s.assume(or_(ca, cb))
    return s


class Frame:
    def __init__(self, fn, this=None, parent=None):
        self.fn = fn
        self.this = this
        self.locals = {}
        self.rets = []
        self.brk = []
        self.cont = []
        self.refs = {}
        self.retref = False


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'loc', 'fn', 'lemma', 'inputs')

    def __init__(self, name, pc, goal, kind, loc, fn):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.kind = kind
        self.loc = loc
        self.fn = fn


class ThrowRec:
    def __init__(self, st, rid, val, what=None):
        self.st = st
        self.rid = rid
        self.val = val
        self.what = what


class Engine:
    def __init__(self, dump, opts=None):
        self.d = dump
        self.types = dump['types']
        self.recs = dump['records']
        self.fns = dump['functions']
        self.globs = dump['globals']
        self.opts = opts or {}
        self.nroot = 0
        self.obls = []
        self.suppress = 0
        self.emptied = None
        self.solver = None            # set by the driver: decides conditions of lemmas that distinguish cases
        self.choices = []
        self.runs = 0
        self.asked = {}
        self.askif = False
        self.throws = []          # stack of lists of ThrowRec
        self.depth = 0
        self.fnstack = []
        self.executed = set()
        self.contracts = {}       # fid -> contract fid
        self.contract_used = set()
        self.stdused = set()
        self.inputs = []          # (name, type, value) of lemma inputs
        self.facts = []           # global facts about inputs (well-formedness by type)
        self.globroot = {}
        self.strtab = {}
        self.loopinfo = []
        self.notes = []
        self.fresh_names = {}
        self.covers = []
        self.trace = self.opts.get('trace')
        self.noinline_contract = set()
        import stdmodel
        self.std = stdmodel.StdModel(self)
        import loops
        self.loops = loops.Loops(self)

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def sort(self, ti):
        t = self.types[ti]
        k = t['k']
        if k == 'bool':
            return B
        if k == 'int':
            return (t['w'], 1 if t['s'] else 0)
        if k == 'enum':
            u = self.types[t['u']]
            if u['k'] == 'bool':
                return B
            return (t['w'], 1 if t['s'] else 0)
        if k == 'float':
            return R
        raise Unsupported('sort of %r' % (t,))

    def strip(self, ti):
        t = self.types[ti]
        while t['k'] in ('ref', 'rref'):
            ti = t['t']
            t = self.types[ti]
        return ti

    def isref(self, ti):
        return self.types[ti]['k'] in ('ref', 'rref')

    def rec_of(self, ti):
        t = self.types[ti]
        if t['k'] == 'rec':
            return self.recs[t['id']]
        return None

    def newroot(self, st, v):
        self.nroot += 1
        r = self.nroot
        st.mem[r] = v
        return r

    # ------------------------------------------------------------------ generating values of a type
    def zero(self, ti):
        t = self.types[ti]
        k = t['k']
        if k in ('bool', 'int', 'enum', 'float'):
            return const(0, self.sort(ti))
        if k in ('ptr', 'nullptr'):
            return NULL
        if k == 'rec':
            r = self.recs[t['id']]
            if r['std']:
                return self.std.default(t['id'], r)
            f = {}
            for b in r['bases']:
                f['@' + self.types[b['t']]['id']] = self.zero(b['t'])
            for x in r['fields']:
                f[x['n']] = self.zero(x['t']) if not self.isref(x['t']) else NULL
            return Rec(t['id'], f)
        if k == 'arr':
            return VecL([self.zero(t['t']) for _ in range(t['len'])], t['t'])
        if k == 'memptr':
            return Opaque('memptr0')
        if k == 'void':
            return VOID
        raise Unsupported('zero of %r' % (t,))

    def havoc(self, ti, name, stars=(), old=None, inp=None):
        """an arbitrary value of the type.  stars: index terms for elements of symbolic sequences"""
        t = self.types[ti]
        k = t['k']
        if k in ('bool', 'int', 'enum', 'float'):
            s = self.sort(ti)
            v = app(name, stars, s)
            if k == 'enum' and self.opts.get('enumrange', True):
                vals = [x[1] for x in t['vals']]
                if vals:
                    self.addfact(and_(le(const(min(vals), s), v), le(v, const(max(vals), s))), stars)
            return v
        if k == 'rec':
            r = self.recs[t['id']]
            if r['std']:
                return self.std.havoc(t['id'], r, name, stars, old)
            f = {}
            for b in r['bases']:
                bn = '@' + self.types[b['t']]['id']
                f[bn] = self.havoc(b['t'], name, stars, old.f.get(bn) if isinstance(old, Rec) else None)
            for x in r['fields']:
                o = old.f.get(x['n']) if isinstance(old, Rec) else None
                if self.isref(x['t']) or self.types[x['t']]['k'] in ('ptr',):
                    f[x['n']] = o if o is not None else NULL
                else:
                    f[x['n']] = self.havoc(x['t'], name + '.' + x['n'], stars, o)
            return Rec(t['id'], f)
        if k == 'arr':
            return VecL([self.havoc(t['t'], '%s[%d]' % (name, i), stars, old.e[i] if isinstance(old, VecL) else None) for i in range(t['len'])], t['t'])
        if k in ('ptr', 'memptr', 'nullptr'):
            return old if old is not None else NULL
        raise Unsupported('havoc of %r' % (t,))

    def addfact(self, c, stars):
        if c is TRUE:
            return
        for s in stars:
            if s.op != 'var':
                return
        for s in reversed(stars):
            # for every index (facts about arrays hold for all indices)
            c = all_(s, u64((1 << 64) - 1), c)
        self.facts.append(c)

    def uninit(self, ti, name):
        """value of an uninitialised variable: arbitrary"""
        t = self.types[ti]
        if t['k'] in ('bool', 'int', 'enum', 'float'):
            return fresh('uninit.' + name, self.sort(ti))
        if t['k'] == 'arr':
            return VecL([self.uninit(t['t'], name) for _ in range(t['len'])], t['t'])
        if t['k'] == 'ptr':
            return NULL
        if t['k'] == 'rec':
            r = self.recs[t['id']]
            if r['std']:
                return self.std.default(t['id'], r)
            f = {}
            for b in r['bases']:
                f['@' + self.types[b['t']]['id']] = self.uninit(b['t'], name)
            for x in r['fields']:
                f[x['n']] = self.uninit(x['t'], name + '.' + x['n'])
            return Rec(t['id'], f)
        if t['k'] in ('ref', 'rref'):
            return NULL
        return self.zero(ti)

    def strconst(self, s):
        if s not in self.strtab:
            self.strtab[s] = len(self.strtab) + 1
        return Str(u64(self.strtab[s]))

    # ------------------------------------------------------------------ memory
    def read(self, st, ptr, what='read'):
        alts = ptr.alts
        if len(alts) == 1 and alts[0][1] is not None:
            l = alts[0][1]
            if l.root not in st.mem:
                raise Unsupported('dangling root')
            return readpath(st.mem[l.root], l.path)
        v = None
        for g, l in reversed([a for a in alts if a[1] is not None]):
            x = readpath(st.mem[l.root], l.path)
            v = x if v is None else V.vite(g, x, v)
        for g, l in alts:
            if l is None:
                self.oblige(st, not_(g), 'null dereference', 'safety')
        if v is None:
            st.dead = True
            raise DeadPath()
        return v

    def write(self, st, ptr, v):
        alts = ptr.alts
        if len(alts) == 1:
            l = alts[0][1]
            if l is None:
                self.oblige(st, FALSE, 'null dereference (write)', 'safety')
                st.dead = True
                raise DeadPath()
            st.mem[l.root] = writepath(st.mem[l.root], l.path, v)
            return
        for g, l in alts:
            if l is None:
                self.oblige(st, not_(g), 'null dereference (write)', 'safety')
                continue
            st.mem[l.root] = writepath(st.mem[l.root], l.path, v, g)

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind='safety', loc=None, keep=False):
        if self.suppress or st.dead:
            return
        if goal is TRUE and kind == 'safety' and not keep:
            return
        fn = self.fnstack[-1] if self.fnstack else ''
        self.obls.append(Obl(name, list(st.pc), goal, kind, loc, fn))
        if goal is not TRUE and kind != 'ensures':
            st.assume(goal)

    # ------------------------------------------------------------------ calls
    def fname(self, fid):
        return self.fns[fid]['qn']

    def call(self, fid, this, args, st, line=None):
        """args: list of Value (by value) or Ptr (for references).  Returns Value, or Ptr when the function returns a reference."""
        f = self.fns[fid]
        self.check_sys(f)
        if fid in self.contracts and fid not in self.noinline_contract:
            self.contract_used.add(fid)
            cf = self.contracts[fid]
            a = list(args)
            if this is not None:
                a = [this] + a
            self.noinline_contract.add(fid)
            try:
                return self.call(cf, None, a, st, line)
            finally:
                self.noinline_contract.discard(fid)
        if 'body' not in f:
            if f.get('mk') == 'dtor':
                return VOID
            r = self.std.call(fid, f, this, args, st)
            if r is NotImplemented:
                raise Unsupported('no body for %s (%s)' % (f['qn'], fid))
            return r
        if self.std.intercepts(f):
            r = self.std.call(fid, f, this, args, st)
            if r is not NotImplemented:
                return r
        if f.get('mk') == 'ctor':
            raise Unsupported('ctor via call')
        return self.exec_body(fid, f, this, args, st)

    def check_sys(self, f):
        pass

    def exec_body(self, fid, f, this, args, st, locals_=None, retval=True):
        if self.depth > 400:
            raise Unsupported('recursion too deep in ' + f['qn'])
        self.executed.add(fid)
        self.depth += 1
        self.fnstack.append(f['qn'])
        if self.trace:
            print('  ' * self.depth + f['qn'], file=sys.stderr)
        fr = Frame(f, this)
        if locals_:
            fr.locals.update(locals_)
        try:
            for p, a in zip(f['params'], args):
                fr.locals[p['id']] = self.bind(p['t'], a, st)
            fr.retref = self.isref(f['ret'])
            self.stmt(f['body'], st, fr)
            res = self.join_returns(st, fr, f)
            return res
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def bind(self, ti, a, st):
        """storage for a parameter/variable initialised with a; returns (kind, x)"""
        if self.isref(ti):
            if not isinstance(a, Ptr):
                a = P(Lv(self.newroot(st, a)))
            return ('ref', a)
        return ('root', self.newroot(st, a))

    def join_returns(self, st, fr, f):
        outs = list(fr.rets)
        if not st.dead:
            rt = self.strip(f['ret'])
            if f.get('mk') not in ('ctor', 'dtor') and self.types[rt]['k'] != 'void' and f.get('body'):
                # leaving a value-returning function without a value is undefined
                self.oblige(st, FALSE, 'flowing off the end of ' + f['n'], 'safety')
                st.dead = True
            else:
                outs.append((st.fork(), VOID))
        cur = None
        # fold from the last one back so that later paths are the default
        outs = [o for o in outs if not o[0].dead]
        if not outs:
            st.dead = True
            raise DeadPath()
        root = None
        for s, v in outs:
            s.mem[-1] = v
        cur = outs[-1][0]
        for s, v in reversed(outs[:-1]):
            cur = merge(s, cur)
        v = cur.mem.pop(-1)
        st.become(cur)
        return v

    def call_virtual(self, fid, this, args, st):
        alts = this.alts
        if len(alts) != 1 or alts[0][1] is None:
            # resolve when every alternative agrees
            tg = set()
            for g, l in alts:
                if l is not None:
                    v = readpath(st.mem[l.root], l.path)
                    tg.add(v.rid)
            if len(tg) != 1:
                raise Unsupported('virtual call on several objects')
        g, l = [a for a in alts if a[1] is not None][0]
        # strip trailing base-subobject components to find the most derived object
        path = l.path
        best = len(path)
        while path and path[-1][0] == 'f' and path[-1][1].startswith('@'):
            path = path[:-1]
        v = readpath(st.mem[l.root], path)
        if not isinstance(v, Rec):
            raise Unsupported('virtual call on %s' % type(v).__name__)
        tgt, tpath = self.find_override(v.rid, fid, ())
        if tgt is None:
            tgt, np = fid, l.path
        else:
            np = path + tpath
        return self.call(tgt, Ptr([(gg, Lv(ll.root, np if ll is l else ll.path[:len(ll.path) - (len(l.path) - len(path))] + tpath)) for gg, ll in alts if ll is not None]), args, st)

    def overrides(self, f, target, seen=None):
        """does method f (transitively) override target?"""
        if f == target:
            return True
        return target in self.ovmap().get(f, ())

    def ovmap(self):
        if not hasattr(self, '_ov'):
            direct = {}
            for r in self.recs.values():
                for m in r.get('vm', []):
                    direct[m['f']] = m['ov']
            full_ = {}

            def go(f):
                if f in full_:
                    return full_[f]
                s = set()
                full_[f] = s
                for o in direct.get(f, []):
                    s.add(o)
                    s |= go(o)
                return s
            for f in list(direct):
                go(f)
            self._ov = full_
        return self._ov

    def find_override(self, rid, fid, path):
        r = self.recs[rid]
        for m in r.get('vm', []):
            if self.overrides(m['f'], fid) and not m['pure']:
                return m['f'], path
        for b in r.get('bases', []):
            bid = self.types[b['t']]['id']
            x, p = self.find_override(bid, fid, path + (('f', '@' + bid),))
            if x is not None:
                return x, p
        return None, None

    # ------------------------------------------------------------------ closures
    def call_closure(self, clo, args, st, line=None, clolv=None):
        alts = clo.alts
        if len(alts) == 1:
            return self.call_target(alts[0][1], args, st, clolv)
        outs = []
        base = st.fork()
        for g, tg in alts:
            s = base.fork(g)
            if s.dead:
                continue
            try:
                v = self.call_target(tg, args, s, None)
            except DeadPath:
                continue
            s.mem[-1] = v
            outs.append(s)
        if not outs:
            st.dead = True
            raise DeadPath()
        cur = outs[-1]
        for s in reversed(outs[:-1]):
            cur = merge(s, cur)
        v = cur.mem.pop(-1)
        st.become(cur)
        return v

    def call_target(self, tg, args, st, clolv=None):
        if tg is None:
            self.throw(st, 'std::bad_function_call', None)
            raise DeadPath()
        if tg[0] == 'fn':
            return self.call(tg[1], None, args, st)
        if tg[0] == 'py':
            return tg[1](args, st)
        if tg[0] == 'lam':
            rid = tg[1]
            rec = self.recs[rid]
            return self.call_lambda(rid, tg[2], args, st, tg[3] if len(tg) > 3 else rec.get('op'), tg)
        raise Unsupported('call target %r' % (tg[0],))

    def call_lambda(self, rid, recval, args, st, opfid, tg=None, objptr=None):
        caps = self.lamcaps[rid]
        if opfid is None:
            raise Unsupported('generic lambda through std::function')
        f = self.fns[opfid]
        if objptr is None:
            objptr = P(Lv(self.newroot(st, recval)))
        loc = {}
        this = None
        for c in caps:
            if c.get('this'):
                v = self.read(st, objptr.ext(('f', c['f'])))
                if c['byref']:
                    this = v
                else:
                    this = objptr.ext(('f', c['f']))
            elif c['byref'] or self.isref(c['t']) and False:
                loc[c['id']] = ('ref', self.read(st, objptr.ext(('f', c['f']))))
            else:
                loc[c['id']] = ('ref', objptr.ext(('f', c['f'])))
        # parameters are (re)bound by exec_body; convert by-value args
        a2 = self.adapt_args(f, args, st)
        return self.exec_body(opfid, f, this, a2, st, loc)

    def adapt_args(self, f, args, st):
        out = []
        for p, a in zip(f['params'], args):
            if self.isref(p['t']):
                if not isinstance(a, Ptr):
                    a = P(Lv(self.newroot(st, a)))
            else:
                if isinstance(a, Ptr) and self.types[p['t']]['k'] not in ('ptr',) and not self.std.is_ptrlike(p['t']):
                    a = self.read(st, a)
            out.append(a)
        return out

    lamcaps = None

    # ------------------------------------------------------------------ exceptions
    def throw(self, st, rid, val, what=None):
        if not st.dead:
            self.throws[-1].append(ThrowRec(st.fork(), rid, val, what))
        st.dead = True

    # ------------------------------------------------------------------ construction
    def construct(self, fid, args, ti, st, zero=False, e=None):
        """value of a constructor call"""
        f = self.fns[fid]
        t = self.types[ti] if ti is not None else None
        rid = f['rec']
        rec = self.recs[rid]
        if rec['std']:
            return self.std.construct(fid, f, rid, rec, args, st, e)
        sp = f.get('special')
        if sp in ('copy', 'move') and (not f.get('userprov')) and rec.get('lambda') is None and 'body' not in f:
            return self.read(st, args[0])
        if sp in ('copy', 'move') and not f.get('userprov'):
            # implicit / defaulted: memberwise
            v = self.read(st, args[0])
            if sp == 'move':
                pass
            return v
        root = self.newroot(st, self.uninit_rec(rid, zero, not f.get('userprov') and sp == 'default'))
        self.run_ctor(fid, P(Lv(root)), args, st)
        return st.mem[root]

    def uninit_rec(self, rid, zero, dflt=False):
        r = self.recs[rid]
        f = {}
        for b in r['bases']:
            bid = self.types[b['t']]['id']
            if self.recs[bid]['std']:
                f['@' + bid] = Opaque('stdbase')
            else:
                f['@' + bid] = self.uninit_rec(bid, zero)
        for x in r['fields']:
            if zero:
                f[x['n']] = self.zero(x['t']) if not self.isref(x['t']) else NULL
            else:
                f[x['n']] = self.uninit(x['t'], x['n'])
        return Rec(rid, f)

    def run_ctor(self, fid, this, args, st):
        f = self.fns[fid]
        rid = f['rec']
        rec = self.recs[rid]
        if rec['std']:
            v = self.std.construct(fid, f, rid, rec, args, st, None)
            self.write(st, this, v)
            return
        sp = f.get('special')
        if sp in ('copy', 'move') and not f.get('userprov'):
            self.write(st, this, self.read(st, args[0]))
            return
        if 'body' not in f and 'inits' not in f:
            if sp == 'default':
                # trivial or not-defined default constructor: members stay as they are, default member initialisers apply
                self.default_members(rid, this, st)
                return
            raise Unsupported('constructor without body: ' + f['qn'] + ' ' + fid)
        self.executed.add(fid)
        self.depth += 1
        self.fnstack.append(f['qn'])
        fr = Frame(f, this)
        try:
            for p, a in zip(f['params'], args):
                fr.locals[p['id']] = self.bind(p['t'], a, st)
            for i in f.get('inits', []):
                if i.get('deleg'):
                    e = i['e']
                    self.init_at(this, e, st, fr)
                elif 'base' in i:
                    bid = self.types[i['base']]['id']
                    if self.recs[bid]['std']:
                        if self.recs[bid]['qn'].startswith('std::'):
                            continue
                    self.init_at(this.ext(('f', '@' + bid)), i['e'], st, fr)
                else:
                    self.init_field(this, rid, i['field'], i['e'], st, fr)
            if f.get('body'):
                self.stmt(f['body'], st, fr)
            fr.retref = False
            self.join_returns(st, fr, f)
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def default_init(self, rid, this, st):
        """run the default constructor of the record at `this` (value initialisation of class types)"""
        for k, f in self.fns.items():
            if f.get('rec') == rid and f.get('mk') == 'ctor' and f.get('special') == 'default' and ('body' in f or 'inits' in f):
                self.run_ctor(k, this, [], st)
                return
        self.default_members(rid, this, st)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def field_type(self, rid, name):
        for x in self.recs[rid]['fields']:
            if x['n'] == name:
                return x['t']
        raise Unsupported('field %s of %s' % (name, rid))

    def init_field(self, this, rid, name, e, st, fr):
        ft = self.field_type(rid, name)
        tgt = this.ext(('f', name))
        if self.isref(ft):
            p = self.lv(e, st, fr)
            self.write(st, tgt, p)
            return
        self.init_at(tgt, e, st, fr)

    def init_at(self, tgt, e, st, fr):
        """initialise the object at tgt with expression e (constructors run in place)"""
        k = e['k']
        if k == 'defini':
            fr2 = Frame(fr.fn, self.parent_of(tgt))
            fr2.locals = fr.locals
            return self.init_at(tgt, e['e'], st, fr2)
        if k == 'ctor' and self.types[e['t']]['k'] != 'arr':
            f = self.fns[e['fn']]
            rec = self.recs[f['rec']]
            if not rec['std'] and not (f.get('special') in ('copy', 'move') and not f.get('userprov')):
                args = self.args(e['args'], f, st, fr)
                # base of uninitialised storage for this (sub)object
                if e.get('zero'):
                    self.write(st, tgt, self.zero(e['t']))
                return self.run_ctor(e['fn'], tgt, args, st)
        v = self.ev(e, st, fr)
        self.write(st, tgt, v)

    def parent_of(self, tgt):
        return Ptr([(g, Lv(l.root, l.path[:-1])) for g, l in tgt.alts])

    def default_members(self, rid, this, st):
        r = self.recs[rid]
        for b in r['bases']:
            bid = self.types[b['t']]['id']
            if not self.recs[bid]['std']:
                self.default_members(bid, this.ext(('f', '@' + bid)), st)
        for x in r['fields']:
            if 'init' in x and x['init'] is not None:
                fr = Frame(None, this)
                self.init_at(this.ext(('f', x['n'])), x['init'], st, fr)
            elif self.types[x['t']]['k'] == 'rec' and not self.recs[self.types[x['t']]['id']]['std']:
                self.default_members(self.types[x['t']]['id'], this.ext(('f', x['n'])), st)

    # ------------------------------------------------------------------ expressions
    def args(self, es, f, st, fr):
        """evaluate call arguments for the parameters of f (references stay lvalues)"""
        out = []
        ps = f['params'] if f else []
        for i, e in enumerate(es):
            if i < len(ps) and self.isref(ps[i]['t']):
                out.append(self.lv(e, st, fr))
            elif i >= len(ps) and e.get('lv'):
                out.append(self.lv(e, st, fr))
            else:
                out.append(self.ev(e, st, fr))
        return out

    def ev(self, e, st, fr):
        """evaluate an expression to a value"""
        k = e['k']
        if k == 'const':
            s = self.sort(e['t'])
            v = e['v']
            if s == R:
                if v in ('inf', '-inf', 'nan'):
                    return var('float.' + v, R)
                return const(Fraction(float.fromhex(v)) if 'x' in v else Fraction(v), R)
            return const(int(v), s)
        if e.get('lv'):
            p = self.lv(e, st, fr)
            return self.read(st, p)
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression %s %s at line %s' % (k, e.get('what', ''), e.get('line')))
        return m(e, st, fr)

    def lv(self, e, st, fr):
        """evaluate a glvalue to a pointer; prvalues are materialised"""
        k = e['k']
        if not e.get('lv') and k not in ('mat',):
            v = self.ev(e, st, fr)
            return P(Lv(self.newroot(st, v)))
        m = getattr(self, 'lv_' + k, None)
        if m is None:
            raise Unsupported('lvalue expression %s %s at line %s' % (k, e.get('what', ''), e.get('line')))
        return m(e, st, fr)

    # --- references to variables
    def lv_ref(self, e, st, fr):
        if e.get('fn'):
            return Clo([(TRUE, ('fn', e['fn']))])
        if e.get('glob'):
            return self.global_lv(e, st, fr)
        x = fr.locals.get(e.get('id'))
        if x is None:
            raise Unsupported('unbound variable %s line %s in %s' % (e.get('n'), e.get('line'), fr.fn['qn'] if fr.fn else '?'))
        if x[0] == 'ref':
            return x[1]
        return P(Lv(x[1]))

    def ev_ref(self, e, st, fr):
        if e.get('fn'):
            return Clo([(TRUE, ('fn', e['fn']))])
        return self.read(st, self.lv_ref(e, st, fr))

    def global_lv(self, e, st, fr):
        gid = str(e['id'])
        if gid in self.globroot and self.globroot[gid] in st.mem:
            return P(Lv(self.globroot[gid]))
        g = self.globs[gid]
        if g.get('std'):
            return self.std.glob(g, st)
        if not g.get('const'):
            raise Unsupported('mutable global ' + g['n'])
        self.suppress += 1
        try:
            v = self.ev(g['init'], st, Frame(None)) if g.get('init') else self.zero(g['t'])
        finally:
            self.suppress -= 1
        if gid in self.globroot:
            st.mem[self.globroot[gid]] = v
        else:
            self.globroot[gid] = self.newroot(st, v)
        return P(Lv(self.globroot[gid]))

    def lv_this(self, e, st, fr):
        return fr.this

    def ev_this(self, e, st, fr):
        return fr.this

    def base_lv(self, b, arrow, st, fr):
        if arrow:
            v = self.ev(b, st, fr)
            if not isinstance(v, Ptr):
                raise Unsupported('arrow on %s' % type(v).__name__)
            return self.nonnull(v, st)
        return self.lv(b, st, fr)

    def nonnull(self, p, st):
        if all(l is not None for g, l in p.alts):
            return p
        for g, l in p.alts:
            if l is None:
                self.oblige(st, not_(g), 'null dereference', 'safety')
        r = Ptr([(g, l) for g, l in p.alts if l is not None])
        if not r.alts:
            st.dead = True
            raise DeadPath()
        return r

    def lv_member(self, e, st, fr):
        b = self.base_lv(e['b'], e['arrow'], st, fr)
        ft = self.field_type(e['rec'], e['f']) if not self.recs[e['rec']]['std'] else None
        p = b.ext(('f', e['f']))
        if ft is not None and self.isref(ft):
            return self.read(st, p)
        return p

    def ev_member(self, e, st, fr):
        # member of a prvalue
        if not e['arrow'] and not e['b'].get('lv'):
            v = self.ev(e['b'], st, fr)
            return v.f[e['f']]
        return self.read(st, self.lv_member(e, st, fr))

    def lv_mat(self, e, st, fr):
        sub_ = e['e']
        if sub_['k'] == 'ctor':
            f = self.fns[sub_['fn']]
            if not self.recs[f['rec']]['std']:
                v = self.ev(sub_, st, fr)
                return P(Lv(self.newroot(st, v)))
        v = self.ev(sub_, st, fr)
        if e.get('lv') is None and isinstance(v, Ptr) and self.isref(e['t']):
            return v
        return P(Lv(self.newroot(st, v)))

    def ev_mat(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    # --- casts
    def lv_cast(self, e, st, fr):
        ck = e['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            p = self.lv(e['e'], st, fr)
            for t in e['path']:
                if self.recs[self.types[t]['id']]['qn'] == 'std::_Bit_iterator_base':
                    break
                p = p.ext(('f', '@' + self.types[t]['id']))
            return p
        if ck == 'BaseToDerived':
            p = self.lv(e['e'], st, fr)
            n = len(e['path'])
            return Ptr([(g, Lv(l.root, l.path[:len(l.path) - n])) for g, l in p.alts])
        if ck in ('NoOp', 'LValueBitCast', 'ConstructorConversion', 'UserDefinedConversion', 'Dynamic'):
            return self.lv(e['e'], st, fr)
        if ck == 'FunctionToPointerDecay':
            return self.lv(e['e'], st, fr)
        if ck == 'LValueToRValue':
            return self.read(st, self.lv(e['e'], st, fr))
        raise Unsupported('lvalue cast ' + ck)

    def ev_cast(self, e, st, fr):
        ck = e['ck']
        if ck == 'LValueToRValue':
            return self.read(st, self.lv(e['e'], st, fr))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            return self.ev(e['e'], st, fr)
        if ck == 'IntegralCast':
            return cast(self.ev(e['e'], st, fr), self.sort(e['t']))
        if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean':
            return cast(self.ev(e['e'], st, fr), B)
        if ck == 'BooleanToSignedIntegral':
            return neg(cast(self.ev(e['e'], st, fr), self.sort(e['t'])))
        if ck == 'IntegralToFloating':
            return cast(self.ev(e['e'], st, fr), R)
        if ck == 'FloatingToIntegral':
            return r2i(self.ev(e['e'], st, fr), self.sort(e['t']))
        if ck == 'FloatingCast':
            return self.ev(e['e'], st, fr)
        if ck == 'ToVoid':
            if e['e'].get('lv'):
                self.lv(e['e'], st, fr)
            else:
                self.ev(e['e'], st, fr)
            return VOID
        if ck == 'NullToPointer':
            return NULL
        if ck == 'NullToMemberPointer':
            return Opaque('nullmemptr')
        if ck in ('BitCast', 'AddressSpaceConversion'):
            return self.ev(e['e'], st, fr)
        if ck == 'PointerToBoolean':
            v = self.ev(e['e'], st, fr)
            return or_(*[g for g, l in v.alts if l is not None])
        if ck == 'ArrayToPointerDecay':
            if e['e']['k'] == 'str':
                return self.strconst(e['e']['v'])
            p = self.lv(e['e'], st, fr)
            return p.ext(('i', u64(0)))
        if ck == 'FunctionToPointerDecay':
            return self.lv(e['e'], st, fr) if e['e'].get('lv') else self.ev(e['e'], st, fr)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            if self.types[e['t']]['k'] == 'ptr':
                p = self.ev(e['e'], st, fr)
                path = tuple(('f', '@' + self.types[t]['id']) for t in e['path'])
                return Ptr([(g, l.ext(*path) if l is not None else None) for g, l in p.alts])
            v = self.ev(e['e'], st, fr)
            for t in e['path']:
                v = v.f['@' + self.types[t]['id']]
            return v
        if ck == 'BaseToDerived':
            p = self.ev(e['e'], st, fr)
            n = len(e['path'])
            return Ptr([(g, Lv(l.root, l.path[:len(l.path) - n]) if l is not None else None) for g, l in p.alts])
        if ck == 'Dynamic':
            return self.std.dyncast(e, st, fr)
        raise Unsupported('cast ' + ck)

    # --- operators
    def ev_un(self, e, st, fr):
        op = e['op']
        if op == '!':
            return not_(self.tobool(self.ev(e['e'], st, fr)))
        if op == '-':
            v = self.ev(e['e'], st, fr)
            if v.sort != R and v.sort[1]:
                self.oblige(st, not_(eq(v, const(full(v.sort)[0], v.sort))), 'signed overflow in negation', 'safety', e.get('line'))
            return neg(v)
        if op == '+':
            return self.ev(e['e'], st, fr)
        if op == '~':
            return bnot(self.ev(e['e'], st, fr))
        if op == '&':
            x = e['e']
            if x['k'] == 'ref' and x.get('fn'):
                f = self.fns[x['fn']]
                if f.get('rec') and not f.get('static') and self.types[e['t']]['k'] == 'memptr':
                    return Clo([(TRUE, ('memfn', x['fn']))])
                return Clo([(TRUE, ('fn', x['fn']))])
            if self.types[e['t']]['k'] == 'memptr':
                if x['k'] == 'ref' and x.get('f'):
                    return Clo([(TRUE, ('memfld', x['f']))])
                raise Unsupported('pointer to data member')
            return self.lv(x, st, fr)
        if op in ('++', '--'):
            p = self.lv(e['e'], st, fr)
            v = self.read(st, p)
            n = self.incdec(v, 1 if op == '++' else -1, st, e)
            self.write(st, p, n)
            return v if e['post'] else n
        if op == '*':
            return self.read(st, self.lv_un(e, st, fr))
        raise Unsupported('unary ' + op)

    def incdec(self, v, d, st, e=None):
        if isinstance(v, Ptr):
            return self.ptradd(v, const(d, U64))
        if v.sort != R and v.sort[1]:
            r = full(v.sort)
            lim = r[1] if d > 0 else r[0]
            self.oblige(st, not_(eq(v, const(lim, v.sort))), 'signed overflow', 'safety', e.get('line') if e else None)
        return add(v, const(d, v.sort))

    def ptradd(self, p, n):
        """pointer / iterator arithmetic: adjust the last index"""
        alts = []
        for g, l in p.alts:
            if l is None:
                if is_const(n) and n.val == 0:
                    alts.append((g, l))
                    continue
                raise Unsupported('arithmetic on null pointer')
            if not l.path or l.path[-1][0] != 'i':
                # pointer to a single object
                if is_const(n) and n.val == 0:
                    alts.append((g, l))
                    continue
                alts.append((g, Lv(l.root, l.path + (('i', n),))))
                continue
            alts.append((g, Lv(l.root, l.path[:-1] + (('i', add(l.path[-1][1], n)),))))
        return mkptr(alts)

    def lv_un(self, e, st, fr):
        op = e['op']
        if op in ('++', '--') and not e['post']:
            p = self.lv(e['e'], st, fr)
            v = self.read(st, p)
            self.write(st, p, self.incdec(v, 1 if op == '++' else -1, st, e))
            return p
        if op == '*':
            v = self.ev(e['e'], st, fr)
            if isinstance(v, Clo):
                return v
            p = self.nonnull(v, st)
            self.check_deref(p, st, e.get('line'))
            return p
        raise Unsupported('lvalue unary ' + op)

    def check_deref(self, p, st, line=None):
        """bounds obligation for element pointers"""
        for g, l in p.alts:
            if l is not None and l.path and l.path[-1][0] == 'i':
                try:
                    c = readpath(st.mem[l.root], l.path[:-1])
                except Unsupported:
                    continue
                if isinstance(c, (VecL, VecS)):
                    self.oblige(st, implies(g, lt(cast(l.path[-1][1], U64), c.n)), 'element access in range', 'safety', line)

    def tobool(self, v):
        if isinstance(v, T):
            return cast(v, B)
        if isinstance(v, Ptr):
            return or_(*[g for g, l in v.alts if l is not None])
        raise Unsupported('bool of %s' % type(v).__name__)

    def arith(self, op, a, b, st, line=None, divcheck=True):
        """a op b for scalars of equal type"""
        s = a.sort
        if op in ('+', '-', '*'):
            if s == R:
                return {'+': radd, '-': lambda x, y: radd(x, rmul(const(-1, R), y)), '*': rmul}[op](a, b)
            r = {'+': add, '-': sub, '*': mul}[op](a, b)
            if s[1] and not is_const(r):
                self.signed_ok(op, a, b, s, st, line)
            return r
        if op == '/':
            if s == R:
                self.note_div(st, b, line)
                return rdiv(a, b)
            self.oblige(st, not_(eq(b, const(0, s))), 'division by zero', 'safety', line)
            return div(a, b)
        if op == '%':
            self.oblige(st, not_(eq(b, const(0, s))), 'division by zero (modulo)', 'safety', line)
            return rem(a, b)
        if op in ('&', '|', '^'):
            if s == B:
                return {'&': and_, '|': or_, '^': xor_}[op](a, b)
            return bitop({'&': 'band', '|': 'bor', '^': 'bxor'}[op], a, b)
        if op in ('<<', '>>'):
            n = b
            w = s[0]
            self.oblige(st, and_(le(const(0, n.sort), n), lt(n, const(w, n.sort))), 'shift amount in range', 'safety', line)
            n = cast(n, s) if n.sort != s else n
            return shl(a, n) if op == '<<' else shr(a, n)
        raise Unsupported('operator ' + op)

    def note_div(self, st, b, line):
        pass

    def signed_ok(self, op, a, b, s, st, line):
        # widen to twice the width and compare
        w2 = (2 * s[0], 1)
        x, y = cast(a, w2), cast(b, w2)
        r = {'+': add, '-': sub, '*': mul}[op](x, y)
        f = full(s)
        self.oblige(st, and_(le(const(f[0], w2), r), le(r, const(f[1], w2))), 'signed overflow', 'safety', line)

    def compare(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ('==', '!='):
                r = ptreq(a, b)
                return r if op == '==' else not_(r)
            la, lb = a.alts[0][1], b.alts[0][1]
            if len(a.alts) == 1 and len(b.alts) == 1 and la.root == lb.root and la.path[-1][0] == 'i':
                x, y = la.path[-1][1], lb.path[-1][1]
                return self.compare(op, x, y)
            raise Unsupported('pointer comparison')
        if isinstance(a, Str) and isinstance(b, Str):
            a, b = a.t, b.t
        if isinstance(a, Clo) or isinstance(b, Clo):
            raise Unsupported('function comparison')
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if a.sort == B:
            a, b = cast(a, I32), cast(b, I32)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return not_(lt(b, a))
        if op == '>=':
            return not_(lt(a, b))
        raise Unsupported(op)

    def ev_bin(self, e, st, fr):
        op = e['op']
        if op == ',':
            self.discard(e['l'], st, fr)
            return self.ev(e['r'], st, fr)
        if op in ('&&', '||'):
            a = self.tobool(self.ev(e['l'], st, fr))
            a = st.decide(a)
            if op == '&&' and a is FALSE:
                return FALSE
            if op == '||' and a is TRUE:
                return TRUE
            if a is TRUE or a is FALSE:
                return self.tobool(self.ev(e['r'], st, fr))
            c = a if op == '&&' else not_(a)
            s1 = st.fork(c)
            s2 = st.fork(not_(c))
            s1.mem[-2] = None
            r = None
            try:
                if s1.dead:
                    raise DeadPath()
                b = self.tobool(self.ev(e['r'], s1, fr))
            except DeadPath:
                st.become(s2)
                return FALSE if op == '&&' else TRUE
            s1.mem.pop(-2, None)
            st.become(merge(s1, s2))
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == '=':
            return self.read(st, self.lv_bin(e, st, fr))
        if op in ('.*', '->*'):
            return self.read(st, self.memfield(e, st, fr))
        a = self.ev(e['l'], st, fr)
        b = self.ev(e['r'], st, fr)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        if op == '<=>':
            raise Unsupported('<=>')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                if isinstance(b, Ptr):
                    a, b = b, a
                return self.ptradd(a, cast(b, U64))
            if op == '-':
                if isinstance(b, Ptr):
                    return self.ptrdiff(a, b)
                return self.ptradd(a, neg(cast(b, U64)))
        return self.arith(op, a, b, st, e.get('line'))

    def ptrdiff(self, a, b):
        la, lb = a.alts[0][1], b.alts[0][1]
        if len(a.alts) == 1 and len(b.alts) == 1 and la.root == lb.root and la.path and lb.path and la.path[-1][0] == 'i' and lb.path[-1][0] == 'i':
            return cast(sub(la.path[-1][1], lb.path[-1][1]), (64, 1))
        raise Unsupported('pointer difference')

    def memfield(self, e, st, fr):
        obj = self.ev(e['l'], st, fr) if e['op'] == '->*' else self.lv(e['l'], st, fr)
        m = self.ev(e['r'], st, fr)
        if not isinstance(m, Clo) or any(t is None or t[0] != 'memfld' for _, t in m.alts):
            raise Unsupported('member pointer')
        v = self.read(st, obj)

        def path(v, f):
            if not isinstance(v, Rec):
                return None
            if f in v.f:
                return [('f', f)]
            for b in v.f:
                if b.startswith('@'):
                    r = path(v.f[b], f)
                    if r is not None:
                        return [('f', b)] + r
            return None
        alts = []
        for g, t in m.alts:
            p = path(v, t[1])
            if p is None:
                raise Unsupported('member pointer into ' + repr(v)[:40])
            q = obj
            for x in p:
                q = q.ext(x)
            alts += [(and_(g, g2), l) for g2, l in q.alts]
        return Ptr(alts)

    def lv_bin(self, e, st, fr):
        op = e['op']
        if op == '=':
            # C++17: right operand first
            v = self.ev(e['r'], st, fr)
            p = self.lv(e['l'], st, fr)
            self.write(st, p, v)
            return p
        if op == ',':
            self.discard(e['l'], st, fr)
            return self.lv(e['r'], st, fr)
        if op in ('.*', '->*'):
            return self.memfield(e, st, fr)
        raise Unsupported('lvalue binary ' + op)

    def lv_cassign(self, e, st, fr):
        rv = self.ev(e['r'], st, fr)
        p = self.lv(e['l'], st, fr)
        v = self.read(st, p)
        op = e['op']
        if isinstance(v, Ptr):
            n = self.ptradd(v, cast(rv, U64) if op == '+' else neg(cast(rv, U64)))
        else:
            ls = self.sort(e['l']['t'])
            cs = self.sort(e['clt'])
            x = cast(v, cs)
            if op in ('<<', '>>'):
                y = rv
            else:
                y = cast(rv, cs) if rv.sort != cs else rv
            r = self.arith(op, x, y, st, e.get('line'))
            n = cast(r, ls)
        self.write(st, p, n)
        return p

    def ev_cassign(self, e, st, fr):
        return self.read(st, self.lv_cassign(e, st, fr))

    def cond_(self, e, st, fr, how):
        c = self.branch(st, self.tobool(self.ev(e['c'], st, fr)))
        if c is TRUE:
            return how(e['a'], st, fr)
        if c is FALSE:
            return how(e['b'], st, fr)
        s1, s2 = st.fork(c), st.fork(not_(c))
        r1 = r2 = None
        try:
            if s1.dead:
                raise DeadPath()
            r1 = how(e['a'], s1, fr)
        except DeadPath:
            s1.dead = True
        try:
            if s2.dead:
                raise DeadPath()
            r2 = how(e['b'], s2, fr)
        except DeadPath:
            s2.dead = True
        if s1.dead and s2.dead:
            st.dead = True
            raise DeadPath()
        st.become(merge(s1, s2))
        if s1.dead:
            return r2
        if s2.dead:
            return r1
        return V.vite(c, r1, r2)

    def ev_cond(self, e, st, fr):
        return self.cond_(e, st, fr, self.ev)

    def lv_cond(self, e, st, fr):
        return self.cond_(e, st, fr, self.lv)

    def lv_sub(self, e, st, fr):
        b = self.ev(e['b'], st, fr)
        i = cast(self.ev(e['i'], st, fr), U64)
        if isinstance(b, Str):
            raise Unsupported('string indexing')
        p = self.ptradd(b, i)
        self.check_deref(p, st, e.get('line'))
        return p

    def ev_sub(self, e, st, fr):
        return self.read(st, self.lv_sub(e, st, fr))

    def discard(self, e, st, fr):
        if e.get('lv'):
            self.lv(e, st, fr)
        else:
            self.ev(e, st, fr)

    # --- calls
    def ev_call(self, e, st, fr):
        r = self.do_call(e, st, fr)
        return r

    def lv_call(self, e, st, fr):
        r = self.do_call(e, st, fr)
        if not isinstance(r, (Ptr, Clo)):
            r = P(Lv(self.newroot(st, r)))
        return r

    def do_call(self, e, st, fr):
        if 'fn' in e:
            fid = e['fn']
            f = self.fns[fid]
            if e.get('assertfail'):
                self.oblige(st, FALSE, 'assert', 'assert', e.get('line'))
                st.dead = True
                raise DeadPath()
            b = self.std.builtin(e, f, st, fr)
            if b is not NotImplemented:
                return b
            args = self.args(e['args'], f, st, fr)
            return self.call(fid, None, args, st, e.get('line'))
        c = self.ev(e['callee'], st, fr)
        if isinstance(c, Clo):
            args = []
            tg = c.alts[0][1]
            if len(c.alts) == 1 and tg is not None and tg[0] == 'fn':
                args = self.args(e['args'], self.fns[tg[1]], st, fr)
            else:
                args = [self.lv(a, st, fr) if a.get('lv') else self.ev(a, st, fr) for a in e['args']]
            return self.call_closure(c, args, st)
        raise Unsupported('indirect call')

    def ev_mcall(self, e, st, fr):
        return self.do_mcall(e, st, fr)

    def lv_mcall(self, e, st, fr):
        r = self.do_mcall(e, st, fr)
        if not isinstance(r, (Ptr, Clo)):
            r = P(Lv(self.newroot(st, r)))
        return r

    def do_mcall(self, e, st, fr):
        if 'calleeptr' in e:
            return self.call_memptr(e, st, fr)
        fid = e['fn']
        f = self.fns[fid]
        if f.get('mk') == 'dtor':
            return VOID
        # assignment operators evaluate the right operand first; order is otherwise left to right
        this = self.base_lv(e['b'], e['arrow'], st, fr)
        rec = self.recs[f['rec']]
        if rec.get('lambda'):
            args = self.args(e['args'], f, st, fr)
            obj = self.read(st, this)
            return self.call_lambda(f['rec'], obj, args, st, fid, None, this)
        args = self.args(e['args'], f, st, fr)
        if f.get('special') in ('copyassign', 'moveassign') and not f.get('userprov') and not rec['std']:
            self.write(st, this, self.read(st, args[0]))
            return this
        if e.get('virt'):
            return self.call_virtual(fid, this, args, st)
        return self.call(fid, this, args, st, e.get('line'))

    def call_memptr(self, e, st, fr):
        c = e['calleeptr']
        if c['k'] == 'bin' and c['op'] in ('->*', '.*'):
            obj = self.ev(c['l'], st, fr) if c['op'] == '->*' else self.lv(c['l'], st, fr)
            mp = self.ev(c['r'], st, fr)
            if isinstance(mp, Clo) and len(mp.alts) == 1 and mp.alts[0][1][0] == 'memfn':
                fid = mp.alts[0][1][1]
                f = self.fns[fid]
                args = self.args(e['args'], f, st, fr)
                if f.get('virtual'):
                    return self.call_virtual(fid, obj, args, st)
                return self.call(fid, obj, args, st)
        raise Unsupported('member pointer call')

    # --- construction expressions
    def ev_ctor(self, e, st, fr):
        f = self.fns[e['fn']]
        t = self.types[e['t']]
        if t['k'] == 'arr':
            return VecL([self.ev_ctor(dict(e, t=t['t']), st, fr) for _ in range(t['len'])], t['t'])
        rec = self.recs[f['rec']]
        if rec['std']:
            b = self.std.builtin_ctor(e, f, rec, st, fr)
            if b is not NotImplemented:
                return b
        args = self.args(e['args'], f, st, fr)
        return self.construct(e['fn'], args, e['t'], st, e.get('zero'), e)

    def ev_ilist(self, e, st, fr):
        t = self.types[e['t']]
        if t['k'] == 'arr':
            es = []
            for x in e['e']:
                es.append(self.ev(x, st, fr))
            while len(es) < t['len']:
                if e.get('filler') is not None:
                    es.append(self.ev(e['filler'], st, fr))
                else:
                    es.append(self.zero(t['t']))
            return VecL(es, t['t'])
        if t['k'] == 'rec':
            rec = self.recs[t['id']]
            if rec['std']:
                return self.std.ilist(e, t['id'], rec, st, fr)
            f = {}
            root = self.newroot(st, self.uninit_rec(t['id'], False))
            this = P(Lv(root))
            items = list(e['e'])
            nb = e.get('nb', 0)
            for b in rec['bases'][:nb]:
                bid = self.types[b['t']]['id']
                self.init_at(this.ext(('f', '@' + bid)), items.pop(0), st, fr)
            for fd, x in zip(rec['fields'], items):
                if self.isref(fd['t']):
                    self.write(st, this.ext(('f', fd['n'])), self.lv(x, st, fr))
                else:
                    self.init_at(this.ext(('f', fd['n'])), x, st, fr)
            return st.mem[root]
        if len(e['e']) == 1:
            return self.ev(e['e'][0], st, fr)
        if not e['e']:
            return self.zero(e['t'])
        raise Unsupported('init list')

    def ev_defini(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def ev_stdil(self, e, st, fr):
        sub_ = e['e']
        p = self.lv(sub_, st, fr)
        return self.read(st, p)

    def lv_ilist(self, e, st, fr):
        if len(e['e']) == 1:
            return self.lv(e['e'][0], st, fr)
        return P(Lv(self.newroot(st, self.ev_ilist(e, st, fr))))

    def ev_zero(self, e, st, fr):
        return self.zero(e['t'])

    def lv_str(self, e, st, fr):
        return P(Lv(self.newroot(st, self.strconst(e['v']))))

    def ev_str(self, e, st, fr):
        return self.strconst(e['v'])

    def ev_null(self, e, st, fr):
        return NULL

    def ev_lambda(self, e, st, fr):
        rid = e['rec']
        self.lamcaps[rid] = e['caps']
        f = {}
        for c in e['caps']:
            if c.get('this') and c['byref']:
                f[c['f']] = fr.this
            elif c['byref']:
                f[c['f']] = self.lv(c['e'], st, fr)
            else:
                x = c['e']
                f[c['f']] = self.ev(x, st, fr)
        return Rec(rid, f)

    def ev_throw(self, e, st, fr):
        if 'e' not in e:
            raise Unsupported('rethrow')
        v = self.ev(e['e'], st, fr)
        t = self.types[e['tt']]
        self.throw(st, t.get('id', t.get('n')), v)
        raise DeadPath()

    def ev_new(self, e, st, fr):
        v = self.ev(e['e'], st, fr) if e.get('e') else self.uninit(e['at'], 'new')
        return P(Lv(self.newroot(st, v)))

    def ev_typeid(self, e, st, fr):
        raise Unsupported('typeid')

    def ev_memfn(self, e, st, fr):
        raise Unsupported('bound member function')

    def ev_pseudodtor(self, e, st, fr):
        return VOID

    def ev_arrinitloop(self, e, st, fr):
        return self.read(st, self.lv(e['src'], st, fr))

    def ev_inhctor(self, e, st, fr):
        f = self.fns[e['ctor']]
        args = []
        for p in fr.fn['params']:
            x = fr.locals[p['id']]
            args.append(x[1] if x[0] == 'ref' else st.mem[x[1]])
        return self.construct(e['ctor'], args, e['t'], st)

    # ------------------------------------------------------------------ statements
    def stmt(self, s, st, fr):
        if s is None or st.dead:
            return
        k = s['k']
        m = getattr(self, 'st_' + k, None)
        if m is None:
            raise Unsupported('statement %s %s line %s' % (k, s.get('what', ''), s.get('line')))
        try:
            m(s, st, fr)
        except DeadPath:
            st.dead = True

    def st_block(self, s, st, fr):
        for x in s['b']:
            if st.dead:
                return
            self.stmt(x, st, fr)

    def st_null(self, s, st, fr):
        pass

    def st_expr(self, s, st, fr):
        self.discard(s['e'], st, fr)

    def st_decl(self, s, st, fr):
        for d in s['d']:
            self.vardecl(d, st, fr)

    def vardecl(self, d, st, fr):
        if d.get('static'):
            g = self.globs.get(str(d['id']))
            if g is not None and g.get('const'):
                return
            raise Unsupported('mutable static local ' + d['n'])
        if self.isref(d['t']):
            p = self.lv(d['init'], st, fr)
            fr.locals[d['id']] = ('ref', p)
        else:
            if d.get('init') is not None:
                i = d['init']
                if i['k'] == 'ctor' and not self.recs[self.fns[i['fn']]['rec']]['std'] and self.types[d['t']]['k'] == 'rec' and not (self.fns[i['fn']].get('special') in ('copy', 'move')):
                    # construct in place (so that `this` captured by the constructor is the variable)
                    f = self.fns[i['fn']]
                    args = self.args(i['args'], f, st, fr)
                    root = self.newroot(st, self.zero(d['t']) if i.get('zero') else self.uninit_rec(f['rec'], False))
                    self.run_ctor(i['fn'], P(Lv(root)), args, st)
                    fr.locals[d['id']] = ('root', root)
                    return
                v = self.ev(i, st, fr)
            else:
                v = self.uninit(d['t'], d['n'])
            fr.locals[d['id']] = ('root', self.newroot(st, v))
        if d.get('bindings'):
            for b in d['bindings']:
                if b.get('hold'):
                    h = b['hold']
                    self.vardecl(h, st, fr)
                    fr.locals[b['id']] = fr.locals[h['id']]
                elif b.get('e') is not None:
                    fr.locals[b['id']] = ('ref', self.lv(b['e'], st, fr))

    def st_if(self, s, st, fr):
        if s.get('init'):
            self.stmt(s['init'], st, fr)
        if s.get('var'):
            self.vardecl(s['var'], st, fr)
        if s.get('constexpr'):
            if s.get('a') is not None and s.get('b') is None:
                # either only the taken branch was kept, or there is no else
                c = s['c']
                if c['k'] == 'const' and int(c['v']) == 0:
                    return
                return self.stmt(s['a'], st, fr)
            if s.get('a') is None:
                return self.stmt(s.get('b'), st, fr)
        c = self.branch(st, self.tobool(self.ev(s['c'], st, fr)))
        if c is TRUE:
            return self.stmt(s.get('a'), st, fr)
        if c is FALSE:
            return self.stmt(s.get('b'), st, fr)
        s1, s2 = st.fork(c), st.fork(not_(c))
        self.stmt(s.get('a'), s1, fr)
        self.stmt(s.get('b'), s2, fr)
        st.become(merge(s1, s2))

    def st_ret(self, s, st, fr):
        if s.get('e') is None:
            v = VOID
        elif fr.retref:
            v = self.lv(s['e'], st, fr)
        else:
            v = self.ev(s['e'], st, fr)
        fr.rets.append((st.fork(), v))
        st.dead = True

    def st_break(self, s, st, fr):
        fr.brk[-1].append(st.fork())
        st.dead = True

    def st_cont(self, s, st, fr):
        fr.cont[-1].append(st.fork())
        st.dead = True

    def st_switch(self, s, st, fr):
        if s.get('init'):
            self.stmt(s['init'], st, fr)
        v = self.ev(s['c'], st, fr)
        items = s['items']
        # labels and their positions
        conds = []
        for i, it in enumerate(items):
            if it['k'] == 'case':
                lo = const(int(it['v']), v.sort)
                if 'v2' in it:
                    conds.append((i, and_(le(lo, v), le(v, const(int(it['v2']), v.sort)))))
                else:
                    conds.append((i, eq(v, lo)))
        anyc = or_(*[c for _, c in conds])
        cm = dict(conds)
        fr.brk.append([])
        cur = st.fork()
        cur.dead = True
        base = st.fork()
        for i, it in enumerate(items):
            if it['k'] == 'case':
                c = base.decide(cm[i])
                ent = base.fork(c)
                cur = merge(ent, cur) if not ent.dead else cur
            elif it['k'] == 'default':
                c = base.decide(not_(anyc))
                ent = base.fork(c)
                cur = merge(ent, cur) if not ent.dead else cur
            else:
                if not cur.dead:
                    self.stmt(it, cur, fr)
        outs = fr.brk.pop()
        if not any(it['k'] == 'default' for it in items):
            ent = base.fork(base.decide(not_(anyc)))
            outs.append(ent)
        if not cur.dead:
            outs.append(cur)
        outs = [o for o in outs if not o.dead]
        if not outs:
            st.dead = True
            return
        r = outs[-1]
        for o in reversed(outs[:-1]):
            r = merge(o, r)
        st.become(r)

    def st_for(self, s, st, fr):
        if s.get('init'):
            self.stmt(s['init'], st, fr)
        self.loops.loop(s, s.get('c'), s.get('inc'), s['b'], st, fr)

    def st_while(self, s, st, fr):
        self.loops.loop(s, s['c'], None, s['b'], st, fr)

    def st_do(self, s, st, fr):
        # body once, then a while loop
        fr.brk.append([])
        fr.cont.append([])
        self.stmt(s['b'], st, fr)
        brk = fr.brk.pop()
        for c in fr.cont.pop():
            st.become(merge(c, st))
        if not st.dead:
            self.loops.loop(s, s['c'], None, s['b'], st, fr)
        for b in brk:
            st.become(merge(b, st))

    def st_rfor(self, s, st, fr):
        if s.get('init'):
            self.stmt(s['init'], st, fr)
        self.stmt(s['range'], st, fr)
        self.stmt(s['begin'], st, fr)
        self.stmt(s['end'], st, fr)
        if st.dead:
            return
        body = {'k': 'block', 'b': [s['var'], s['b']], 'line': s.get('line')}
        self.loops.loop(s, s['c'], s['inc'], body, st, fr)

    def st_try(self, s, st, fr):
        self.throws.append([])
        self.stmt(s['b'], st, fr)
        recs = self.throws.pop()
        outs = [] if st.dead else [st.fork()]
        for t in recs:
            handled = False
            for h in s['h']:
                if 't' not in h or self.catches(self.strip(h['t']), t.rid):
                    s2 = t.st
                    if h.get('var'):
                        val = t.val if t.val is not None else Opaque('exc')
                        fr.locals[h['var']['id']] = ('ref', P(Lv(self.newroot(s2, val))))
                    self.stmt(h['b'], s2, fr)
                    if not s2.dead:
                        outs.append(s2)
                    handled = True
                    break
            if not handled:
                self.throws[-1].append(t)
        if not outs:
            st.dead = True
            return
        r = outs[-1]
        for o in reversed(outs[:-1]):
            r = merge(o, r)
        st.become(r)

    def catches(self, ti, rid):
        t = self.types[ti]
        if t['k'] != 'rec':
            return t.get('n') == rid
        want = t['id']
        return self.std.derives(rid, want)

    # ------------------------------------------------------------------ lemmas
    def oracle(self, st, c, start=False):
        """c under the path condition, asking a solver as well once the lemma distinguishes cases"""
        c = st.decide(c)
        if c is TRUE or c is FALSE or self.solver is None or not (start or self.choices):
            return c
        key = (c.id, tuple(p.id for p in st.pc), len(self.facts))
        r = self.asked.get(key)
        if r is None:
            r = c
            if self.solver.prove(st.pc, c, self.facts, 1.0).status == 'proved':
                r = TRUE
            elif self.solver.prove(st.pc, not_(c), self.facts, 1.0).status == 'proved':
                r = FALSE
            self.asked[key] = r
        return r

    def branch(self, st, c):
        if self.askif:
            a = c.args[0] if c.op == 'not' else c
            if a.op == 'lt' or a.op == 'and' or (a.op == 'eq' and a.args[0].op != 'bit' and isinstance(a.args[0].sort, tuple)):
                return self.oracle(st, c)
        return st.decide(c)

    def lemma(self, fid):
        self.todo = [[]]
        while self.todo:
            self.choices = self.todo.pop()
            self.ncase = 0
            self.askif = False
            n = len(self.obls)
            self.inputs = []
            self.lemma1(fid)
            for o in self.obls[n:]:
                o.inputs = self.inputs
            self.runs += 1
        return self.obls

    def lemma1(self, fid):
        f = self.fns[fid]
        self.lamcaps = {}
        self.throws = [[]]
        self.globroot = {}
        st = State()
        fr = Frame(f)
        self.fnstack = [f['qn']]
        try:
            self.stmt(f['body'], st, fr)
        except DeadPath:
            pass
        for t in self.throws[0]:
            if not t.st.dead:
                self.obls.append(Obl('no exception escapes (%s)' % t.rid, list(t.st.pc), FALSE, 'throw', None, f['qn']))
        if not st.dead:
            self.covers.append(list(st.pc))
        for s, v in fr.rets:
            if not s.dead:
                self.covers.append(list(s.pc))


class DeadPath(Exception):
    pass
