"""Trusted contracts on the C++ standard library (the dependency the code is checked against, not verified here)."""
from terms import *
from values import *
import values as V

MAPS = {'std::unordered_map', 'std::map'}
NODE = {'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'}
SEQ = {'std::vector', 'std::array', 'std::deque', 'std::list', 'std::initializer_list'}
ITER = {'__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Bit_iterator',
        'std::_Bit_const_iterator'}
SMART = {'std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::__shared_ptr'}
STR = {'std::basic_string', 'std::__cxx11::basic_string', 'std::basic_string_view'}
MAXLEN = 1 << 40


class Stream(V.Val):
    """byte stream as a list of tokens: ('tok', size, value) | ('cond', c, segsA, segsB) | ('rep', n, x, segs)"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)


def seg_same(a, b):
    if a is b:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == 'tok':
        return a[1] == b[1] and (a[2] is b[2] or _veq_true(a[2], b[2]))
    if a[0] == 'cond':
        return a[1] is b[1] and segs_same(a[2], b[2]) and segs_same(a[3], b[3])
    if a[0] == 'rep':
        return a[1] is b[1] and segs_same(a[3], segs_subst(b[3], {b[2].id: a[2]}))
    return False


def _veq_true(a, b):
    try:
        return V.veq(a, b) is TRUE
    except Unsupported:
        return False


def segs_same(a, b):
    return len(a) == len(b) and all(seg_same(x, y) for x, y in zip(a, b))


def segs_subst(segs, m):
    out = []
    for s in segs:
        if s[0] == 'tok':
            out.append(('tok', s[1], vsubst(s[2], m)))
        elif s[0] == 'cond':
            c = subst(s[1], m)
            if c is TRUE:
                out.extend(segs_subst(s[2], m))
            elif c is FALSE:
                out.extend(segs_subst(s[3], m))
            else:
                out.append(('cond', c, segs_subst(s[2], m), segs_subst(s[3], m)))
        else:
            out.append(('rep', subst(s[1], m), s[2], segs_subst(s[3], m)))
    return tuple(out)


def stream_ite(c, a, b):
    x, y = a.segs, b.segs
    i = 0
    while i < len(x) and i < len(y) and seg_same(x[i], y[i]):
        i += 1
    j = 0
    while j < len(x) - i and j < len(y) - i and seg_same(x[len(x) - 1 - j], y[len(y) - 1 - j]):
        j += 1
    mx, my = x[i:len(x) - j], y[i:len(y) - j]
    # token-wise merge when both sides have the same shape
    mid = None
    if len(mx) == len(my) and all(p[0] == 'tok' and q[0] == 'tok' and p[1] == q[1] for p, q in zip(mx, my)):
        try:
            mid = tuple(('tok', p[1], vite(c, p[2], q[2])) for p, q in zip(mx, my))
        except Unsupported:
            mid = None
    if mid is None:
        mid = (('cond', c, mx, my),) if (mx or my) else ()
    return Stream(x[:i] + mid + x[len(x) - j:])


# hook the stream type into the generic value operations
_old_vite = V.vite
_old_vs = V._vs
_old_veq = V.veq
_old_shape = V.shape


def _vite(c, a, b):
    if isinstance(a, Stream) and isinstance(b, Stream):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return stream_ite(c, a, b)
    return _old_vite(c, a, b)


def _vs(v, m, memo):
    if isinstance(v, Stream):
        return Stream(segs_subst(v.segs, m))
    return _old_vs(v, m, memo)


def _veq(a, b, exact=True):
    if isinstance(a, Stream) and isinstance(b, Stream):
        if segs_same(a.segs, b.segs):
            return TRUE
        raise Unsupported('stream equality')
    return _old_veq(a, b, exact)


def _shape(v):
    if isinstance(v, Stream):
        return ('stream', id(v.segs), v.segs)
    return _old_shape(v)


V.vite = _vite
V._vs = _vs
V.veq = _veq
V.shape = _shape


class StdModel:
    def __init__(self, eng):
        self.E = eng

    # ------------------------------------------------------------------ helpers
    def qn(self, rid):
        r = self.E.recs[rid]
        q = r['qn']
        return q

    def targ(self, rid, i):
        a = self.E.recs[rid]['targs'][i]
        return a['t'] if 't' in a else int(a['i'])

    def plain(self, q):
        return 'std::bitset::reference' if q.startswith('std::bitset<') and q.endswith('>::reference') else q

    def is_ptrlike(self, ti):
        t = self.E.types[ti]
        if t['k'] == 'ptr':
            return True
        if t['k'] == 'rec':
            r = self.E.recs[t['id']]
            q = self.plain(r['qn'])
            return q in ITER or q in SMART or q in ('std::bitset::reference', 'std::_Bit_reference', 'std::reference_wrapper')
        return False

    def derives(self, rid, want):
        if rid == want:
            return True
        r = self.E.recs.get(rid)
        if r is None:
            return False
        for b in r.get('bases', []):
            if self.derives(self.E.types[b['t']]['id'], want):
                return True
        return False

    def intercepts(self, f):
        return f['qn'] in ('std::max', 'std::min', 'std::move', 'std::forward', 'std::count_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find_if_not', 'std::count', 'std::find', 'std::upper_bound', 'std::lower_bound', 'std::sort', 'std::stable_sort', 'std::invoke',
                           'std::swap', 'std::addressof', 'std::as_const', 'std::distance', 'std::next', 'std::prev', 'std::advance', 'std::copy', 'std::fill', 'std::fill_n', 'std::equal',
                           'std::__addressof') and f.get('std')

    def glob(self, g, st):
        n = g['n']
        if n in ('std::cout', 'std::cerr', 'std::clog'):
            return P(Lv(self.E.newroot(st, Opaque('cout'))))
        if n == 'std::nullopt':
            return P(Lv(self.E.newroot(st, Opaque('nullopt'))))
        return P(Lv(self.E.newroot(st, Opaque(n))))

    def dyncast(self, e, st, fr):
        p = self.E.ev(e['e'], st, fr)
        want = self.E.types[self.E.types[e['t']]['t']]['id']
        out = []
        for g, l in p.alts:
            if l is None:
                out.append((g, None))
                continue
            path = l.path
            while path and path[-1][0] == 'f' and path[-1][1].startswith('@'):
                path = path[:-1]
            v = readpath(st.mem[l.root], path)
            q = self.base_path(v.rid, want)
            out.append((g, Lv(l.root, path + q) if q is not None else None))
        return mkptr(out)

    def base_path(self, rid, want):
        if rid == want:
            return ()
        for b in self.E.recs[rid].get('bases', []):
            bid = self.E.types[b['t']]['id']
            q = self.base_path(bid, want)
            if q is not None:
                return (('f', '@' + bid),) + q
        return None

    # ------------------------------------------------------------------ default / arbitrary values
    def default(self, rid, r):
        q = r['qn']
        E = self.E
        if q == 'std::array':
            n = self.targ(rid, 1)
            et = self.targ(rid, 0)
            return VecL([E.zero(et) for _ in range(n)], et)
        if q in SEQ:
            return VecL([], self.targ(rid, 0))
        if q == 'std::optional':
            return Opt(FALSE, None)
        if q == 'std::bitset':
            return Bits([FALSE] * self.targ(rid, 0))
        if q == 'std::function':
            return Clo([(TRUE, None)])
        if q in MAPS:
            return self.map_empty(rid)
        if q in STR:
            return E.strconst('')
        if q in SMART or q in ITER:
            return NULL
        if q == 'std::pair':
            return Rec(rid, {'first': E.zero(self.targ(rid, 0)), 'second': E.zero(self.targ(rid, 1))})
        if q == 'std::tuple':
            return Rec(rid, {str(i): E.zero(a['t']) for i, a in enumerate(self.pack(rid))})
        if q == 'std::variant':
            return Variant(const(0, U64), {0: E.zero(self.pack(rid)[0]['t'])})
        if 'stringstream' in q or 'ostream' in q or 'istream' in q or 'iostream' in q or 'ios' in q:
            return Stream(())
        return Opaque(rid)

    def pack(self, rid):
        a = self.E.recs[rid]['targs']
        out = []
        for x in a:
            if 'p' in x:
                out.extend(x['p'])
            else:
                out.append(x)
        return out

    def havoc(self, rid, r, name, stars, old):
        q = r['qn']
        E = self.E
        if q == 'std::array':
            n = self.targ(rid, 1)
            et = self.targ(rid, 0)
            return VecL([E.havoc(et, '%s[%d]' % (name, i), stars, old.e[i] if isinstance(old, VecL) and len(old.e) > i else None) for i in range(n)], et)
        if q in ('std::vector', 'std::deque', 'std::list'):
            et = self.targ(rid, 0)
            n = app(name + '.len', stars, U64)
            E.addfact(lt(n, u64(MAXLEN)), stars)
            x = fresh('x', U64)
            body = E.havoc(et, name + '[]', stars + (x,))
            return VecS(n, x, body, et)
        if q == 'std::optional':
            return Opt(app(name + '.has', stars, B), E.havoc(self.targ(rid, 0), name + '.val', stars))
        if q == 'std::bitset':
            return Bits([app('%s.bit%d' % (name, i), stars, B) for i in range(self.targ(rid, 0))])
        if q in STR:
            return Str(app(name, stars, U64))
        if q == 'std::pair':
            return Rec(rid, {'first': E.havoc(self.targ(rid, 0), name + '.first', stars), 'second': E.havoc(self.targ(rid, 1), name + '.second', stars)})
        if q == 'std::tuple':
            return Rec(rid, {str(i): E.havoc(a['t'], '%s.%d' % (name, i), stars, old.f.get(str(i)) if isinstance(old, Rec) else None) for i, a in enumerate(self.pack(rid))})
        if q in MAPS:
            m = self.map_empty(rid)
            return Map(app(name + '.size', stars, U64), m.x, app(name + '.has', stars + (m.x,), B),
                       Rec(m.body.rid, {'first': m.body.f['first'], 'second': E.havoc(self.targ(rid, 1), name + '.at', stars + (m.x,))}))
        if old is not None:
            return old
        if q in ('std::function',):
            return Clo([(TRUE, None)])
        return self.default(rid, r)

    # ------------------------------------------------------------------ associative containers
    def map_key(self, rid):
        E = self.E
        t = E.types[self.targ(rid, 0)]
        if t['k'] in ('bool', 'int', 'enum'):
            return E.sort(self.targ(rid, 0))
        if t['k'] == 'rec' and (E.recs[t['id']]['qn'] in STR or E.recs[t['id']]['qn'] in ('std::type_index',)):
            return U64
        raise Unsupported('map key type')

    def map_empty(self, rid):
        E = self.E
        ks = self.map_key(rid)
        x = fresh('key', ks)
        kt = E.types[self.targ(rid, 0)]
        kv = Str(x) if kt['k'] == 'rec' and E.recs[kt['id']]['qn'] in STR else x
        return Map(u64(0), x, FALSE, Rec('pair:' + rid, {'first': kv, 'second': E.zero(self.targ(rid, 1))}))

    def keyterm(self, a, st):
        v = self.val(a, st) if isinstance(a, Ptr) else a
        if isinstance(v, Str):
            return v.t
        if isinstance(v, T):
            return v
        raise Unsupported('map key %s' % type(v).__name__)

    def map_put(self, this, m, k, v, st, when=TRUE):
        h = subst(m.has, {m.x.id: k})
        here = and_(when, eq(m.x, k))
        body = vite(here, Rec(m.body.rid, {'first': m.body.f['first'], 'second': v}), m.body) if v is not None else m.body
        self.E.write(st, this, Map(ite(and_(when, not_(h)), add(m.n, u64(1)), m.n), m.x, or_(m.has, here), body))

    def map_method(self, rid, n, f, this, args, st):
        E = self.E
        m = E.read(st, this)
        if not isinstance(m, Map):
            raise Unsupported('map is %s' % type(m).__name__)
        at = lambda k: this.ext(('k', k))
        end = this.ext(('end',))

        def where(k):
            h = subst(m.has, {m.x.id: k})
            return mkptr([(and_(h, g), l) for g, l in at(k).alts] + [(and_(not_(h), g), l) for g, l in end.alts])
        if n in ('size',):
            return m.n
        if n == 'empty':
            return eq(m.n, u64(0))
        if n in ('end', 'cend'):
            return end
        if n in ('begin', 'cbegin'):
            return self.map_next(this, m, self.map_keys(m))
        if n == 'find':
            return where(self.keyterm(args[0], st))
        if n in ('count', 'contains'):
            h = subst(m.has, {m.x.id: self.keyterm(args[0], st)})
            return h if n == 'contains' else cast(h, U64)
        if n == 'at':
            k = self.keyterm(args[0], st)
            h = subst(m.has, {m.x.id: k})
            self.throw_unless(h, 'std::out_of_range', st)
            return at(k).ext(('f', 'second'))
        if n == 'operator[]':
            k = self.keyterm(args[0], st)
            h = subst(m.has, {m.x.id: k})
            self.map_put(this, m, k, E.zero(self.targ(rid, 1)), st, not_(h))
            return at(k).ext(('f', 'second'))
        if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign') and len(args) in (1, 2):
            if len(args) == 1:
                pr = self.val(args[0], st)
                if not isinstance(pr, Rec) or set(pr.f) != {'first', 'second'}:
                    return NotImplemented
                k, v = self.keyterm(pr.f['first'], st), pr.f['second']
            else:
                k = self.keyterm(args[0], st)
                v = self.make(self.targ(rid, 1), args[1:], st)
            h = subst(m.has, {m.x.id: k})
            self.map_put(this, m, k, v, st, TRUE if n == 'insert_or_assign' else not_(h))
            rt = E.types[E.strip(f['ret'])]
            return Rec(rt.get('id', 'pair'), {'first': at(k), 'second': not_(h)})
        if n == 'erase' and len(args) == 1:
            a = args[0]
            pt = E.types[E.strip(f['params'][0]['t'])]
            if pt['k'] == 'rec' and 'iterator' in E.recs[pt['id']]['qn']:
                p = self.val1(a, st)
                if len(p.alts) != 1 or p.alts[0][1].path[-1][0] != 'k':
                    return NotImplemented
                k = p.alts[0][1].path[-1][1]
            else:
                k = self.keyterm(a, st)
            h = subst(m.has, {m.x.id: k})
            E.write(st, this, Map(ite(h, sub(m.n, u64(1)), m.n), m.x, and_(m.has, not_(eq(m.x, k))), m.body))
            return cast(h, U64)
        if n == 'clear':
            E.write(st, this, self.map_empty(rid))
            return VOID
        if n == 'operator=':
            E.write(st, this, self.val(args[0], st))
            return this
        return NotImplemented

    def map_keys(self, m):
        """the keys a map can hold, when they are finitely many known ones (iterated in ascending order)"""
        atoms, todo, seen = [], [m.has], set()
        while todo:
            t = todo.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == 'eq' and m.x in t.args:
                atoms.append(t)
            else:
                todo.extend(t.args)
        keys = []
        for t in atoms:
            k = t.args[1] if t.args[0] is m.x else t.args[0]
            if k.op != 'const' and k is not TRUE and k is not FALSE:
                raise Unsupported('iteration over a map with symbolic keys')
            keys.append(k)
        if subst(m.has, {t.id: FALSE for t in atoms}) is not FALSE:
            raise Unsupported('iteration over a map with unknown keys')
        return sorted(set(keys), key=lambda k: k.val)

    def map_next(self, this, m, keys):
        alts, none = [], TRUE
        for k in keys:
            h = subst(m.has, {m.x.id: k})
            alts += [(and_(none, h, g), l) for g, l in this.ext(('k', k)).alts]
            none = and_(none, not_(h))
        alts += [(and_(none, g), l) for g, l in this.ext(('end',)).alts]
        return mkptr([(g, l) for g, l in alts if g is not FALSE])

    def throw_unless(self, c, what, st):
        E = self.E
        ok = st.decide(c)
        if ok is not TRUE:
            E.throw(st.fork(not_(ok)), what, Opaque(what))
            st.assume(ok)
        if st.dead:
            from engine import DeadPath
            raise DeadPath()

    def node_method(self, n, f, this, args, st):
        E = self.E
        p = E.read(st, this)
        if n in ('operator*', 'operator->'):
            keep = []
            for g, l in p.alts:
                if l is None or l.path[-1][0] == 'end':
                    E.oblige(st, not_(g), 'iterator is dereferenceable', 'safety')
                else:
                    keep.append((g, l))
            if not keep:
                from engine import DeadPath
                st.dead = True
                raise DeadPath()
            return mkptr(keep)
        if n == 'operator=':
            E.write(st, this, self.val1(args[0], st))
            return this
        if n == 'operator++':
            alts = []
            for g, l in p.alts:
                if l is None or l.path[-1][0] == 'end':
                    E.oblige(st, not_(g), 'iterator is dereferenceable', 'safety')
                    continue
                at = Ptr([(TRUE, type(l)(l.root, l.path[:-1]))])
                m = E.read(st, at)
                k = l.path[-1][1]
                for g2, l2 in self.map_next(at, m, [x for x in self.map_keys(m) if x.val > k.val]).alts:
                    alts.append((and_(g, g2), l2))
            q = mkptr(alts)
            E.write(st, this, q)
            return p if args else this
        return NotImplemented

    # ------------------------------------------------------------------ construction
    def builtin_ctor(self, e, f, rec, st, fr):
        q = rec['qn']
        if q == 'std::initializer_list':
            return NotImplemented
        if q == 'std::tuple' and len(e['args']) == len(self.pack(f['rec'])) and f.get('special') not in ('copy', 'move'):
            vals = []
            for a, x in zip(self.pack(f['rec']), e['args']):
                if self.E.isref(a['t']):
                    vals.append(self.E.lv(x, st, fr))
                else:
                    vals.append(self.coerce(self.E.ev(x, st, fr), a['t'], st))
            return Rec(f['rec'], {str(i): v for i, v in enumerate(vals)})
        return NotImplemented

    def coerce(self, v, ti, st):
        """implicit conversion of an already evaluated value to type ti (library-internal conversions)"""
        E = self.E
        if isinstance(v, Ptr) and not self.is_ptrlike(ti) and not E.isref(ti):
            v = E.read(st, v)
        t = E.types[ti]
        if isinstance(v, T):
            if t['k'] in ('bool', 'int', 'enum', 'float'):
                return cast(v, E.sort(ti))
        if t['k'] == 'rec':
            q = E.recs[t['id']]['qn']
            if q == 'std::function' and not isinstance(v, Clo):
                return self.to_clo(v, None)
            if q == 'std::optional' and not isinstance(v, Opt):
                return Opt(TRUE, self.coerce(v, self.targ(t['id'], 0), st))
            if q == 'std::pair' and isinstance(v, Rec) and v.rid != t['id'] and set(v.f) == {'first', 'second'}:
                return Rec(t['id'], {k: self.coerce(v.f[k], self.targ(t['id'], i), st) for i, k in enumerate(('first', 'second'))})
        return v

    def to_clo(self, v, fs):
        if isinstance(v, Clo):
            return v
        if isinstance(v, Rec):
            return Clo([(TRUE, ('lam', v.rid, v))])
        if isinstance(v, Ptr):
            return Clo([(TRUE, None)])
        raise Unsupported('std::function from %s' % type(v).__name__)

    def val(self, a, st):
        """argument value (references are read)"""
        if isinstance(a, Ptr):
            return self.E.read(st, a)
        return a

    def construct(self, fid, f, rid, rec, args, st, e):
        E = self.E
        q = rec['qn']
        E.stdused.add(q + ' constructor')
        sp = f.get('special')
        ps = f['params']
        if sp in ('copy', 'move'):
            v = E.read(st, args[0])
            if sp == 'move' and (q in ('std::vector', 'std::deque') or q in SMART):
                E.write(st, args[0], VecL([], self.targ(rid, 0)) if q in ('std::vector', 'std::deque') else NULL)
            return v
        if q in ('std::vector', 'std::deque', 'std::list'):
            et = self.targ(rid, 0)
            names = [E.types[p['t']] for p in ps]
            real = [p for p in ps if not self.is_alloc(p['t'])]
            real = real[:len(args)]
            if not real:
                return VecL([], et)
            a0 = args[0]
            v0t = E.types[E.strip(real[0]['t'])]
            if v0t['k'] == 'rec' and E.recs[v0t['id']]['qn'] == 'std::initializer_list':
                return self.val(a0, st)
            if v0t['k'] == 'int':
                n = cast(self.val(a0, st), U64)
                if len(real) >= 2:
                    v = self.val(args[1], st)
                else:
                    v = self.value_init(et, st)
                return self.repeat(n, v, et)
            if self.is_ptrlike(E.strip(real[0]['t'])) and len(real) >= 2:
                return self.range_copy(self.val1(a0, st), self.val1(args[1], st), et, st)
            if v0t['k'] == 'rec' and E.recs[v0t['id']]['qn'] == q:
                return self.val(a0, st)
            raise Unsupported('container constructor')
        if q == 'std::array':
            return self.default(rid, rec)
        if q in MAPS:
            if not args:
                return self.map_empty(rid)
            raise Unsupported('map constructor')
        if q == 'std::bitset':
            n = self.targ(rid, 0)
            if not args:
                return Bits([FALSE] * n)
            v = self.val(args[0], st)
            if isinstance(v, T):
                return Bits([getbit(v, i) if i < v.sort[0] else FALSE for i in range(n)])
            raise Unsupported('bitset from string')
        if q == 'std::optional':
            if not args:
                return Opt(FALSE, None)
            pt = E.types[E.strip(ps[0]['t'])]
            if pt['k'] == 'rec' and E.recs[pt['id']]['qn'] == 'std::nullopt_t':
                return Opt(FALSE, None)
            if pt['k'] == 'rec' and E.recs[pt['id']]['qn'] == 'std::optional':
                v = self.val(args[0], st)
                return Opt(v.has, self.coerce(v.v, self.targ(rid, 0), st) if v.v is not None else None)
            if pt['k'] == 'rec' and E.recs[pt['id']]['qn'] == 'std::in_place_t':
                return Opt(TRUE, self.make(self.targ(rid, 0), args[1:], st))
            return Opt(TRUE, self.conv(self.val(args[0], st), E.strip(ps[0]['t']), self.targ(rid, 0), st))
        if q == 'std::function':
            if not args:
                return Clo([(TRUE, None)])
            a = args[0]
            t = E.types[E.strip(ps[0]['t'])]
            if t['k'] == 'nullptr':
                return Clo([(TRUE, None)])
            v = a
            if isinstance(a, Ptr):
                v = E.read(st, a) if any(l is not None for g, l in a.alts) else a
            c = self.to_clo(v, f)
            return self.fix_generic(c, f)
        if q in STR:
            if not args:
                return E.strconst('')
            v = self.val(args[0], st)
            if isinstance(v, Str):
                return v
            if isinstance(v, Ptr):
                v = E.read(st, v)
                if isinstance(v, Str):
                    return v
            return Str(fresh('str', U64))
        if q == 'std::pair':
            if len(args) >= 2:
                return Rec(rid, {'first': self.pairc(args[0], self.targ(rid, 0), st), 'second': self.pairc(args[1], self.targ(rid, 1), st)})
            if len(args) == 1:
                v = self.val(args[0], st)
                return Rec(rid, {'first': self.pairc(v.f['first'], self.targ(rid, 0), st), 'second': self.pairc(v.f['second'], self.targ(rid, 1), st)})
            return self.default(rid, rec)
        if q == 'std::tuple':
            if not args:
                return self.default(rid, rec)
            if len(args) == 1:
                v = self.val(args[0], st)
                if isinstance(v, Rec) and E.recs[v.rid]['qn'] in ('std::tuple', 'std::pair'):
                    vs = list(v.f.values())
                    return Rec(rid, {str(i): self.coerce(x, a['t'], st) for i, (x, a) in enumerate(zip(vs, self.pack(rid)))})
            raise Unsupported('tuple constructor')
        if q == 'std::variant':
            if not args:
                return self.default(rid, rec)
            v = self.val(args[0], st)
            if isinstance(v, Variant):
                return v
            pt = E.strip(ps[0]['t'])
            for i, a in enumerate(self.pack(rid)):
                if a['t'] == pt:
                    return Variant(const(i, U64), {i: v})
            raise Unsupported('variant constructor')
        if q in SMART or q in ('std::shared_ptr', 'std::weak_ptr'):
            if not args:
                return NULL
            v = args[0]
            t = E.strip(ps[0]['t'])
            if E.types[t]['k'] == 'nullptr':
                return NULL
            if E.types[t]['k'] == 'ptr':
                return v
            # from another smart pointer (reference parameter)
            p = E.read(st, v) if E.isref(ps[0]['t']) else v
            if E.types[ps[0]['t']]['k'] == 'rref':
                E.write(st, v, NULL)
            src = E.types[t]
            if src['k'] == 'rec' and E.recs[src['id']].get('targs'):
                p = self.upcast(p, E.recs[src['id']]['targs'][0].get('t'), self.targ(rid, 0))
            return p
        if q in ITER or q in ('std::move_iterator',):
            if not args:
                return NULL
            return self.val1(args[0], st)
        if q == 'std::reference_wrapper':
            return args[0]
        if 'stringstream' in q or 'istream' in q or 'ostream' in q or q.startswith('std::basic_i') or q.startswith('std::basic_o'):
            return Stream(())
        if q == 'std::allocator' or q.startswith('std::allocator'):
            return Opaque('alloc')
        if q in ('std::less', 'std::greater', 'std::monostate', 'std::in_place_t', 'std::nullopt_t', 'std::equal_to', 'std::hash', 'std::integral_constant', 'std::plus', 'std::index_sequence',
                 'std::integer_sequence', 'std::initializer_list'):
            return Opaque(q)
        if q in ('std::runtime_error', 'std::logic_error', 'std::out_of_range', 'std::invalid_argument', 'std::exception', 'std::domain_error', 'std::length_error',
                 'std::bad_optional_access', 'std::range_error', 'std::overflow_error'):
            return Opaque(q)
        return Opaque(q)

    def upcast(self, p, src, dst):
        if src is None or src == dst:
            return p
        E = self.E
        a, b = E.types[src], E.types[dst]
        if a['k'] != 'rec' or b['k'] != 'rec':
            return p
        q = self.base_path(a['id'], b['id'])
        if q is None:
            raise Unsupported('smart pointer conversion')
        return Ptr([(g, l.ext(*q) if l is not None else None) for g, l in p.alts])

    def conv(self, v, src, dst, st):
        """library-internal conversion of a value of type src to dst"""
        E = self.E
        v = self.coerce(v, dst, st)
        return v

    def pairc(self, a, ti, st):
        E = self.E
        if E.isref(ti):
            return a
        if isinstance(a, Ptr) and not self.is_ptrlike(ti):
            a = E.read(st, a)
        elif isinstance(a, Ptr) and self.is_ptrlike(ti):
            pass
        return self.coerce(a, ti, st)

    def fix_generic(self, c, f):
        """resolve the call operator of a generic lambda stored in a std::function"""
        out = []
        for g, t in c.alts:
            if t is not None and t[0] == 'lam' and len(t) == 3 and 'op' not in self.E.recs[t[1]]:
                # find an instantiated operator() of this closure type
                ops = [k for k, x in self.E.fns.items() if x.get('rec') == t[1] and x['n'] == 'operator()' and 'body' in x]
                if len(ops) != 1:
                    raise Unsupported('generic lambda in std::function')
                t = t + (ops[0],)
            out.append((g, t))
        return Clo(out)

    def is_alloc(self, ti):
        t = self.E.types[self.E.strip(ti)]
        return t['k'] == 'rec' and self.E.recs[t['id']]['qn'] == 'std::allocator'

    def val1(self, a, st):
        """by-value pointer-like argument or reference to one"""
        if isinstance(a, Ptr) and len(a.alts) == 1 and a.alts[0][1] is not None:
            try:
                v = readpath(st.mem[a.alts[0][1].root], a.alts[0][1].path)
            except Exception:
                return a
            if isinstance(v, Ptr):
                return v
        return a

    def value_init(self, et, st):
        E = self.E
        t = E.types[et]
        if t['k'] == 'rec' and not E.recs[t['id']]['std']:
            root = E.newroot(st, E.zero(et))
            E.default_init(t['id'], P(Lv(root)), st)
            return st.mem[root]
        return E.zero(et)

    def make(self, ti, args, st):
        """construct a value of type ti from constructor arguments (emplace)"""
        E = self.E
        t = E.types[ti]
        if t['k'] == 'rec' and not E.recs[t['id']]['std']:
            rid = t['id']
            # choose a constructor by arity and argument kinds
            if not args:
                return self.value_init(ti, st)
            vals = [self.val(a, st) for a in args]
            if len(args) == 1 and isinstance(vals[0], Rec) and vals[0].rid == rid:
                return vals[0]
            cands = []
            for k, f in E.fns.items():
                if f.get('rec') == rid and f.get('mk') == 'ctor' and len(f['params']) == len(args) and ('body' in f):
                    cands.append(k)
            if len(cands) == 1:
                f = E.fns[cands[0]]
                root = E.newroot(st, E.uninit_rec(rid, False))
                E.run_ctor(cands[0], P(Lv(root)), E.adapt_args(f, args, st), st)
                return st.mem[root]
            raise Unsupported('emplace: constructor of %s (%d candidates)' % (rid, len(cands)))
        if t['k'] == 'rec':
            q = E.recs[t['id']]['qn']
            if q == 'std::pair' and len(args) == 2:
                return Rec(t['id'], {'first': self.pairc(args[0], self.targ(t['id'], 0), st), 'second': self.pairc(args[1], self.targ(t['id'], 1), st)})
            if q == 'std::function':
                return self.to_clo(self.val(args[0], st), None)
            if q == 'std::bitset' and len(args) == 1:
                v = self.val(args[0], st)
                if isinstance(v, Bits):
                    return v
                n = self.targ(t['id'], 0)
                return Bits([getbit(v, i) if i < v.sort[0] else FALSE for i in range(n)])
            if not args:
                return self.default(t['id'], E.recs[t['id']])
            if len(args) == 1:
                return self.coerce(self.val(args[0], st) if not self.is_ptrlike(ti) else self.val1(args[0], st), ti, st)
            raise Unsupported('emplace of ' + q)
        if not args:
            return E.zero(ti)
        return self.coerce(self.val(args[0], st) if t['k'] != 'ptr' else args[0], ti, st)

    def repeat(self, n, v, et):
        if is_const(n) and n.val <= 256:
            return VecL([v] * n.val, et)
        return VecS(n, fresh('x', U64), v, et)

    def range_copy(self, a, b, et, st):
        la, lb = a.alts[0][1], b.alts[0][1]
        if len(a.alts) != 1 or len(b.alts) != 1 or la.root != lb.root:
            raise Unsupported('iterator range')
        c = readpath(st.mem[la.root], la.path[:-1])
        i, j = la.path[-1][1], lb.path[-1][1]
        if isinstance(c, VecL) and is_const(i) and is_const(j):
            return VecL(c.e[i.val:j.val], et)
        if is_const(i) and i.val == 0 and j is c.n:
            return c if not isinstance(c, VecL) else VecL(c.e, et)
        c = tolam(c)
        x = fresh('x', U64)
        self.E.oblige(st, and_(le(i, j), le(j, c.n)), 'iterator range valid', 'safety')
        return VecS(sub(j, i), x, vsubst(c.body, {c.x.id: add(x, i)}), et)

    def ilist(self, e, rid, rec, st, fr):
        E = self.E
        q = rec['qn']
        if q == 'std::array':
            et, n = self.targ(rid, 0), self.targ(rid, 1)
            if not e['e']:
                return self.default(rid, rec)
            v = E.ev(e['e'][0], st, fr)
            if isinstance(v, VecL):
                return v
            if n == 0:
                return VecL([], et)
        if q == 'std::pair':
            return Rec(rid, {'first': E.ev(e['e'][0], st, fr), 'second': E.ev(e['e'][1], st, fr)})
        if not e['e']:
            return self.default(rid, rec)
        return Opaque(q)

    # ------------------------------------------------------------------ calls
    def builtin(self, e, f, st, fr):
        q = f['qn']
        if q.startswith('vp::'):
            return self.vp(e, f, q[4:], st, fr)
        if not f.get('std') and not q.startswith('__builtin'):
            return NotImplemented
        E = self.E
        if q in ('std::move', 'std::forward', 'std::as_const'):
            if len(e['args']) == 1:
                return E.lv(e['args'][0], st, fr)
        if q in ('std::make_tuple', 'std::make_pair'):
            ti = e['t']
            rid = E.types[ti]['id']
            vals = []
            for x, a in zip(e['args'], self.pack(rid)):
                v = E.ev(x, st, fr)
                vals.append(self.coerce(v, a['t'], st))
            if q == 'std::make_pair':
                return Rec(rid, {'first': vals[0], 'second': vals[1]})
            return Rec(rid, {str(i): v for i, v in enumerate(vals)})
        if q in ('std::tie', 'std::forward_as_tuple'):
            rid = E.types[e['t']]['id']
            return Rec(rid, {str(i): E.lv(x, st, fr) for i, x in enumerate(e['args'])})
        if q == 'std::get':
            return self.std_get(e, f, st, fr)
        if q == 'std::operator<<' or q == 'std::operator>>':
            # bitset shifts are handled by the generic path; stream output is ignored
            if e['args'] and E.types[E.strip(e['args'][0]['t'])].get('id', '').startswith('std::bitset'):
                return NotImplemented
            return self.out(e, f, st, fr)
        if q == 'std::make_optional':
            v = E.ev(e['args'][0], st, fr)
            rid = E.types[e['t']]['id']
            return Opt(TRUE, self.coerce(v, self.targ(rid, 0), st))
        if q in ('std::make_unique', 'std::make_shared'):
            rid = E.types[e['t']]['id']
            args = [E.lv(a, st, fr) if a.get('lv') else E.ev(a, st, fr) for a in e['args']]
            v = self.make(self.targ(rid, 0), args, st)
            return P(Lv(E.newroot(st, v)))
        if q == 'std::ref' or q == 'std::cref':
            return E.lv(e['args'][0], st, fr)
        if q in ('std::static_pointer_cast', 'std::dynamic_pointer_cast'):
            return self.ptr_cast(e, f, st, fr)
        if q == 'std::apply':
            return NotImplemented
        if q == 'std::visit':
            return self.visit(e, f, st, fr)
        if q == 'std::holds_alternative':
            v = E.ev(e['args'][0], st, fr)
            ti = f['targs'][0]['t']
            rid = E.types[E.strip(e['args'][0]['t'])]['id']
            for i, a in enumerate(self.pack(rid)):
                if a['t'] == ti:
                    return eq(v.i, u64(i))
        return NotImplemented

    def ptr_cast(self, e, f, st, fr):
        E = self.E
        p = E.ev(e['args'][0], st, fr)
        dst = self.targ(E.types[e['t']]['id'], 0)
        want = E.types[dst]['id']
        out = []
        for g, l in p.alts:
            if l is None:
                out.append((g, None))
                continue
            path = l.path
            while path and path[-1][0] == 'f' and path[-1][1].startswith('@'):
                path = path[:-1]
            v = readpath(st.mem[l.root], path)
            q = self.base_path(v.rid, want)
            if q is None and f['qn'] == 'std::static_pointer_cast':
                E.oblige(st, not_(g), 'static_pointer_cast to the dynamic type', 'safety')
                continue
            out.append((g, Lv(l.root, path + q) if q is not None else None))
        return mkptr(out)

    def visit(self, e, f, st, fr):
        E = self.E
        v = E.lv(e['args'][1], st, fr)
        fn = E.lv(e['args'][0], st, fr)
        fv_ = E.read(st, fn)
        var_ = E.read(st, v)
        if len(e['args']) != 2 or not isinstance(var_, Variant):
            raise Unsupported('std::visit')
        if not isinstance(fv_, Rec):
            raise Unsupported('visitor')
        rid = E.types[E.strip(e['args'][1]['t'])]['id']
        outs = []
        base = st.fork()
        for i, a in enumerate(self.pack(rid)):
            if i not in var_.alts:
                continue
            c = base.decide(eq(var_.i, u64(i)))
            s = base.fork(c)
            if s.dead:
                continue
            # pick the operator() instance whose parameter is this alternative
            arg = v.ext(('v', i))
            op = self.pick_op(fv_.rid, a['t'])
            try:
                r = E.call_lambda(fv_.rid, fv_, [arg], s, op, None, fn)
            except Exception as ex:
                from engine import DeadPath
                if isinstance(ex, DeadPath):
                    continue
                raise
            s.mem[-1] = r
            outs.append(s)
        from engine import merge, DeadPath
        if not outs:
            st.dead = True
            raise DeadPath()
        cur = outs[-1]
        for s in reversed(outs[:-1]):
            cur = merge(s, cur)
        r = cur.mem.pop(-1)
        st.become(cur)
        return r

    def pick_op(self, rid, ti):
        E = self.E
        r = E.recs[rid]
        if r.get('op'):
            return r['op']
        for k, x in E.fns.items():
            if x.get('rec') == rid and x['n'] == 'operator()' and 'body' in x and x['params'] and E.strip(x['params'][0]['t']) == ti:
                return k
        raise Unsupported('visitor overload')

    def std_get(self, e, f, st, fr):
        E = self.E
        a = f['targs'][0]
        p = E.lv(e['args'][0], st, fr)
        rid = E.types[E.strip(e['args'][0]['t'])]['id']
        q = E.recs[rid]['qn']
        if q == 'std::array':
            return p.ext(('i', u64(int(a['i']))))
        if 'i' in a:
            i = int(a['i'])
        else:
            i = [x['t'] for x in self.pack(rid)].index(a['t'])
        if q == 'std::pair':
            return p.ext(('f', ('first', 'second')[i]))
        if q == 'std::variant':
            v = E.read(st, p)
            bad = st.decide(not_(eq(v.i, u64(i))))
            if bad is not FALSE:
                s2 = st.fork(bad)
                E.throw(s2, 'std::bad_variant_access', Opaque('exc'))
                st.assume(not_(bad))
                if st.dead:
                    from engine import DeadPath
                    raise DeadPath()
            return p.ext(('v', i))
        pk = self.pack(rid)
        r = p.ext(('f', str(i)))
        if E.isref(pk[i]['t']):
            return E.read(st, r)
        return r

    def out(self, e, f, st, fr):
        E = self.E
        p = E.lv(e['args'][0], st, fr)
        # output to text streams is not modelled: evaluate operands for effects only
        for a in e['args'][1:]:
            if a['k'] not in ('str',):
                try:
                    E.lv(a, st, fr) if a.get('lv') else E.ev(a, st, fr)
                except Unsupported:
                    pass
        return p

    def maxmin(self, f, args, st):
        E = self.E
        ismax = f['n'] == 'max'
        pt = E.types[E.strip(f['params'][0]['t'])]
        if pt['k'] == 'rec' and E.recs[pt['id']]['qn'] == 'std::initializer_list':
            v = self.val(args[0], st)
            if not isinstance(v, VecL) or len(f['params']) != 1:
                raise Unsupported('max of list')
            r = v.e[0]
            for x in v.e[1:]:
                c = lt(r, x) if ismax else lt(x, r)
                r = vite(c, x, r)
            return r
        if len(args) == 2:
            a, b = E.read(st, args[0]), E.read(st, args[1])
            if isinstance(a, T):
                c = st.decide(lt(a, b) if ismax else lt(b, a))
                return mkptr([(and_(c, g), l) for g, l in args[1].alts] + [(and_(not_(c), g), l) for g, l in args[0].alts])
        return NotImplemented

    # ------------------------------------------------------------------ vp:: specification primitives
    def vp(self, e, f, n, st, fr):
        E = self.E
        A = e['args']
        if n == 'any':
            ti = e['t']
            name = self.name_of(A[0], st, fr)
            v = E.havoc(ti, name)
            E.inputs.append((name, ti, v))
            return v
        if n == 'havoc':
            p = E.lv(A[0], st, fr)
            name = self.name_of(A[1], st, fr)
            old = E.read(st, p)
            v = E.havoc(E.strip(A[0]['t']), name, (), old)
            E.inputs.append((name, E.strip(A[0]['t']), v))
            E.write(st, p, v)
            return VOID
        if n == 'requires_':
            c = E.tobool(E.ev(A[0], st, fr))
            st.assume(c)
            if st.dead:
                from engine import DeadPath
                raise DeadPath()
            return VOID
        if n == 'branches':
            E.askif = True
            return VOID
        if n == 'cases':
            # the lemma is executed once per outcome (the outcomes cover all inputs)
            c = E.oracle(st, E.tobool(E.ev(A[0], st, fr)), True)
            if c is TRUE or c is FALSE:
                return c
            i = E.ncase
            E.ncase += 1
            if i >= len(E.choices):
                E.todo.append(E.choices + [False])
                E.choices = E.choices + [True]
            st.assume(c if E.choices[i] else not_(c))
            if st.dead:
                from engine import DeadPath
                raise DeadPath()
            return TRUE if E.choices[i] else FALSE
        if n == 'ensures':
            c = E.tobool(E.ev(A[0], st, fr))
            name = self.strof(A[1], st, fr)
            E.oblige(st, c, name, 'ensures', e.get('line'), keep=True)
            return VOID
        if n == 'cover':
            E.covers.append(list(st.pc))
            return VOID
        if n == 'unreachable':
            E.oblige(st, FALSE, self.strof(A[0]), 'ensures', e.get('line'), keep=True)
            return VOID
        if n in ('forall', 'exists', 'sum', 'sumd', 'count'):
            nn = cast(E.ev(A[0], st, fr), U64)
            fn = E.lv(A[1], st, fr)
            fv_ = E.read(st, fn)
            op = self.pick_any_op(fv_.rid)
            if is_const(nn) and nn.val <= 300:
                r = None
                for i in range(nn.val):
                    v = E.call_lambda(fv_.rid, fv_, [u64(i)], st, op, None, fn)
                    if n == 'forall':
                        v = E.tobool(v)
                        r = v if r is None else and_(r, v)
                    elif n == 'exists':
                        v = E.tobool(v)
                        r = v if r is None else or_(r, v)
                    else:
                        if n == 'count':
                            v = cast(E.tobool(v), U64)
                        r = v if r is None else add(r, v)
                if r is None:
                    return {'forall': TRUE, 'exists': FALSE}.get(n, const(0, R if n == 'sumd' else U64))
                return r
            k = fresh('k', U64)
            s = st.fork(lt(k, nn))
            v = E.call_lambda(fv_.rid, fv_, [k], s, op, None, fn)
            if n == 'forall':
                return all_(k, nn, E.tobool(v))
            if n == 'exists':
                return any_(k, nn, E.tobool(v))
            if n == 'count':
                v = cast(E.tobool(v), U64)
            return sum_(k, nn, v)
        if n == 'same':
            a = E.ev(A[0], st, fr)
            b = E.ev(A[1], st, fr)
            return V.veq(a, b)
        if n == 'near':
            a = E.ev(A[0], st, fr)
            b = E.ev(A[1], st, fr)
            return eq(a, b)
        if n == 'implies':
            a = E.tobool(E.ev(A[0], st, fr))
            b = E.tobool(E.ev(A[1], st, fr))
            return implies(a, b)
        if n == 'ite':
            a = E.tobool(E.ev(A[0], st, fr))
            return V.vite(a, E.ev(A[1], st, fr), E.ev(A[2], st, fr))
        if n == 'stands_for':
            return VOID
        if n == 'index_of':
            raise Unsupported('vp::index_of')
        return NotImplemented

    def pick_any_op(self, rid):
        E = self.E
        r = E.recs[rid]
        if r.get('op'):
            return r['op']
        ops = [k for k, x in E.fns.items() if x.get('rec') == rid and x['n'] == 'operator()' and 'body' in x]
        if len(ops) == 1:
            return ops[0]
        raise Unsupported('generic lambda in quantifier')

    def name_of(self, e, st=None, fr=None):
        s = self.strof(e, st, fr)
        c = self.E.fresh_names.get(s, 0)
        self.E.fresh_names[s] = c + 1
        return s if c == 0 else '%s~%d' % (s, c)

    def strof(self, e, st=None, fr=None):
        x = e
        while x['k'] in ('cast', 'mat') and x['e']['k'] in ('cast', 'mat', 'str'):
            x = x['e']
        if x['k'] == 'str':
            return x['v']
        if st is not None:
            v = self.E.ev(e, st, fr)
            if isinstance(v, Str) and is_const(v.t):
                for k, i in self.E.strtab.items():
                    if i == v.t.val:
                        return k
        return '?'

    # ------------------------------------------------------------------ std functions and methods
    def call(self, fid, f, this, args, st):
        E = self.E
        q = f['qn']
        n = f['n']
        if f.get('rec') and this is not None:
            rid = f['rec']
            rq = self.plain(E.recs[rid]['qn'])
            r = self.method(rid, rq, n, f, this, args, st)
            if r is not NotImplemented:
                E.stdused.add(rq + '::' + n)
            return r
        r = self.free(q, n, f, args, st)
        if r is not NotImplemented:
            E.stdused.add(q)
        return r

    def seqread(self, this, st):
        v = self.E.read(st, this)
        if not isinstance(v, (VecL, VecS)):
            raise Unsupported('sequence is %s' % type(v).__name__)
        return v

    def method(self, rid, rq, n, f, this, args, st):
        E = self.E
        if rq in SEQ or rq == 'std::__cxx1998::vector':
            return self.seq_method(rid, rq, n, f, this, args, st)
        if rq in MAPS:
            return self.map_method(rid, n, f, this, args, st)
        if rq in NODE:
            return self.node_method(n, f, this, args, st)
        if rq in ITER:
            return self.iter_method(n, f, this, args, st)
        if rq in ('std::optional', 'std::_Optional_base_impl', 'std::_Optional_payload'):
            return self.opt_method(rid, n, f, this, args, st)
        if rq == 'std::bitset':
            return self.bitset_method(rid, n, f, this, args, st)
        if rq in ('std::bitset::reference', 'std::_Bit_reference'):
            p = E.read(st, this)
            if n == 'operator=':
                v = self.val(args[0], st)
                if isinstance(v, Ptr):
                    v = E.read(st, v)
                E.write(st, p, E.tobool(v))
                return this
            if n.startswith('operator bool') or f.get('mk') == 'conv':
                return E.read(st, p)
            if n == 'operator~':
                return not_(E.read(st, p))
            if n == 'flip':
                E.write(st, p, not_(E.read(st, p)))
                return this
            return NotImplemented
        if rq == 'std::function':
            if n == 'operator()':
                c = E.read(st, this)
                return E.call_closure(c, args, st)
            if f.get('mk') == 'conv':
                c = E.read(st, this)
                return or_(*[g for g, l in c.alts if l is not None])
            if n == 'operator=':
                v = args[0]
                if isinstance(v, Ptr):
                    v = E.read(st, v) if any(l is not None for g, l in v.alts) else v
                E.write(st, this, self.fix_generic(self.to_clo(v, f), f))
                return this
            return NotImplemented
        if rq in ('std::pair', 'std::tuple'):
            if n == 'operator=':
                v = self.val(args[0], st)
                if isinstance(v, Rec):
                    tgt = E.read(st, this)
                    # assignment through tuples of references
                    nf = {}
                    for (k, old), (k2, x) in zip(tgt.f.items(), v.f.items()):
                        nf[k] = x
                    for k in tgt.f:
                        if isinstance(tgt.f[k], Ptr) and not isinstance(nf[k], Ptr):
                            E.write(st, tgt.f[k], nf[k])
                            nf[k] = tgt.f[k]
                    E.write(st, this, Rec(tgt.rid, nf))
                    return this
            return NotImplemented
        if rq in SMART or rq.startswith('std::__shared_ptr') or rq == 'std::__shared_ptr_access':
            if rq.startswith('std::__shared_ptr') and this.alts[0][1] is not None:
                pth = this.alts[0][1].path
                while pth and pth[-1][0] == 'f' and pth[-1][1].startswith('@std::'):
                    pth = pth[:-1]
                this = P(Lv(this.alts[0][1].root, pth))
            return self.smart_method(rid, rq, n, f, this, args, st)
        if rq in STR:
            return self.str_method(n, f, this, args, st)
        if rq == 'std::reference_wrapper':
            p = E.read(st, this)
            if n == 'get' or f.get('mk') == 'conv':
                return p
        if rq == 'std::variant':
            v = E.read(st, this)
            if n == 'index':
                return v.i
            if n == 'operator=':
                pt = E.strip(f['params'][0]['t'])
                x = self.val(args[0], st)
                if isinstance(x, Variant):
                    E.write(st, this, x)
                    return this
                for i, a in enumerate(self.pack(rid)):
                    if a['t'] == pt:
                        alts = dict(v.alts)
                        alts[i] = x
                        E.write(st, this, Variant(u64(i), alts))
                        return this
            return NotImplemented
        if rq.startswith('std::basic_') or rq in ('std::basic_ostream', 'std::basic_istream', 'std::basic_ios'):
            return self.stream_method(rq, n, f, this, args, st)
        if rq in ('std::less', 'std::greater', 'std::equal_to', 'std::plus') and n == 'operator()':
            a, b = self.val(args[0], st), self.val(args[1], st)
            if rq == 'std::less':
                return E.compare('<', a, b)
            if rq == 'std::greater':
                return E.compare('>', a, b)
            if rq == 'std::plus':
                return add(a, b)
            return E.compare('==', a, b)
        if n == 'what':
            return Str(fresh('what', U64))
        return NotImplemented

    def idx(self, a, st):
        return cast(self.val(a, st), U64)

    def seq_method(self, rid, rq, n, f, this, args, st):
        E = self.E
        if n in ('size', 'capacity', 'max_size'):
            v = self.seqread(this, st)
            if n == 'size':
                return v.n
            if n == 'capacity':
                # unspecified value at least size()
                c = fresh('capacity', U64)
                E.facts.append(le(v.n, c))
                return c
            return u64((1 << 62))
        if n == 'empty':
            v = self.seqread(this, st)
            if isinstance(v, VecL):
                E.emptied = len(v.e)
            elif rng(v.n)[1] <= 40:
                E.emptied = rng(v.n)[1]
            return eq(v.n, u64(0))
        if n == 'operator[]':
            v = self.seqread(this, st)
            i = self.idx(args[0], st)
            E.oblige(st, lt(i, v.n), 'index in range: operator[]', 'safety')
            if st.dead or (isinstance(v, VecL) and not v.e):
                st.dead = True
                from engine import DeadPath
                raise DeadPath()
            return self.elem(this, v, i, f, rid, st)
        if n == 'at':
            v = self.seqread(this, st)
            i = self.idx(args[0], st)
            ok = st.decide(lt(i, v.n))
            if ok is not TRUE:
                s2 = st.fork(not_(ok))
                E.throw(s2, 'std::out_of_range', Opaque('out_of_range'))
                st.assume(ok)
            if st.dead or (isinstance(v, VecL) and not v.e):
                st.dead = True
                from engine import DeadPath
                raise DeadPath()
            return self.elem(this, v, i, f, rid, st)
        if n in ('front', 'back'):
            v = self.seqread(this, st)
            E.oblige(st, not_(eq(v.n, u64(0))), n + '() of a non-empty container', 'safety')
            if st.dead or (isinstance(v, VecL) and not v.e):
                st.dead = True
                from engine import DeadPath
                raise DeadPath()
            i = u64(0) if n == 'front' else sub(v.n, u64(1))
            return self.elem(this, v, i, f, rid, st)
        if n in ('begin', 'cbegin', 'data'):
            return this.ext(('i', u64(0)))
        if n in ('end', 'cend'):
            v = self.seqread(this, st)
            return this.ext(('i', v.n))
        if n in ('push_back', 'emplace_back'):
            v = self.seqread(this, st)
            et = self.targ(rid, 0)
            if n == 'push_back':
                x = self.val(args[0], st) if not self.is_ptrlike(et) else (self.val1(args[0], st) if E.isref(f['params'][0]['t']) else args[0])
            else:
                x = self.make(et, args, st)
            E.write(st, this, self.append(v, x))
            if n == 'emplace_back':
                return this.ext(('i', v.n))
            return VOID
        if n == 'pop_back':
            v = self.seqread(this, st)
            E.oblige(st, not_(eq(v.n, u64(0))), 'pop_back() of a non-empty container', 'safety')
            if isinstance(v, VecL):
                if not v.e:
                    st.dead = True
                    from engine import DeadPath
                    raise DeadPath()
                E.write(st, this, VecL(v.e[:-1], v.et))
            else:
                E.write(st, this, VecS(sub(v.n, u64(1)), v.x, v.body, v.et))
            return VOID
        if n == 'pop_front':
            v = self.seqread(this, st)
            E.oblige(st, not_(eq(v.n, u64(0))), 'pop_front() of a non-empty container', 'safety')
            if isinstance(v, VecL):
                if not v.e:
                    st.dead = True
                    from engine import DeadPath
                    raise DeadPath()
                E.write(st, this, VecL(v.e[1:], v.et))
            else:
                E.write(st, this, VecS(sub(v.n, u64(1)), v.x, vsubst(v.body, {v.x.id: add(v.x, u64(1))}), v.et))
            return VOID
        if n == 'clear':
            E.write(st, this, VecL([], self.targ(rid, 0)))
            return VOID
        if n in ('reserve', 'shrink_to_fit'):
            return VOID
        if n == 'resize':
            v = self.seqread(this, st)
            m = self.idx(args[0], st)
            x = self.val(args[1], st) if len(args) > 1 else self.value_init(self.targ(rid, 0), st)
            if isinstance(v, VecL) and is_const(m) and m.val <= 256:
                e = v.e[:m.val] + [x] * max(0, m.val - len(v.e))
                E.write(st, this, VecL(e, v.et))
            elif isinstance(v, VecL) and not v.e:
                E.write(st, this, VecS(m, fresh('x', U64), x, v.et))
            else:
                w = tolam(v)
                E.write(st, this, VecS(m, w.x, vite(lt(w.x, w.n), w.body, x), w.et))
            return VOID
        if n == 'assign':
            pt = E.types[E.strip(f['params'][0]['t'])]
            if pt['k'] == 'int' and len(args) == 2:
                E.write(st, this, self.repeat(self.idx(args[0], st), self.val(args[1], st), self.targ(rid, 0)))
                return VOID
            if self.is_ptrlike(E.strip(f['params'][0]['t'])):
                E.write(st, this, self.range_copy(self.val1(args[0], st), self.val1(args[1], st), self.targ(rid, 0), st))
                return VOID
            E.write(st, this, self.val(args[0], st))
            return VOID
        if n == 'fill':
            v = self.seqread(this, st)
            x = self.val(args[0], st)
            E.write(st, this, VecL([x] * len(v.e), v.et))
            return VOID
        if n == 'operator=':
            v = self.val(args[0], st)
            E.write(st, this, v)
            return this
        if n == 'swap':
            a, b = E.read(st, this), E.read(st, args[0])
            E.write(st, this, b)
            E.write(st, args[0], a)
            return VOID
        if n in ('emplace', 'insert'):
            pos = self.val1(args[0], st)
            et = self.targ(rid, 0)
            if len(pos.alts) != 1 or len(args) < 2:
                raise Unsupported('insert position')
            i = pos.alts[0][1].path[-1][1]
            if n == 'insert' and len(args) > 2:
                if len(args) != 3 or not self.is_ptrlike(E.strip(f['params'][1]['t'])):
                    raise Unsupported('range insert')
                r = self.range_copy(self.val1(args[1], st), self.val1(args[2], st), et, st)
                v = self.seqread(this, st)
                E.oblige(st, le(i, v.n), 'insert position in range', 'safety')
                if isinstance(v, VecL) and isinstance(r, VecL) and is_const(i):
                    E.write(st, this, VecL(v.e[:i.val] + r.e + v.e[i.val:], et))
                else:
                    w, z = tolam(v), tolam(r)
                    y = fresh('x', U64)
                    body = vite(lt(y, i), vsubst(w.body, {w.x.id: y}), vite(lt(y, add(i, z.n)), vsubst(z.body, {z.x.id: sub(y, i)}), vsubst(w.body, {w.x.id: sub(y, z.n)})))
                    E.write(st, this, VecS(add(w.n, z.n), y, body, et))
                return this.ext(('i', i))
            if n == 'insert' and len(args) == 2 and self.is_seq_t(E.strip(f['params'][1]['t'])):
                raise Unsupported('insert list')
            x = self.val(args[1], st) if n == 'insert' else self.make(et, args[1:], st)
            v = self.seqread(this, st)
            E.oblige(st, le(i, v.n), 'insert position in range', 'safety')
            if isinstance(v, VecL) and is_const(i):
                E.write(st, this, VecL(v.e[:i.val] + [x] + v.e[i.val:], et))
            elif isinstance(v, VecL) and not v.e:
                E.write(st, this, VecL([x], et))
            elif i is v.n:
                E.write(st, this, self.append(v, x))
            else:
                w = tolam(v)
                y = fresh('x', U64)
                body = vite(lt(y, i), vsubst(w.body, {w.x.id: y}), vite(eq(y, i), x, vsubst(w.body, {w.x.id: sub(y, u64(1))})))
                E.write(st, this, VecS(add(w.n, u64(1)), y, body, et))
            return this.ext(('i', i))
        if n == 'erase':
            pos = self.val1(args[0], st)
            i = pos.alts[0][1].path[-1][1]
            v = self.seqread(this, st)
            if len(args) == 2:
                p2 = self.val1(args[1], st)
                j = p2.alts[0][1].path[-1][1]
            else:
                j = add(i, u64(1))
            E.oblige(st, and_(le(i, j), le(j, v.n)), 'erase range valid', 'safety')
            if isinstance(v, VecL) and is_const(i) and is_const(j):
                E.write(st, this, VecL(v.e[:i.val] + v.e[j.val:], v.et))
            else:
                w = tolam(v)
                y = fresh('x', U64)
                d = sub(j, i)
                body = vite(lt(y, i), vsubst(w.body, {w.x.id: y}), vsubst(w.body, {w.x.id: add(y, d)}))
                E.write(st, this, VecS(sub(w.n, d), y, body, w.et))
            return this.ext(('i', i))
        return NotImplemented

    def is_seq_t(self, ti):
        t = self.E.types[ti]
        return t['k'] == 'rec' and self.E.recs[t['id']]['qn'] in SEQ

    def append(self, v, x):
        if isinstance(v, VecL):
            return VecL(v.e + [x], v.et)
        return VecS(add(v.n, u64(1)), v.x, vite(eq(v.x, v.n), x, v.body), v.et)

    def elem(self, this, v, i, f, rid, st):
        p = this.ext(('i', i))
        # vector<bool> returns proxy objects / bools by value
        rt = self.E.types[f['ret']]
        if rt['k'] == 'rec' and self.E.recs[rt['id']]['qn'] == 'std::_Bit_reference':
            return p
        if rt['k'] == 'bool':
            return self.E.read(st, p)
        return p

    def iter_method(self, n, f, this, args, st):
        E = self.E
        p = E.read(st, this)
        if n == 'operator*':
            E.check_deref(E.nonnull(p, st), st)
            rt = E.types[f['ret']]
            return p
        if n == 'operator->':
            E.check_deref(E.nonnull(p, st), st)
            return p
        if n in ('operator++', 'operator--'):
            d = 1 if n == 'operator++' else -1
            q = E.ptradd(p, const(d, U64))
            E.write(st, this, q)
            if args:
                return p
            return this
        if n in ('operator+=', 'operator-='):
            d = cast(self.val(args[0], st), U64)
            E.write(st, this, E.ptradd(p, d if n == 'operator+=' else neg(d)))
            return this
        if n in ('operator+', 'operator-'):
            d = cast(self.val(args[0], st), U64)
            return E.ptradd(p, d if n == 'operator+' else neg(d))
        if n == 'operator[]':
            d = cast(self.val(args[0], st), U64)
            r = E.ptradd(p, d)
            E.check_deref(r, st)
            return r
        if n == 'base':
            return p
        if n == 'operator=':
            E.write(st, this, self.val1(args[0], st))
            return this
        if n in ('operator==', 'operator!='):
            return E.compare(n[8:], p, self.val1(args[0], st))
        return NotImplemented

    def opt_method(self, rid, n, f, this, args, st):
        E = self.E
        v = E.read(st, this)
        if n == 'has_value' or f.get('mk') == 'conv':
            return v.has
        if n in ('operator*', 'operator->'):
            E.oblige(st, v.has, 'engaged optional', 'safety')
            if v.v is None or st.dead:
                st.dead = True
                from engine import DeadPath
                raise DeadPath()
            return this.ext(('o',))
        if n == 'value':
            ok = st.decide(v.has)
            if ok is not TRUE:
                s2 = st.fork(not_(ok))
                E.throw(s2, 'std::bad_optional_access', Opaque('bad_optional_access'))
                st.assume(ok)
            if st.dead or v.v is None:
                st.dead = True
                from engine import DeadPath
                raise DeadPath()
            return this.ext(('o',))
        if n == 'value_or':
            d = args[0]
            et = self.targ(rid, 0)
            x = self.val(d, st) if not self.is_ptrlike(et) or not isinstance(d, Ptr) or d.alts[0][1] is not None else d
            d = self.coerce(x if not self.is_ptrlike(et) or isinstance(x, (Ptr, Clo)) else d, et, st)
            if isinstance(d, Clo):
                d = self.fix_generic(d, f)
            if v.v is None:
                return d
            return V.vite(v.has, v.v, d)
        if n == 'reset':
            E.write(st, this, Opt(FALSE, v.v))
            return VOID
        if n == 'emplace':
            E.write(st, this, Opt(TRUE, self.make(self.targ(rid, 0), args, st)))
            return this.ext(('o',))
        if n == 'operator=':
            pt = E.types[E.strip(f['params'][0]['t'])]
            if pt['k'] == 'rec' and E.recs[pt['id']]['qn'] == 'std::nullopt_t':
                E.write(st, this, Opt(FALSE, v.v))
                return this
            et = self.targ(rid, 0)
            if pt['k'] == 'rec' and E.recs[pt['id']]['qn'] == 'std::optional' and not (E.types[et]['k'] == 'rec' and E.recs[E.types[et]['id']]['qn'] == 'std::optional'):
                o = self.val(args[0], st)
                E.write(st, this, o)
                return this
            E.write(st, this, Opt(TRUE, self.coerce(self.val(args[0], st) if not self.is_ptrlike(et) else self.val1(args[0], st), et, st)))
            return this
        if n == 'swap':
            a, b = E.read(st, this), E.read(st, args[0])
            E.write(st, this, b)
            E.write(st, args[0], a)
            return VOID
        return NotImplemented

    def bitset_method(self, rid, n, f, this, args, st):
        E = self.E
        v = E.read(st, this)
        N = len(v.b)
        if n == 'operator[]':
            i = self.idx(args[0], st)
            E.oblige(st, lt(i, u64(N)), 'bit index in range: operator[]', 'safety')
            if st.dead or (is_const(i) and i.val >= N):
                st.dead = True
                from engine import DeadPath
                raise DeadPath()
            p = this.ext(('b', i))
            if E.types[f['ret']]['k'] == 'bool':
                return E.read(st, p)
            return p
        if n in ('test', 'set', 'reset', 'flip') and (n == 'test' or args):
            i = self.idx(args[0], st)
            ok = st.decide(lt(i, u64(N)))
            if ok is not TRUE:
                E.throw(st.fork(not_(ok)), 'std::out_of_range', Opaque('out_of_range'))
                st.assume(ok)
                if st.dead:
                    from engine import DeadPath
                    raise DeadPath()
            p = this.ext(('b', i))
            if n == 'test':
                return E.read(st, p)
            if n == 'set':
                x = E.tobool(self.val(args[1], st)) if len(args) > 1 else TRUE
            elif n == 'reset':
                x = FALSE
            else:
                x = not_(E.read(st, p))
            E.write(st, p, x)
            return this
        if n in ('set', 'reset', 'flip'):
            E.write(st, this, Bits([TRUE if n == 'set' else FALSE if n == 'reset' else not_(b) for b in v.b]))
            return this
        if n == 'count':
            r = u64(0)
            for b in v.b:
                r = add(r, cast(b, U64))
            return r
        if n == 'any':
            return or_(*v.b)
        if n == 'none':
            return not_(or_(*v.b))
        if n == 'all':
            return and_(*v.b)
        if n == 'size':
            return u64(N)
        if n in ('to_ulong', 'to_ullong'):
            hi = or_(*v.b[64:])
            ok = st.decide(not_(hi))
            if ok is not TRUE:
                E.throw(st.fork(not_(ok)), 'std::overflow_error', Opaque('overflow_error'))
                st.assume(ok)
                if st.dead:
                    from engine import DeadPath
                    raise DeadPath()
            return frombits(v.b[:64], U64)
        if n == 'operator~':
            return Bits([not_(b) for b in v.b])
        if n in ('operator&=', 'operator|=', 'operator^='):
            w = self.val(args[0], st)
            fn = {'&': and_, '|': or_, '^': xor_}[n[8]]
            E.write(st, this, Bits([fn(a, b) for a, b in zip(v.b, w.b)]))
            return this
        if n in ('operator<<', 'operator>>', 'operator<<=', 'operator>>='):
            k = self.idx(args[0], st)
            r = Bits(self.shift(v.b, k, '<<' in n))
            if n.endswith('='):
                E.write(st, this, r)
                return this
            return r
        if n in ('operator==', 'operator!='):
            w = self.val(args[0], st)
            r = V.veq(v, w)
            return r if n == 'operator==' else not_(r)
        if n == 'operator=':
            E.write(st, this, self.val(args[0], st))
            return this
        return NotImplemented

    def shift(self, b, k, left):
        N = len(b)

        def sh(m):
            if m >= N:
                return [FALSE] * N
            return [FALSE] * m + b[:N - m] if left else b[m:] + [FALSE] * m
        if is_const(k):
            return sh(k.val)
        # barrel shifter over the bits of k
        cur = list(b)
        nb = max(1, (N - 1).bit_length())
        for j in range(nb):
            m = 1 << j
            s = ([FALSE] * m + cur[:N - m] if left else cur[m:] + [FALSE] * m) if m < N else [FALSE] * N
            c = getbit(k, j)
            cur = [ite(c, x, y) for x, y in zip(s, cur)]
        big = not_(lt(k, u64(1 << nb)))
        return [and_(not_(big), x) for x in cur]

    def smart_method(self, rid, rq, n, f, this, args, st):
        E = self.E
        p = E.read(st, this)
        if n in ('operator*', 'operator->'):
            return E.nonnull(p, st)
        if n == 'get' or n == 'lock':
            return p
        if f.get('mk') == 'conv':
            return E.tobool(p)
        if n == 'expired':
            return not_(E.tobool(p))
        if n == 'reset':
            E.write(st, this, args[0] if args else NULL)
            return VOID
        if n == 'release':
            E.write(st, this, NULL)
            return p
        if n == 'operator=':
            v = args[0]
            if isinstance(v, Ptr) and E.isref(f['params'][0]['t']):
                src = v
                v = E.read(st, v)
                if E.types[f['params'][0]['t']]['k'] == 'rref':
                    E.write(st, src, NULL)
            pt = E.types[E.strip(f['params'][0]['t'])]
            if pt['k'] == 'rec' and E.recs[pt['id']].get('targs'):
                v = self.upcast(v, E.recs[pt['id']]['targs'][0].get('t'), self.targ(rid, 0))
            E.write(st, this, v)
            return this
        return NotImplemented

    def str_method(self, n, f, this, args, st):
        E = self.E
        v = E.read(st, this)
        if n in ('c_str', 'data'):
            return v
        if f.get('mk') == 'conv':
            return v
        if n == 'operator=':
            x = self.val(args[0], st)
            if isinstance(x, Ptr):
                x = E.read(st, x)
            if not isinstance(x, Str):
                raise Unsupported('string assignment')
            E.write(st, this, x)
            return this
        if n in ('size', 'length'):
            return app('strlen', (v.t,), U64)
        if n == 'empty':
            return eq(v.t, E.strconst('').t)
        if n == 'compare':
            x = self.val(args[0], st)
            return ite(eq(v.t, x.t), const(0, I32), const(1, I32))
        return NotImplemented

    def stream_method(self, rq, n, f, this, args, st):
        E = self.E
        # base class subobjects of iostreams share one model value
        this = self.stream_root(this)
        if n == 'write':
            s = E.read(st, this)
            p = args[0]
            size = self.val(args[1], st)
            if not isinstance(s, Stream):
                return this
            for q, k in self.span(p, size, st):
                E.write(st, this, Stream(E.read(st, this).segs + (self.token(q, k, st),)))
            return this
        if n == 'read':
            s = E.read(st, this)
            p = args[0]
            size = self.val(args[1], st)
            if not isinstance(s, Stream):
                raise Unsupported('read from opaque stream')
            for q, k in self.span(p, size, st):
                self.read_token(this, E.read(st, this), q, k, st)
            return this
        if n in ('operator<<',):
            return this
        if n in ('good',):
            return TRUE
        if n in ('str', 'flush', 'clear', 'rdbuf', 'seekg', 'tellg'):
            return Opaque(n)
        if f.get('mk') == 'conv':
            return TRUE
        return NotImplemented

    def stream_root(self, this):
        alts = []
        for g, l in this.alts:
            p = l.path
            while p and p[-1][0] == 'f' and p[-1][1].startswith('@std::'):
                p = p[:-1]
            alts.append((g, Lv(l.root, p)))
        return Ptr(alts)

    def span(self, p, size, st):
        """a transfer of several array elements is one transfer per element"""
        E = self.E
        if len(p.alts) != 1 or p.alts[0][1] is None or not is_const(size):
            return [(p, size)]
        l = p.alts[0][1]
        if not l.path or l.path[-1][0] != 'i':
            return [(p, size)]
        v = E.read(st, p)
        if not isinstance(v, T) or not isinstance(v.sort, tuple):
            return [(p, size)]
        w = v.sort[0] // 8
        if w == 0 or size.val <= w or size.val % w:
            return [(p, size)]
        return [(E.ptradd(p, u64(i)), const(w, size.sort)) for i in range(size.val // w)]

    def token(self, p, size, st):
        E = self.E
        l = p.alts[0][1]
        v = E.read(st, p)
        if isinstance(v, Ptr) and is_const(size) and size.val == 1:
            v = E.read(st, v)  # an element of a vector<bool>, bound to a reference
        return ('tok', size.id, v)

    def norm_head(self, segs, st):
        """resolve conditional heads under the path condition"""
        while segs:
            h = segs[0]
            if h[0] == 'cond':
                c = st.decide(h[1])
                if c is TRUE:
                    segs = h[2] + segs[1:]
                    continue
                if c is FALSE:
                    segs = h[3] + segs[1:]
                    continue
            if h[0] == 'rep' and is_const(h[1]):
                out = []
                for i in range(h[1].val):
                    out.extend(segs_subst(h[3], {h[2].id: u64(i)}))
                segs = tuple(out) + segs[1:]
                continue
            break
        return segs

    def read_token(self, this, s, p, size, st):
        E = self.E
        from engine import DeadPath, merge
        segs = self.norm_head(s.segs, st)
        if not segs:
            E.oblige(st, FALSE, 'stream read past what was written', 'stream')
            st.dead = True
            raise DeadPath()
        h = segs[0]
        if h[0] == 'cond':
            # read on both sides
            s1, s2 = st.fork(h[1]), st.fork(not_(h[1]))
            for sx, hd in ((s1, h[2]), (s2, h[3])):
                if not sx.dead:
                    E.write(sx, this, Stream(hd + segs[1:]))
                    try:
                        self.read_token(this, E.read(sx, this), p, size, sx)
                    except DeadPath:
                        sx.dead = True
            if s1.dead and s2.dead:
                st.dead = True
                raise DeadPath()
            st.become(merge(s1, s2))
            return
        if h[0] == 'rep':
            raise Unsupported('read into a repeated segment outside a matching loop')
        _, sz, v = h
        old = E.read(st, p)
        if byid(sz) is not size:
            E.oblige(st, eq(byid(sz), size), 'stream read has the size that was written', 'stream')
        if V.shape(old) != V.shape(v) and not (isinstance(old, Opt) and isinstance(v, Opt)):
            if isinstance(old, T) and isinstance(v, T) and isinstance(old.sort, tuple) and isinstance(v.sort, tuple):
                v = cast(v, old.sort)
            elif isinstance(old, T) and isinstance(v, T) and B in (old.sort, v.sort) and R not in (old.sort, v.sort):
                v = cast(v, old.sort)
            elif isinstance(old, Rec) and isinstance(v, Rec) and old.rid == v.rid:
                pass
            elif isinstance(old, (VecL, VecS)) and isinstance(v, (VecL, VecS)):
                pass
            else:
                E.oblige(st, FALSE, 'stream read has the type that was written', 'stream')
                st.dead = True
                raise DeadPath()
        E.write(st, p, v)
        E.write(st, this, Stream(segs[1:]))

    def free(self, q, n, f, args, st):
        E = self.E
        if q in ('std::max', 'std::min'):
            return self.maxmin(f, args, st)
        if q in ('std::move', 'std::forward', 'std::as_const'):
            if len(args) == 1:
                return args[0]
        if q == 'std::swap':
            a, b = E.read(st, args[0]), E.read(st, args[1])
            E.write(st, args[0], b)
            E.write(st, args[1], a)
            return VOID
        if q in ('std::addressof', 'std::__addressof'):
            return args[0]
        if q in ('std::upper_bound', 'std::lower_bound'):
            return self.bound(q, f, args, st)
        if q in ('std::count_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find_if_not', 'std::count', 'std::find'):
            return self.algo(q[5:], f, args, st)
        if q in ('std::distance',):
            return E.ptrdiff(self.val1(args[1], st), self.val1(args[0], st))
        if q in ('std::next', 'std::prev'):
            p = self.val1(args[0], st)
            d = cast(self.val(args[1], st), U64) if len(args) > 1 else u64(1)
            return E.ptradd(p, d if q == 'std::next' else neg(d))
        if q in ('std::copy',):
            return self.copy(args, st)
        if q == 'std::fill_n':
            return self.fill(args[0], self.idx(args[1], st), self.val(args[2], st), st)
        if q == 'std::fill':
            a, b = self.val1(args[0], st), self.val1(args[1], st)
            return self.fill(a, cast(E.ptrdiff(b, a), U64), self.val(args[2], st), st)
        if q == 'std::equal' and len(args) == 3:
            return NotImplemented
        if q == 'std::invoke':
            return NotImplemented
        if n.startswith('operator') and len(args) == 2 and n[8:] in ('==', '!=', '<', '>', '<=', '>=', '-', '&', '|', '^', '<<', '>>', '+'):
            return self.binop(n[8:], q, f, args, st)
        if q in ('std::abs', 'abs', 'std::fabs', 'fabs'):
            v = self.val(args[0], st)
            return ite(lt(v, const(0, v.sort)), neg(v), v)
        if q in ('std::popcount', '__builtin_popcountll', '__builtin_popcount', '__builtin_popcountl'):
            v = self.val(args[0], st)
            r = const(0, I32)
            for i in range(v.sort[0]):
                r = add(r, cast(getbit(v, i), I32))
            return r
        if q == 'std::isnan' or q == 'std::isinf':
            return FALSE
        if q == 'std::ceil' or q == 'std::floor' or q == 'ceil' or q == 'floor':
            v = self.val(args[0], st)
            return app(q, (v,), R)
        if q == 'std::get':
            p = args[0]
            rid = E.types[E.strip(f['params'][0]['t'])]['id']
            a = f['targs'][0]
            i = int(a['i']) if 'i' in a else [x['t'] for x in self.pack(rid)].index(a['t'])
            rq = E.recs[rid]['qn']
            if rq == 'std::array':
                return p.ext(('i', u64(i)))
            if rq == 'std::pair':
                return p.ext(('f', ('first', 'second')[i]))
            r = p.ext(('f', str(i)))
            if E.isref(self.pack(rid)[i]['t']):
                return E.read(st, r)
            return r
        if q in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size'):
            if q == 'std::size':
                return self.seqread(args[0], st).n
            if q.endswith('begin'):
                return args[0].ext(('i', u64(0)))
            return args[0].ext(('i', self.seqread(args[0], st).n))
        if q in ('std::__iterator_category',):
            return Opaque('itercat')
        if q == 'std::endl':
            return args[0]
        if q in ('std::to_string', 'std::operator+'):
            return Str(fresh('str', U64))
        if q == 'std::pow' or q == 'pow':
            a = self.val(args[0], st)
            b = self.val(args[1], st)
            if is_const(b) and b.val.denominator == 1 and 0 <= b.val <= 8:
                r = const(1, R)
                for _ in range(int(b.val)):
                    r = rmul(r, cast(a, R))
                return r
            return app('pow', (cast(a, R), cast(b, R)), R)
        if q in ('std::round', 'round', 'std::sqrt', 'std::lround', 'std::trunc'):
            v = self.val(args[0], st)
            return app(q, (v,), E.sort(f['ret']))
        return NotImplemented

    def copy(self, args, st):
        E = self.E
        a, b, d = self.val1(args[0], st), self.val1(args[1], st), self.val1(args[2], st)
        la, lb, ld = a.alts[0][1], b.alts[0][1], d.alts[0][1]
        src = readpath(st.mem[la.root], la.path[:-1])
        dst = readpath(st.mem[ld.root], ld.path[:-1])
        i, j, k = la.path[-1][1], lb.path[-1][1], ld.path[-1][1]
        n = sub(j, i)
        E.oblige(st, and_(le(i, j), le(j, src.n), le(k, dst.n), le(n, sub(dst.n, k))), 'std::copy within bounds', 'safety')
        if is_const(n) and is_const(i) and is_const(k) and n.val <= 300:
            for t in range(n.val):
                E.write(st, d.__class__([(TRUE, Lv(ld.root, ld.path[:-1] + (('i', u64(k.val + t)),)))]), vget(src, u64(i.val + t)))
        else:
            s, w = tolam(src), tolam(dst)
            y = fresh('x', U64)
            body = vite(and_(le(k, y), lt(sub(y, k), n)), vsubst(s.body, {s.x.id: add(sub(y, k), i)}), vsubst(w.body, {w.x.id: y}))
            E.write(st, P(Lv(ld.root, ld.path[:-1])), VecS(w.n, y, body, w.et))
        return E.ptradd(d, n)

    def fill(self, p, n, v, st):
        E = self.E
        l = p.alts[0][1]
        dst = readpath(st.mem[l.root], l.path[:-1])
        k = l.path[-1][1]
        E.oblige(st, and_(le(k, dst.n), le(n, sub(dst.n, k))), 'fill within bounds', 'safety')
        if isinstance(dst, VecL) and is_const(n) and is_const(k):
            e = list(dst.e)
            for t in range(n.val):
                e[k.val + t] = self.coerce(v, dst.et, st)
            E.write(st, P(Lv(l.root, l.path[:-1])), VecL(e, dst.et))
        else:
            w = tolam(dst)
            y = fresh('x', U64)
            E.write(st, P(Lv(l.root, l.path[:-1])), VecS(w.n, y, vite(and_(le(k, y), lt(sub(y, k), n)), self.coerce(v, w.et, st), vsubst(w.body, {w.x.id: y})), w.et))
        return E.ptradd(p, n)

    def algo(self, n, f, args, st):
        """searches and counts over a range with a (pure) predicate"""
        E = self.E
        a, b = self.val1(args[0], st), self.val1(args[1], st)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr) or len(a.alts) != 1 or len(b.alts) != 1 or not a.alts[0][1].path or a.alts[0][1].path[-1][0] != 'i':
            raise Unsupported('std::%s over these iterators' % n)
        la, lb = a.alts[0][1], b.alts[0][1]
        lo, hi = la.path[-1][1], lb.path[-1][1]
        by = n in ('count', 'find')

        def test(i, s):
            el = Ptr([(TRUE, Lv(la.root, la.path[:-1] + (('i', i),)))])
            if by:
                x, y = E.read(s, el), self.val1(args[2], s)
                if isinstance(y, Ptr) and not isinstance(x, Ptr):
                    y = E.read(s, y)
                if isinstance(x, T) and isinstance(y, T) and x.sort != y.sort and isinstance(x.sort, tuple) and isinstance(y.sort, tuple):
                    w = max(x.sort[0], y.sort[0], 32)
                    sg = all(z.sort[1] or z.sort[0] < w for z in (x, y))
                    x, y = cast(x, (w, sg)), cast(y, (w, sg))
                return E.tobool(E.compare('==', x, y))
            fn = args[2]
            fo = fn if isinstance(fn, Ptr) else P(Lv(E.newroot(s, fn)))
            fv_ = E.read(s, fo)
            if not isinstance(fv_, Rec):
                raise Unsupported('predicate of std::%s' % n)
            return E.tobool(E.call_lambda(fv_.rid, fv_, [el], s, self.pick_any_op(fv_.rid), None, fo))
        rs = E.sort(f['ret']) if n.startswith('count') else None
        if is_const(lo) and is_const(hi) and hi.val - lo.val <= 300:
            cs = [test(u64(i), st) for i in range(lo.val, hi.val)]
            if n.startswith('count'):
                r = u64(0)
                for c in cs:
                    r = add(r, cast(c, U64))
                return cast(r, rs)
            if n == 'any_of':
                return or_(*cs) if cs else FALSE
            if n == 'none_of':
                return not_(or_(*cs)) if cs else TRUE
            if n == 'all_of':
                return and_(*cs) if cs else TRUE
            r = hi
            for i, c in reversed(list(enumerate(cs))):
                r = ite(not_(c) if n == 'find_if_not' else c, u64(lo.val + i), r)
            return Ptr([(TRUE, Lv(la.root, la.path[:-1] + (('i', r),)))])
        if not (is_const(lo) and lo.val == 0):
            raise Unsupported('std::%s over a part of a range' % n)
        k = fresh('k', U64)
        s = st.fork(lt(k, hi))
        c = test(k, s)
        if n.startswith('count'):
            return cast(sum_(k, hi, cast(c, U64)), rs)
        if n == 'any_of':
            return any_(k, hi, c)
        if n == 'none_of':
            return not_(any_(k, hi, c))
        if n == 'all_of':
            return all_(k, hi, c)
        if n == 'find_if_not':
            c = not_(c)
        r = fresh('found', U64)
        st.assume(le(r, hi))
        st.assume(all_(k, hi, implies(lt(k, r), not_(c))))
        st.assume(or_(eq(r, hi), subst(c, {k.id: r})))
        return Ptr([(TRUE, Lv(la.root, la.path[:-1] + (('i', r),)))])

    def bound(self, q, f, args, st):
        """std::upper_bound / lower_bound: the partition point.  Contract: requires the range partitioned; here the result r is
        characterised by: forall i<r: !comp(val, a[i]) (resp. comp(a[i], val)); forall i>=r: comp(val, a[i]) (resp. not)."""
        E = self.E
        a, b = self.val1(args[0], st), self.val1(args[1], st)
        la, lb = a.alts[0][1], b.alts[0][1]
        lo, hi = la.path[-1][1], lb.path[-1][1]
        val = args[2]

        def comp(i, s):
            el = Ptr([(TRUE, Lv(la.root, la.path[:-1] + (('i', i),)))])
            if len(args) > 3:
                fn = args[3]
                fo = fn if isinstance(fn, Ptr) else P(Lv(E.newroot(s, fn)))
                fv_ = E.read(s, fo)
                order = [val, el] if q == 'std::upper_bound' else [el, val]
                if isinstance(fv_, Rec):
                    op = self.pick_any_op(fv_.rid)
                    return E.tobool(E.call_lambda(fv_.rid, fv_, order, s, op, None, fo))
                raise Unsupported('comparator')
            x, y = E.read(s, val), E.read(s, el)
            return E.compare('<', x, y) if q == 'std::upper_bound' else E.compare('<', y, x)
        if is_const(lo) and is_const(hi) and hi.val - lo.val <= 8:
            # concrete range: first position satisfying the predicate (range is partitioned: obligation)
            r = hi
            prs = []
            for i in range(hi.val - 1, lo.val - 1, -1):
                c = E.oracle(st, comp(u64(i), st))
                if q != 'std::upper_bound':
                    c = not_(c)
                prs.append(c)
                r = ite(c, u64(i), r)
            prs.reverse()
            for x, y in zip(prs, prs[1:]):
                E.oblige(st, implies(x, y), 'range is partitioned for binary search', 'safety')
            return Ptr([(TRUE, Lv(la.root, la.path[:-1] + (('i', r),)))])
        r = fresh('bound', U64)
        k = fresh('k', U64)
        j = fresh('j', U64)
        E.suppress += 1
        try:
            s = st.fork(and_(le(lo, k), lt(k, hi)))
            ck = comp(k, s)
            if q != 'std::upper_bound':
                ck = not_(ck)
        finally:
            E.suppress -= 1
        # precondition: monotone in position
        cj = subst(ck, {k.id: j})
        E.oblige(st, all_(k, hi, all_(j, k, implies(and_(le(lo, j), cj), ck))), 'range is partitioned for binary search', 'safety')
        st.assume(and_(le(lo, r), le(r, hi)))
        st.assume(all_(k, hi, implies(le(lo, k), eq(ck, le(r, k)))))
        return Ptr([(TRUE, Lv(la.root, la.path[:-1] + (('i', r),)))])

    def binop(self, op, q, f, args, st):
        E = self.E
        a, b = args
        ta, tb = E.strip(f['params'][0]['t']), E.strip(f['params'][1]['t'])

        def get(x, ti, ref):
            if isinstance(x, Ptr):
                if self.is_ptrlike(ti) and not ref:
                    return x
                if not ref and len(x.alts) == 1 and x.alts[0][1] is None:
                    return x
                if x.alts[0][1] is not None and x.alts[0][1].path and x.alts[0][1].path[-1][0] == 'f' and x.alts[0][1].path[-1][1].startswith('@std::__detail::_Node'):
                    x = Ptr([(g, Lv(l.root, l.path[:-1])) for g, l in x.alts])
                return E.read(st, x)
            return x
        a = get(a, ta, E.isref(f['params'][0]['t']))
        b = get(b, tb, E.isref(f['params'][1]['t']))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == '-':
                return E.ptrdiff(a, b)
            return E.compare(op, a, b)
        if isinstance(a, Ptr) and isinstance(b, T) and op in '+-':
            d = cast(b, U64)
            return E.ptradd(a, d if op == '+' else neg(d))
        if isinstance(a, Bits) and isinstance(b, Bits):
            fn = {'&': and_, '|': or_, '^': xor_}.get(op)
            if fn:
                return Bits([fn(x, y) for x, y in zip(a.b, b.b)])
            if op in ('==', '!='):
                r = V.veq(a, b)
                return r if op == '==' else not_(r)
        if isinstance(a, Opt) or isinstance(b, Opt):
            return self.opt_cmp(op, a, b, f, st)
        if isinstance(a, Str) and isinstance(b, Str):
            if op == '+':
                return Str(app('strcat', (a.t, b.t), U64))
            return E.compare(op, a, b)
        if op in ('==', '!=') and isinstance(a, (Rec, VecL, VecS)) and type(a) in (Rec, VecL, VecS):
            r = self.eqval(a, b, st)
            return r if op == '==' else not_(r)
        if isinstance(a, Clo) or isinstance(b, Clo):
            c = a if isinstance(a, Clo) else b
            r = or_(*[g for g, l in c.alts if l is None])
            return r if op == '==' else not_(r)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p = a if isinstance(a, Ptr) else b
            r = not_(E.tobool(p))
            return r if op == '==' else not_(r)
        if isinstance(a, Str) or isinstance(b, Str):
            return Str(fresh('str', U64)) if op == '+' else NotImplemented
        return NotImplemented

    def eqval(self, a, b, st):
        """operator== of std containers: element operator== (user-defined when the element type defines it)"""
        E = self.E
        if isinstance(a, (VecL, VecS)):
            et = a.et
            t = E.types[et]
            if t['k'] == 'rec' and not E.recs[t['id']]['std']:
                op = self.find_eq(t['id'])
                if op is None:
                    raise Unsupported('operator== of ' + t['id'])

                def cmp_(x, y, s):
                    px, py = P(Lv(E.newroot(s, x))), P(Lv(E.newroot(s, y)))
                    f = E.fns[op]
                    if f.get('rec') and not f.get('static'):
                        return E.tobool(E.call(op, px, [py], s))
                    return E.tobool(E.call(op, None, [px, py], s))
            else:
                def cmp_(x, y, s):
                    return self.eqval(x, y, s)
            if isinstance(a, VecL) and isinstance(b, VecL):
                if len(a.e) != len(b.e):
                    return FALSE
                return and_(*[cmp_(x, y, st) for x, y in zip(a.e, b.e)])
            if isinstance(a, VecL):
                a, b = b, a
            if isinstance(b, VecL) and not b.e:
                return eq(a.n, u64(0))
            k = fresh('k', U64)
            s = st.fork(and_(eq(a.n, b.n), lt(k, a.n)))
            c = cmp_(vget(a, k), vget(b, k), s)
            return and_(eq(a.n, b.n), all_(k, a.n, c))
        if isinstance(a, Rec) and E.recs[a.rid]['std']:
            return and_(*[self.eqval(a.f[k], b.f[k], st) for k in a.f])
        return V.veq(a, b)

    def find_eq(self, rid):
        for k, f in self.E.fns.items():
            if f['n'] == 'operator==' and 'body' in f:
                if f.get('rec') == rid:
                    return k
                ps = f['params']
                if len(ps) == 2 and all(self.E.types[self.E.strip(p['t'])].get('id') == rid for p in ps):
                    return k
        return None

    def opt_cmp(self, op, a, b, f, st):
        if op not in ('==', '!='):
            raise Unsupported('optional ordering')
        if isinstance(a, Opt) and isinstance(b, Opt):
            r = V.veq(a, b)
        else:
            o, v = (a, b) if isinstance(a, Opt) else (b, a)
            if isinstance(v, Opaque):
                r = not_(o.has)
            else:
                r = and_(o.has, eq(o.v, cast(v, o.v.sort))) if o.v is not None else FALSE
        return r if op == '==' else not_(r)
