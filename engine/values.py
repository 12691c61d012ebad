"""Structured symbolic values.  All values are immutable; updates build new values."""
from terms import *


class Unsupported(Exception):
    pass


class Val:
    __slots__ = ()


class Rec(Val):
    __slots__ = ('rid', 'f')

    def __init__(self, rid, f):
        self.rid = rid
        self.f = f

    def __repr__(self):
        return 'Rec<%s>%r' % (self.rid[-30:], self.f)


class VecL(Val):
    """sequence of known length"""
    __slots__ = ('e', 'et')

    def __init__(self, e, et):
        self.e = e
        self.et = et

    @property
    def n(self):
        return u64(len(self.e))

    def __repr__(self):
        return 'VecL%r' % (self.e,)


class VecS(Val):
    """sequence of symbolic length n; element at x is body[x]"""
    __slots__ = ('n', 'x', 'body', 'et')

    def __init__(self, n, x, body, et):
        self.n = n
        self.x = x
        self.body = body
        self.et = et

    def __repr__(self):
        return 'VecS(%r,%r->%r)' % (self.n, self.x, self.body)


class Opt(Val):
    __slots__ = ('has', 'v')

    def __init__(self, has, v):
        self.has = has
        self.v = v

    def __repr__(self):
        return 'Opt(%r,%r)' % (self.has, self.v)


class Bits(Val):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'Bits%r' % (self.b,)


class Str(Val):
    """string, as an interned code (equality only)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Str(%r)' % self.t


class Map(Val):
    """associative container over scalar keys: has(x), entry(x) = pair record, n = number of keys"""
    __slots__ = ('n', 'x', 'has', 'body')

    def __init__(self, n, x, has, body):
        self.n = n
        self.x = x
        self.has = has
        self.body = body

    def __repr__(self):
        return 'Map(%r,%r->%r:%r)' % (self.n, self.x, self.has, self.body)


class Variant(Val):
    __slots__ = ('i', 'alts')

    def __init__(self, i, alts):
        self.i = i
        self.alts = alts


class Lv:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __repr__(self):
        return '&%s%r' % (self.root, self.path)

    def ext(self, *p):
        return Lv(self.root, self.path + p)


class Ptr(Val):
    """pointer / reference / iterator / bit reference: guarded targets (None = null)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr%r' % (self.alts,)

    def ext(self, *p):
        return Ptr([(g, l.ext(*p)) for g, l in self.alts if l is not None])


class Clo(Val):
    """callable: guarded targets; None = empty std::function, ('lam', rid, recvalue) or ('fn', fid) or ('mem', ...)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Void(Val):
    def __repr__(self):
        return 'void'


VOID = Void()


def P(lv):
    return Ptr([(TRUE, lv)])


NULL = Ptr([(TRUE, None)])


class Opaque(Val):
    """a value nothing may depend on (identity only)"""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag


def tolam(v):
    """VecL -> VecS"""
    if isinstance(v, VecS):
        return v
    x = fresh('x', U64)
    if not v.e:
        raise Unsupported('empty list to lambda')
    body = v.e[-1]
    for i in range(len(v.e) - 2, -1, -1):
        body = vite(eq(x, u64(i)), v.e[i], body)
    return VecS(u64(len(v.e)), x, body, v.et)


def vite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            raise Unsupported('ite sorts %r %r' % (a.sort, b.sort))
        return ite(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.rid != b.rid or a.f.keys() != b.f.keys():
            raise Unsupported('merge of records %s / %s' % (a.rid, b.rid))
        return Rec(a.rid, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, (VecL, VecS)) and isinstance(b, (VecL, VecS)):
        if isinstance(a, VecL) and isinstance(b, VecL) and len(a.e) == len(b.e):
            return VecL([vite(c, x, y) for x, y in zip(a.e, b.e)], a.et)
        if isinstance(a, VecL) and not a.e:
            b = tolam(b)
            return VecS(ite(c, u64(0), b.n), b.x, b.body, b.et)
        if isinstance(b, VecL) and not b.e:
            a = tolam(a)
            return VecS(ite(c, a.n, u64(0)), a.x, a.body, a.et)
        a, b = tolam(a), tolam(b)
        return VecS(ite(c, a.n, b.n), a.x, vite(c, a.body, vsubst(b.body, {b.x.id: a.x})), a.et)
    if isinstance(a, Opt) and isinstance(b, Opt):
        if a.has is FALSE or a.v is None:
            return Opt(ite(c, a.has, b.has), b.v if a.has is FALSE else a.v)
        if b.has is FALSE or b.v is None:
            return Opt(ite(c, a.has, b.has), a.v)
        return Opt(ite(c, a.has, b.has), vite(c, a.v, b.v))
    if isinstance(a, Bits) and isinstance(b, Bits):
        return Bits([ite(c, x, y) for x, y in zip(a.b, b.b)])
    if isinstance(a, Str) and isinstance(b, Str):
        return Str(ite(c, a.t, b.t))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return mkptr([(and_(c, g), l) for g, l in a.alts] + [(and_(not_(c), g), l) for g, l in b.alts])
    if isinstance(a, Map) and isinstance(b, Map):
        m = {b.x.id: a.x}
        return Map(ite(c, a.n, b.n), a.x, ite(c, a.has, subst(b.has, m)), vite(c, a.body, vsubst(b.body, m)))
    if isinstance(a, Clo) and isinstance(b, Clo):
        return mkclo([(and_(c, g), l) for g, l in a.alts] + [(and_(not_(c), g), l) for g, l in b.alts])
    if isinstance(a, Variant) and isinstance(b, Variant):
        alts = {}
        for k in set(a.alts) | set(b.alts):
            if k in a.alts and k in b.alts:
                alts[k] = vite(c, a.alts[k], b.alts[k])
            else:
                alts[k] = a.alts.get(k, b.alts.get(k))
        return Variant(ite(c, a.i, b.i), alts)
    if isinstance(a, Void) and isinstance(b, Void):
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a if a.tag == b.tag else Opaque('merged')
    if a is None:
        return b
    if b is None:
        return a
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def samelv(a, b):
    """structural identity of lvalues"""
    if a is None or b is None:
        return a is b
    return a.root == b.root and len(a.path) == len(b.path) and all(x == y or (x[0] == y[0] and len(x) > 1 and x[1] is y[1]) for x, y in zip(a.path, b.path))


def mkptr(alts):
    out = []
    for g, l in alts:
        if g is FALSE:
            continue
        for i, (g2, l2) in enumerate(out):
            if samelv(l, l2):
                out[i] = (or_(g, g2), l2)
                break
        else:
            # same container, different index: one target with a conditional index
            for i, (g2, l2) in enumerate(out):
                if l is not None and l2 is not None and l.root == l2.root and len(l.path) == len(l2.path) and len(l.path) > 0:
                    diff = [j for j, (x, y) in enumerate(zip(l.path, l2.path)) if not (x == y or (x[0] == y[0] and len(x) > 1 and x[1] is y[1]))]
                    if len(diff) == 1 and l.path[diff[0]][0] == l2.path[diff[0]][0] and l.path[diff[0]][0] in ('i', 'b') and isinstance(l.path[diff[0]][1], T):
                        j = diff[0]
                        np = l.path[:j] + ((l.path[j][0], ite(g, l.path[j][1], l2.path[j][1])),) + l.path[j + 1:]
                        out[i] = (or_(g, g2), Lv(l.root, np))
                        break
            else:
                out.append((g, l))
    if len(out) == 1:
        out = [(TRUE, out[0][1])]
    return Ptr(out)


def mkclo(alts):
    out = []
    for g, l in alts:
        if g is FALSE:
            continue
        for i, (g2, l2) in enumerate(out):
            if l is l2 or (l is not None and l2 is not None and l[0] == l2[0] and l[1] == l2[1] and (len(l) < 3 or l[2] is l2[2] or (isinstance(l[2], Rec) and isinstance(l2[2], Rec) and not l[2].f))):
                out[i] = (or_(g, g2), l2)
                break
            if l is not None and l2 is not None and l[0] == 'lam' and l2[0] == 'lam' and l[1] == l2[1]:
                out[i] = (or_(g, g2), ('lam', l[1], vite(g, l[2], l2[2])) + l[3:])
                break
        else:
            out.append((g, l))
    if len(out) == 1:
        out = [(TRUE, out[0][1])]
    return Clo(out)


def lvsubst(l, m, memo=None):
    if l is None:
        return None
    return Lv(l.root, tuple((p[0], subst(p[1], m, memo)) if len(p) > 1 and isinstance(p[1], T) else p for p in l.path))


def vsubst(v, m, memo=None):
    if memo is None:
        memo = {}
        if all(byid(i).op == 'var' for i in m):
            memo['fvs'] = frozenset(m)
    return _vs(v, m, memo)


def _vs(v, m, memo):
    if isinstance(v, T):
        return _subst_(v, m, memo)
    if isinstance(v, Rec):
        return Rec(v.rid, {k: _vs(x, m, memo) for k, x in v.f.items()})
    if isinstance(v, VecL):
        return VecL([_vs(x, m, memo) for x in v.e], v.et)
    if isinstance(v, VecS):
        return VecS(_vs(v.n, m, memo), v.x, _vs(v.body, m, memo), v.et)
    if isinstance(v, Opt):
        return Opt(_vs(v.has, m, memo), _vs(v.v, m, memo) if v.v is not None else None)
    if isinstance(v, Bits):
        return Bits([_vs(x, m, memo) for x in v.b])
    if isinstance(v, Str):
        return Str(_vs(v.t, m, memo))
    if isinstance(v, Ptr):
        return mkptr([(_vs(g, m, memo), lvsubst(l, m, memo)) for g, l in v.alts])
    if isinstance(v, Clo):
        return mkclo([(_vs(g, m, memo), (c[:2] + (_vs(c[2], m, memo),) + c[3:]) if c is not None and len(c) > 2 and isinstance(c[2], Val) else c) for g, c in v.alts])
    if isinstance(v, Map):
        return Map(_vs(v.n, m, memo), v.x, _vs(v.has, m, memo), _vs(v.body, m, memo))
    if isinstance(v, Variant):
        return Variant(_vs(v.i, m, memo), {k: _vs(x, m, memo) for k, x in v.alts.items()})
    return v


def _subst_(t, m, memo):
    from terms import _subst
    return _subst(t, m, memo)


def vget(vec, i):
    """element i of a sequence"""
    if isinstance(vec, VecL):
        if is_const(i):
            if 0 <= i.val < len(vec.e):
                return vec.e[i.val]
            raise Unsupported('index %d out of range %d' % (i.val, len(vec.e)))
        if not vec.e:
            raise Unsupported('index into empty list')
        r = vec.e[-1]
        for j in range(len(vec.e) - 2, -1, -1):
            r = vite(eq(i, u64(j)), vec.e[j], r)
        return r
    return vsubst(vec.body, {vec.x.id: i})


def bitget(bits, i):
    if is_const(i):
        if i.val >= len(bits):
            raise Unsupported('bit index out of range')
        return bits[i.val]
    r = bits[-1]
    for j in range(len(bits) - 2, -1, -1):
        r = ite(eq(i, const(j, i.sort)), bits[j], r)
    return r


def readpath(v, path):
    for p in path:
        k = p[0]
        if k == 'f':
            if not isinstance(v, Rec):
                raise Unsupported('field %s of %s' % (p[1], type(v).__name__))
            if p[1] not in v.f:
                raise Unsupported('no field %s in %s' % (p[1], v.rid))
            v = v.f[p[1]]
        elif k == 'i':
            if isinstance(v, (VecL, VecS)):
                v = vget(v, p[1])
            elif isinstance(v, Rec) and set(v.f) == {'_M_elems'}:
                v = vget(v.f['_M_elems'], p[1])
            else:
                if is_const(p[1]) and p[1].val == 0:
                    continue
                raise Unsupported('index into %s' % type(v).__name__)
        elif k == 'o':
            v = v.v
        elif k == 'b':
            v = bitget(v.b, p[1])
        elif k == 'v':
            v = v.alts[p[1]]
        elif k == 'k':
            v = vsubst(v.body, {v.x.id: p[1]})
        else:
            raise Unsupported('path %r' % (p,))
    return v


def writepath(v, path, nv, g=TRUE):
    if not path:
        return vite(g, nv, v)
    p = path[0]
    k = p[0]
    if k == 'f':
        f = dict(v.f)
        f[p[1]] = writepath(v.f[p[1]], path[1:], nv, g)
        return Rec(v.rid, f)
    if k == 'i':
        if isinstance(v, VecL):
            if is_const(p[1]):
                e = list(v.e)
                e[p[1].val] = writepath(e[p[1].val], path[1:], nv, g)
                return VecL(e, v.et)
            return VecL([writepath(x, path[1:], nv, and_(g, eq(p[1], u64(j)))) for j, x in enumerate(v.e)], v.et)
        if isinstance(v, VecS):
            return VecS(v.n, v.x, writepath(v.body, path[1:], nv, and_(g, eq(v.x, p[1]))), v.et)
        if is_const(p[1]) and p[1].val == 0:
            return writepath(v, path[1:], nv, g)
        raise Unsupported('index write into %s' % type(v).__name__)
    if k == 'o':
        return Opt(v.has, writepath(v.v, path[1:], nv, g) if v.v is not None else nv)
    if k == 'b':
        i = p[1]
        if is_const(i):
            b = list(v.b)
            b[i.val] = ite(g, nv, b[i.val])
            return Bits(b)
        return Bits([ite(and_(g, eq(i, const(j, i.sort))), nv, x) for j, x in enumerate(v.b)])
    if k == 'k':
        return Map(v.n, v.x, v.has, writepath(v.body, path[1:], nv, and_(g, eq(v.x, p[1]))))
    if k == 'v':
        alts = dict(v.alts)
        alts[p[1]] = writepath(v.alts[p[1]], path[1:], nv, g)
        return Variant(v.i, alts)
    raise Unsupported('write path %r' % (p,))


def veq(a, b, exact=True):
    """structural equality as a term"""
    if a is b:
        return TRUE
    if isinstance(a, T) and isinstance(b, T):
        return eq(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.f.keys() != b.f.keys():
            raise Unsupported('veq fields')
        return and_(*[veq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, (VecL, VecS)) and isinstance(b, (VecL, VecS)):
        if isinstance(a, VecL) and isinstance(b, VecL):
            if len(a.e) != len(b.e):
                return FALSE
            return and_(*[veq(x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, VecL):
            a, b = b, a
        if isinstance(b, VecL):
            return and_(eq(a.n, b.n), *[veq(vget(a, u64(j)), x) for j, x in enumerate(b.e)])
        k = fresh('k', U64)
        return and_(eq(a.n, b.n), all_(k, a.n, veq(vget(a, k), vget(b, k))))
    if isinstance(a, Opt) and isinstance(b, Opt):
        if a.has is FALSE:
            return not_(b.has)
        if b.has is FALSE:
            return not_(a.has)
        return and_(eq(a.has, b.has), implies(a.has, veq(a.v, b.v)))
    if isinstance(a, Bits) and isinstance(b, Bits):
        return and_(*[eq(x, y) for x, y in zip(a.b, b.b)])
    if isinstance(a, Str) and isinstance(b, Str):
        return eq(a.t, b.t)
    if isinstance(a, Variant) and isinstance(b, Variant):
        r = [eq(a.i, b.i)]
        for k in a.alts:
            if k in b.alts:
                r.append(implies(eq(a.i, const(k, a.i.sort)), veq(a.alts[k], b.alts[k])))
        return and_(*r)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return ptreq(a, b)
    if isinstance(a, (Void, Opaque)):
        return TRUE
    if isinstance(a, Clo) and isinstance(b, Clo):
        r = []
        for g, c in a.alts:
            for h, d in b.alts:
                if c is d or (c is not None and d is not None and c[0] == d[0] and c[1] == d[1] and (len(c) < 3 or c[2] is None or veq(c[2], d[2]) is TRUE)):
                    r.append(and_(g, h))
        return or_(*r)
    raise Unsupported('veq %s %s' % (type(a).__name__, type(b).__name__))


def lveq(l, m):
    if l is None or m is None:
        return bconst(l is m)
    if l.root != m.root or len(l.path) != len(m.path):
        return FALSE
    r = []
    for x, y in zip(l.path, m.path):
        if x == y:
            continue
        if x[0] != y[0] or len(x) < 2 or not isinstance(x[1], T) or not isinstance(y[1], T):
            return FALSE
        r.append(eq(x[1], y[1]))
    return and_(*r)


def ptreq(a, b):
    return or_(*[and_(g, h, lveq(l, m)) for g, l in a.alts for h, m in b.alts])


def leaves(v, f, path=(), stars=()):
    """rebuild v with every scalar leaf replaced by f(path, term, stars).  path uses ('*',) for sequence elements."""
    if isinstance(v, T):
        return f(path, v, stars)
    if isinstance(v, Rec):
        return Rec(v.rid, {k: leaves(x, f, path + (('f', k),), stars) for k, x in v.f.items()})
    if isinstance(v, VecL):
        return VecL([leaves(x, f, path + (('i', j),), stars) for j, x in enumerate(v.e)], v.et)
    if isinstance(v, VecS):
        n = f(path + (('n',),), v.n, stars)
        return VecS(n, v.x, leaves(v.body, f, path + (('*',),), stars + (v.x,)), v.et)
    if isinstance(v, Opt):
        return Opt(f(path + (('has',),), v.has, stars), leaves(v.v, f, path + (('o',),), stars) if v.v is not None else None)
    if isinstance(v, Bits):
        return Bits([f(path + (('b', j),), x, stars) for j, x in enumerate(v.b)])
    if isinstance(v, Str):
        return Str(f(path + (('s',),), v.t, stars))
    if isinstance(v, Map):
        n = f(path + (('mn',),), v.n, stars)
        return Map(n, v.x, f(path + (('mh',),), v.has, stars + (v.x,)), leaves(v.body, f, path + (('k*',),), stars + (v.x,)))
    if isinstance(v, Variant):
        return Variant(f(path + (('vi',),), v.i, stars), {k: leaves(x, f, path + (('v', k),), stars) for k, x in v.alts.items()})
    if isinstance(v, Ptr):
        if len(v.alts) == 1 and v.alts[0][1] is not None:
            l = v.alts[0][1]
            np = []
            for j, p in enumerate(l.path):
                if len(p) > 1 and isinstance(p[1], T):
                    np.append((p[0], f(path + (('p', l.root, j),), p[1], stars)))
                else:
                    np.append(p)
            return Ptr([(TRUE, Lv(l.root, tuple(np)))])
        return v
    if isinstance(v, Clo) and onelam(v):
        c = v.alts[0][1]
        return Clo([(v.alts[0][0], c[:2] + (leaves(c[2], f, path + (('c',),), stars),) + c[3:])])
    return v


def onelam(v):
    """a callable that certainly is one particular lambda with captured values"""
    if len(v.alts) != 1:
        return False
    c = v.alts[0][1]
    return c is not None and len(c) > 2 and isinstance(c[2], Rec)


def shape(v):
    """a key describing everything of v but its scalar leaves"""
    if isinstance(v, T):
        return ('t', v.sort)
    if isinstance(v, Rec):
        return ('r', v.rid) + tuple((k, shape(x)) for k, x in v.f.items())
    if isinstance(v, VecL):
        return ('l',) + tuple(shape(x) for x in v.e)
    if isinstance(v, VecS):
        return ('s', shape(v.body))
    if isinstance(v, Opt):
        return ('o', shape(v.v) if v.v is not None else None)
    if isinstance(v, Bits):
        return ('b', len(v.b))
    if isinstance(v, Str):
        return ('str',)
    if isinstance(v, Map):
        return ('m', shape(v.body))
    if isinstance(v, Variant):
        return ('v',) + tuple((k, shape(v.alts[k])) for k in sorted(v.alts))
    if isinstance(v, Ptr):
        if len(v.alts) == 1 and v.alts[0][1] is not None:
            l = v.alts[0][1]
            return ('p', l.root) + tuple((p[0], None) if len(p) > 1 and isinstance(p[1], T) else p for p in l.path)
        return ('P', tuple((g.id, repr(l)) for g, l in v.alts))
    if isinstance(v, Clo) and onelam(v):
        c = v.alts[0][1]
        return ('c1', c[0], c[1], shape(c[2]))
    if isinstance(v, Clo):
        return ('c', tuple((g.id, None if c is None else (c[0], c[1], id(c[2]) if len(c) > 2 else 0)) for g, c in v.alts))
    if isinstance(v, Opaque):
        return ('q',)
    return (type(v).__name__,)
