"""Hash-consed terms: booleans, machine integers (modular, exact), reals (exact rationals).

Machine integers carry their C width and signedness; arithmetic on them is kept in a canonical linear form modulo 2^w, so
wrap-around is exact.  Reals are canonical polynomials (negative powers = division).  Nothing here is code-specific.
"""
from fractions import Fraction
import itertools

B = 'B'
R = 'R'
U64 = (64, 0)
I32 = (32, 1)


class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', '_fv', '_rng', '_bl', '_poly')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = itertools.count(1)
_byid = {}


def mk(op, args, sort, val=None):
    key = (op, tuple([a.id for a in args]), sort, val)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.val = val
        t.id = next(_cnt)
        t._fv = None
        t._rng = None
        t._bl = None
        t._poly = None
        _tab[key] = t
        _byid[t.id] = t
    return t


def byid(i):
    return _byid[i]


def show(t, d=6):
    if t.op == 'const':
        return str(t.val)
    if t.op == 'var':
        return str(t.val)
    if d == 0:
        return '…'
    if t.op == 'lin':
        cs, c = t.val
        s = ' + '.join((show(a, d - 1) if k == 1 else '%d*%s' % (k, show(a, d - 1))) for k, a in zip(cs, t.args))
        return '(' + s + (' + %d' % c if c else '') + ')'
    if t.op == 'poly':
        out = []
        for mono, c in t.val:
            m = '*'.join(show(byid(i), d - 1) + ('' if p == 1 else '^%d' % p) for i, p in mono)
            out.append((str(c) + '*' if c != 1 or not m else '') + m)
        return '(' + ' + '.join(out) + ')'
    if t.op == 'app':
        return '%s[%s]' % (t.val, ','.join(show(a, d - 1) for a in t.args))
    v = '' if t.val is None else ':' + str(t.val)
    return '(%s%s %s)' % (t.op, v, ' '.join(show(a, d - 1) for a in t.args))


# ---------------------------------------------------------------- constants and variables
def norm(v, s):
    w, sg = s
    v &= (1 << w) - 1
    if sg and v >> (w - 1):
        v -= 1 << w
    return v


def const(v, s):
    if s == B:
        return mk('const', (), B, bool(v))
    if s == R:
        return mk('const', (), R, Fraction(v))
    return mk('const', (), s, norm(int(v), s))


TRUE = mk('const', (), B, True)
FALSE = mk('const', (), B, False)


def bconst(b):
    return TRUE if b else FALSE


def u64(v):
    return const(v, U64)


def var(name, s):
    return mk('var', (), s, name)


_fresh = itertools.count(1)


def fresh(name, s):
    return var('%s!%d' % (name, next(_fresh)), s)


def app(fname, args, s):
    if not args:
        return var(fname, s)
    return mk('app', args, s, fname)


def is_const(t):
    return t.op == 'const'


def fv(t):
    """free variables (term ids of 'var' nodes); canonical bound variables are excluded under their binder"""
    r = t._fv
    if r is None:
        if t.op == 'var':
            r = frozenset((t.id,))
        elif t.op in BINDERS:
            r = frozenset()
            for a in t.args[:-1] if t.op != 'fold' else t.args:
                r |= fv(a)
            if t.op != 'fold':
                r |= fv(t.args[-1])
            bvs = t.val if t.op != 'fold' else t.val[0]
            r = r - frozenset(bvs)
        elif t.op == 'poly':
            r = frozenset()
            for a in t.args:
                r |= fv(a)
        else:
            r = frozenset()
            for a in t.args:
                r |= fv(a)
        t._fv = r
    return r


BINDERS = ('sum', 'all', 'fold')


# ---------------------------------------------------------------- ranges
def full(s):
    w, sg = s
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


def rng(t):
    r = t._rng
    if r is not None:
        return r
    s = t.sort
    f = full(s)
    r = f
    if t.op == 'const':
        r = (t.val, t.val)
    elif t.op == 'ite':
        a, b = rng(t.args[1]), rng(t.args[2])
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif t.op == 'cast':
        if isinstance(t.args[0].sort, tuple):
            a = rng(t.args[0])
            if f[0] <= a[0] and a[1] <= f[1]:
                r = a
    elif t.op == 'lin':
        cs, c = t.val
        lo = hi = c if c <= f[1] // 2 or s[1] else c
        okk = True
        for k, a in zip(cs, t.args):
            kk = k
            ra = rng(a)
            if kk >= 0:
                lo += kk * ra[0]
                hi += kk * ra[1]
            else:
                lo += kk * ra[1]
                hi += kk * ra[0]
        if okk and f[0] <= lo and hi <= f[1]:
            r = (lo, hi)
    elif t.op == 'rem' and is_const(t.args[1]) and t.args[1].val > 0 and rng(t.args[0])[0] >= 0:
        r = (0, min(t.args[1].val - 1, rng(t.args[0])[1]))
    elif t.op == 'div' and is_const(t.args[1]) and t.args[1].val > 0 and rng(t.args[0])[0] >= 0:
        a = rng(t.args[0])
        r = (a[0] // t.args[1].val, a[1] // t.args[1].val)
    elif t.op == 'band' and not s[1]:
        r = (0, min(rng(t.args[0])[1], rng(t.args[1])[1]))
    elif t.op == 'band' and rng(t.args[0])[0] >= 0 and rng(t.args[1])[0] >= 0:
        r = (0, min(rng(t.args[0])[1], rng(t.args[1])[1]))
    elif t.op in ('bor', 'bxor') and rng(t.args[0])[0] >= 0 and rng(t.args[1])[0] >= 0:
        m = max(rng(t.args[0])[1], rng(t.args[1])[1])
        r = (0, (1 << m.bit_length()) - 1)
    elif t.op == 'shr' and rng(t.args[0])[0] >= 0 and is_const(t.args[1]):
        a = rng(t.args[0])
        r = (a[0] >> t.args[1].val, a[1] >> t.args[1].val)
    elif t.op == 'mul' and rng(t.args[0])[0] >= 0 and rng(t.args[1])[0] >= 0:
        hi = rng(t.args[0])[1] * rng(t.args[1])[1]
        if hi <= f[1]:
            r = (rng(t.args[0])[0] * rng(t.args[1])[0], hi)
    elif t.op == 'frombits':
        hi = (1 << len(t.args)) - 1
        if hi <= f[1]:
            r = (0, hi)
    t._rng = r
    return r


# ---------------------------------------------------------------- booleans
def not_(a):
    if a.op == 'const':
        return bconst(not a.val)
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), B)


def and_(*xs):
    out = {}
    st = list(xs)
    st.reverse()
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st.extend(reversed(x.args))
            continue
        if x.op == 'not' and x.args[0].op == 'or':
            st.extend(not_(y) for y in reversed(x.args[0].args))
            continue
        out[x.id] = x
    for x in out.values():
        if x.op == 'not' and x.args[0].id in out:
            return FALSE
    # absorption:  a & (a | b) -> a ;  a & (!a | b) -> a & b
    changed = False
    res = {}
    for x in out.values():
        if x.op == 'or':
            keep = []
            sat = False
            for y in x.args:
                if y.id in out and y is not x:
                    sat = True
                    break
                if not_(y).id in out:
                    changed = True
                    continue
                keep.append(y)
            if sat:
                continue
            if len(keep) != len(x.args):
                x = or_(*keep)
        res[x.id] = x
    if changed:
        return and_(*res.values())
    ys = sorted(res.values(), key=lambda t: t.id)
    if not ys:
        return TRUE
    if len(ys) == 1:
        return ys[0]
    return mk('and', ys, B)


def or_(*xs):
    out = {}
    st = list(xs)
    st.reverse()
    while st:
        x = st.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            st.extend(reversed(x.args))
            continue
        if x.op == 'not' and x.args[0].op == 'and':
            st.extend(not_(y) for y in reversed(x.args[0].args))
            continue
        out[x.id] = x
    for x in out.values():
        if x.op == 'not' and x.args[0].id in out:
            return TRUE
    changed = False
    res = {}
    for x in out.values():
        if x.op == 'and':
            keep = []
            sub = False
            for y in x.args:
                if y.id in out:
                    sub = True
                    break
                if not_(y).id in out:
                    changed = True
                    continue
                keep.append(y)
            if sub:
                continue
            if len(keep) != len(x.args):
                x = and_(*keep)
        res[x.id] = x
    if changed:
        return or_(*res.values())
    ys = sorted(res.values(), key=lambda t: t.id)
    if not ys:
        return FALSE
    if len(ys) == 1:
        return ys[0]
    # (a & c) | (a & !c)  ->  a   for two-element disjunctions
    if len(ys) == 2:
        s1 = set(x.id for x in (ys[0].args if ys[0].op == 'and' else (ys[0],)))
        s2 = set(x.id for x in (ys[1].args if ys[1].op == 'and' else (ys[1],)))
        d1, d2 = s1 - s2, s2 - s1
        if len(d1) == 1 and len(d2) == 1:
            a, b = byid(next(iter(d1))), byid(next(iter(d2)))
            if not_(a) is b:
                return and_(*[byid(i) for i in s1 & s2])
    return mk('or', ys, B)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    assert a.sort == b.sort, (a.sort, b.sort, a, b)
    if a.sort == B:
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a.op == 'ite' and a.args[0] is not_(c):
        a = a.args[2]
    if b.op == 'ite' and b.args[0] is not_(c):
        b = b.args[1]
    if a is b:
        return a
    # collapse chains with the same result: ite(c,a,ite(d,a,b)) -> ite(c|d,a,b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    # equality guarded select:  ite(x==k, k', ...) kept as is
    if a.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- machine integers
def tolin(t):
    if t.op == 'lin':
        return dict(zip([a.id for a in t.args], t.val[0])), t.val[1]
    if t.op == 'const':
        return {}, t.val
    return {t.id: 1}, 0


def fromlin(d, c, s):
    w = s[0]
    half = 1 << (w - 1)

    def nc(k):
        k &= (1 << w) - 1
        return k - (1 << w) if k >= half else k
    d = {i: nc(k) for i, k in d.items()}
    d = {i: k for i, k in d.items() if k}
    c = nc(c)
    if not d:
        return const(c, s)
    if len(d) == 1 and c == 0:
        (i, k), = d.items()
        if k == 1:
            return byid(i)
    ks = sorted(d)
    return mk('lin', [byid(i) for i in ks], s, (tuple(d[i] for i in ks), c))


def add(a, b):
    assert a.sort == b.sort, (a.sort, b.sort)
    if a.sort == R:
        return radd(a, b)
    if is_const(a) and is_const(b):
        return const(a.val + b.val, a.sort)
    d1, c1 = tolin(a)
    d2, c2 = tolin(b)
    d = dict(d1)
    for i, k in d2.items():
        d[i] = d.get(i, 0) + k
    return fromlin(d, c1 + c2, a.sort)


def neg(a):
    if a.sort == R:
        return rmul(const(-1, R), a)
    d, c = tolin(a)
    return fromlin({i: -k for i, k in d.items()}, -c, a.sort)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    assert a.sort == b.sort, (a.sort, b.sort)
    if a.sort == R:
        return rmul(a, b)
    if is_const(a) and is_const(b):
        return const(a.val * b.val, a.sort)
    if is_const(b):
        a, b = b, a
    if is_const(a):
        d, c = tolin(b)
        return fromlin({i: k * a.val for i, k in d.items()}, c * a.val, a.sort)
    # boolean-valued factor:  ite(c,1,0)*x -> ite(c,x,0)
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and is_const(x.args[1]) and is_const(x.args[2]):
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    # distribute over linear forms so products have a canonical shape
    for x, y in ((a, b), (b, a)):
        if x.op == 'lin':
            d, c = tolin(x)
            r = mul(const(c, x.sort), y)
            for i, k in d.items():
                r = add(r, mul(const(k, x.sort), mul(byid(i), y)))
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), a.sort)


def _cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def nowrap_lin(t):
    """lin term whose value in Z (with the signed coefficients) stays in range -> (dict, const) or None"""
    d, c = tolin(t)
    lo = hi = c
    for i, k in d.items():
        ra = rng(byid(i))
        if k >= 0:
            lo += k * ra[0]
            hi += k * ra[1]
        else:
            lo += k * ra[1]
            hi += k * ra[0]
    f = full(t.sort)
    if f[0] <= lo and hi <= f[1]:
        return d, c
    return None


def div(a, b):
    if is_const(b) and b.val == 1:
        return a
    if is_const(a) and is_const(b) and b.val != 0:
        return const(_cdiv(a.val, b.val), a.sort)
    if is_const(b) and b.val > 1 and rng(a)[0] >= 0:
        r = rng(a)
        if r[1] < b.val:
            return const(0, a.sort)
        if a.op == 'ite' and is_const(a.args[1]) and is_const(a.args[2]):
            return ite(a.args[0], div(a.args[1], b), div(a.args[2], b))
        l = nowrap_lin(a)
        if l is not None:
            d, c = l
            q = {i: k // b.val for i, k in d.items() if k % b.val == 0}
            rest = {i: k for i, k in d.items() if k % b.val != 0}
            cr = c % b.val
            cq = c // b.val
            if q:
                rem_ = fromlin(rest, cr, a.sort)
                rr = rng(rem_)
                if nowrap_lin(rem_) is not None and rr[0] >= 0:
                    qt = fromlin(q, cq, a.sort)
                    return add(qt, div(rem_, b))
    return mk('div', (a, b), a.sort)


def rem(a, b):
    if is_const(b) and b.val == 1:
        return const(0, a.sort)
    if is_const(a) and is_const(b) and b.val != 0:
        return const(a.val - b.val * _cdiv(a.val, b.val), a.sort)
    if is_const(b) and b.val > 1 and rng(a)[0] >= 0:
        if rng(a)[1] < b.val:
            return a
        if a.op == 'ite' and is_const(a.args[1]) and is_const(a.args[2]):
            return ite(a.args[0], rem(a.args[1], b), rem(a.args[2], b))
        l = nowrap_lin(a)
        if l is not None:
            d, c = l
            rest = {i: k for i, k in d.items() if k % b.val != 0}
            if len(rest) != len(d) or not (0 <= c < b.val):
                rem_ = fromlin(rest, c % b.val, a.sort)
                if nowrap_lin(rem_) is not None and rng(rem_)[0] >= 0:
                    return rem(rem_, b)
        if not a.sort[1] and b.val & (b.val - 1) == 0 and a.op == 'lin':
            # modulo a power of two: coefficients can be reduced exactly
            d, c = tolin(a)
            d2 = {i: k % b.val for i, k in d.items()}
            if d2 != d or c % b.val != c:
                return rem(fromlin(d2, c % b.val, a.sort), b)
    return mk('rem', (a, b), a.sort)


def bnot(a):
    # ~a = -a - 1
    return sub(neg(a), const(1, a.sort))


def getbit(a, k):
    """bit k of integer term a as a boolean"""
    if is_const(a):
        return bconst((a.val >> k) & 1)
    if a.op == 'frombits':
        return a.args[k] if k < len(a.args) else FALSE
    r = rng(a)
    if r[0] >= 0 and r[1] < (1 << k):
        return FALSE
    if a.op == 'cast' and isinstance(a.args[0].sort, tuple):
        sw = a.args[0].sort[0]
        if k < sw:
            return getbit(a.args[0], k)
        if not a.args[0].sort[1]:
            return FALSE
        return getbit(a.args[0], sw - 1)
    if a.op == 'ite':
        return ite(a.args[0], getbit(a.args[1], k), getbit(a.args[2], k))
    if a.op == 'band':
        return and_(getbit(a.args[0], k), getbit(a.args[1], k))
    if a.op == 'bor':
        return or_(getbit(a.args[0], k), getbit(a.args[1], k))
    if a.op == 'bxor':
        return xor_(getbit(a.args[0], k), getbit(a.args[1], k))
    if a.op == 'lin':
        cs, c = a.val
        if len(cs) == 1 and cs[0] == -1 and c == -1:
            return not_(getbit(a.args[0], k))
        if len(cs) == 1 and cs[0] > 0 and cs[0] & (cs[0] - 1) == 0 and c == 0:
            sh = cs[0].bit_length() - 1
            return getbit(a.args[0], k - sh) if k >= sh else FALSE
    if a.op == 'shr' and is_const(a.args[1]):
        sh = a.args[1].val
        w, sg = a.sort
        if k + sh < w:
            return getbit(a.args[0], k + sh)
        return getbit(a.args[0], w - 1) if sg else FALSE
    if a.op == 'shr' and not a.sort[1] and isinstance(a.args[1].sort, tuple):
        s = a.args[1]
        lo, hi = rng(s)
        return or_(*[and_(eq(s, const(j, s.sort)), getbit(a.args[0], k + j)) for j in range(max(0, lo), min(a.sort[0] - k - 1, hi) + 1)])
    if a.op == 'div' and is_const(a.args[1]) and a.args[1].val & (a.args[1].val - 1) == 0 and rng(a.args[0])[0] >= 0:
        sh = a.args[1].val.bit_length() - 1
        if k + sh < a.sort[0]:
            return getbit(a.args[0], k + sh)
        return FALSE
    if a.op == 'rem' and is_const(a.args[1]) and a.args[1].val & (a.args[1].val - 1) == 0 and rng(a.args[0])[0] >= 0:
        return getbit(a.args[0], k) if (1 << k) < a.args[1].val else FALSE
    return mk('bit', (a,), B, k)


def xor_(a, b):
    if a is b:
        return FALSE
    if is_const(a):
        return not_(b) if a.val else b
    if is_const(b):
        return not_(a) if b.val else a
    neg_ = False
    if a.op == 'not':
        a = a.args[0]
        neg_ = not neg_
    if b.op == 'not':
        b = b.args[0]
        neg_ = not neg_
    if a is b:
        return bconst(neg_)
    if a.id > b.id:
        a, b = b, a
    r = mk('xor', (a, b), B)
    return not_(r) if neg_ else r


def frombits(bits, s):
    """unsigned integer with the given bits (lsb first), in sort s (len(bits) <= w)"""
    bits = list(bits)
    while bits and bits[-1] is FALSE:
        bits.pop()
    if not bits:
        return const(0, s)
    if all(is_const(b) for b in bits):
        return const(sum(1 << i for i, b in enumerate(bits) if b.val), s)
    # all bits of one integer, in order
    b0 = bits[0]
    if b0.op == 'bit' and b0.val == 0:
        x = b0.args[0]
        if all(b.op == 'bit' and b.args[0] is x and b.val == i for i, b in enumerate(bits)):
            if len(bits) == x.sort[0]:
                return cast(cast(x, (x.sort[0], 0)), s)
            r = rng(x)
            if r[0] >= 0 and r[1] < (1 << len(bits)):
                return cast(x, s)
    if len(bits) == 1:
        return ite(bits[0], const(1, s), const(0, s))
    return mk('frombits', bits, s)


def allbits(a):
    return [getbit(a, k) for k in range(a.sort[0])]


def bitop(op, a, b):
    s = a.sort
    assert a.sort == b.sort, (op, a.sort, b.sort)
    if is_const(a) and is_const(b):
        return const({'band': a.val & b.val, 'bor': a.val | b.val, 'bxor': a.val ^ b.val}[op], s)
    if is_const(a):
        a, b = b, a
    m = (1 << s[0]) - 1
    if is_const(b):
        v = b.val & m
        if v == 0:
            return const(0, s) if op == 'band' else a
        if v == m:
            if op == 'band':
                return a
            if op == 'bor':
                return b
            return bnot(a)
        if op == 'band' and rng(a)[0] >= 0 and (v & (v + 1)) == 0:
            return rem(a, const(v + 1, s)) if v + 1 <= full(s)[1] else a
        if op == 'band' and v & (v - 1) == 0:
            k = v.bit_length() - 1
            return ite(getbit(a, k), const(v, s), const(0, s))
    if a is b:
        return const(0, s) if op == 'bxor' else a
    if a.op == 'ite' and is_const(a.args[1]) and is_const(a.args[2]) and b.op == 'ite' and is_const(b.args[1]) and is_const(b.args[2]):
        return ite(a.args[0], bitop(op, a.args[1], b), bitop(op, a.args[2], b))
    if is_const(b) and a.op == 'ite' and is_const(a.args[1]) and is_const(a.args[2]):
        return ite(a.args[0], bitop(op, a.args[1], b), bitop(op, a.args[2], b))
    if s[0] <= 64 and (known_bits(a) and known_bits(b)):
        xa, xb = allbits(a), allbits(b)
        f = {'band': and_, 'bor': or_, 'bxor': xor_}[op]
        r = [f(x, y) for x, y in zip(xa, xb)]
        if s[1]:
            if r[-1] is FALSE:
                return frombits(r[:-1], s)
        else:
            return frombits(r, s)
    if a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), s)


def known_bits(a, d=4):
    """is the bit-level structure of a explicit?"""
    if is_const(a) or a.op == 'frombits':
        return True
    if d == 0:
        return False
    if a.op == 'ite':
        return known_bits(a.args[1], d - 1) and known_bits(a.args[2], d - 1)
    if a.op == 'cast' and isinstance(a.args[0].sort, tuple) and not a.args[0].sort[1]:
        return known_bits(a.args[0], d - 1)
    if a.op == 'lin' and len(a.args) == 1:
        k, c = a.val[0][0], a.val[1]
        if (k == -1 and c == -1) or (c == 0 and k > 0 and k & (k - 1) == 0):
            return known_bits(a.args[0], d - 1)
    if a.op == 'shr' and is_const(a.args[1]):
        return known_bits(a.args[0], d - 1)
    return False


def shl(a, n):
    s = a.sort
    if is_const(n):
        k = n.val
        if k >= s[0]:
            return const(0, s)
        return mul(a, const(1 << k, s)) if k < s[0] else const(0, s)
    if is_const(a) and a.val == 0:
        return a
    if n.op == 'ite' and is_const(n.args[1]) and is_const(n.args[2]):
        return ite(n.args[0], shl(a, n.args[1]), shl(a, n.args[2]))
    return mk('shl', (a, n), s)


def shr(a, n):
    s = a.sort
    if is_const(n):
        k = n.val
        if k == 0:
            return a
        if is_const(a):
            return const(a.val >> k, s)
        if k >= s[0]:
            return const(0, s)
        if known_bits(a) and not s[1]:
            return frombits(allbits(a)[k:], s)
        if k == s[0] - 1 and not s[1]:
            return ite(getbit(a, k), const(1, s), const(0, s))
        if rng(a)[0] >= 0 and k < s[0] - 1:
            return div(a, const(1 << k, s))
        return mk('shr', (a, n), s)
    if is_const(a) and a.val == 0:
        return a
    if n.op == 'ite' and is_const(n.args[1]) and is_const(n.args[2]):
        return ite(n.args[0], shr(a, n.args[1]), shr(a, n.args[2]))
    return mk('shr', (a, n), s)


def cast(a, s):
    if a.sort == s:
        return a
    if a.sort == B:
        return ite(a, const(1, s), const(0, s)) if s != R else ite(a, const(1, R), const(0, R))
    if s == B:
        if a.sort == R:
            return not_(eq(a, const(0, R)))
        return not_(eq(a, const(0, a.sort)))
    if a.sort == R:
        return r2i(a, s)
    if s == R:
        return i2r(a)
    if is_const(a):
        return const(a.val, s)
    if a.op == 'ite' and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], cast(a.args[1], s), cast(a.args[2], s))
    if a.op == 'frombits':
        if len(a.args) <= s[0] - s[1]:
            return frombits(a.args, s)
        if not s[1]:
            return frombits(a.args[:s[0]], s)
    if a.op == 'cast' and isinstance(a.args[0].sort, tuple):
        b = a.args[0]
        # cast chain: narrowing of a value-preserving widening
        r = rng(b)
        f = full(a.sort)
        if f[0] <= r[0] and r[1] <= f[1]:
            return cast(b, s)
        if s[0] <= a.sort[0]:
            return cast(b, s)
    # same-width or narrowing casts distribute over modular linear forms
    if a.op == 'lin' and s[0] <= a.sort[0]:
        d, c = tolin(a)
        r = const(c, s)
        for i, k in d.items():
            r = add(r, mul(const(k, s), cast(byid(i), s)))
        return r
    l = nowrap_lin(a) if a.op == 'lin' else None
    if l is not None and s[0] >= a.sort[0]:
        d, c = l
        r = const(c, s)
        for i, k in d.items():
            r = add(r, mul(const(k, s), cast(byid(i), s)))
        return r
    return mk('cast', (a,), s)


# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b:
        return TRUE
    assert a.sort == b.sort, (a.sort, b.sort, a, b)
    if is_const(a) and is_const(b):
        return bconst(a.val == b.val)
    if a.sort == B:
        if is_const(a):
            return b if a.val else not_(b)
        if is_const(b):
            return a if b.val else not_(a)
        return not_(xor_(a, b))
    if is_const(a):
        a, b = b, a
    if is_const(b):
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if is_const(x) or is_const(y):
                return ite(a.args[0], eq(x, b), eq(y, b))
        if a.sort != R:
            r = rng(a)
            if b.val < r[0] or b.val > r[1]:
                return FALSE
            if a.op == 'cast' and isinstance(a.args[0].sort, tuple):
                ra, f = rng(a.args[0]), full(a.sort)
                if f[0] <= ra[0] and ra[1] <= f[1]:
                    if ra[0] <= b.val <= ra[1]:
                        return eq(a.args[0], const(b.val, a.args[0].sort))
                    return FALSE
            if a.op == 'rem' and is_const(a.args[1]) and a.args[1].val == 2 and rng(a.args[0])[0] >= 0:
                return getbit(a.args[0], 0) if b.val == 1 else not_(getbit(a.args[0], 0))
            if a.op == 'div' and b.val in (0, 1) and is_const(a.args[1]) and rng(a)[1] == 1 and rng(a.args[0])[0] >= 0:
                k = a.args[1].val
                if k & (k - 1) == 0 and k > 1:
                    x = getbit(a.args[0], k.bit_length() - 1)
                    return x if b.val else not_(x)
            if a.op == 'frombits':
                return and_(*[x if (b.val >> i) & 1 else not_(x) for i, x in enumerate(a.args)])
    if a.op == 'ite' and b.op == 'ite' and all(is_const(x) for x in a.args[1:] + b.args[1:]) and a.args[1].val != a.args[2].val \
            and {a.args[1].val, a.args[2].val} == {b.args[1].val, b.args[2].val}:
        r = xor_(a.args[0], b.args[0])
        return not_(r) if a.args[1].val == b.args[1].val else r
    if a.sort == R:
        if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
            return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
        d = radd(a, rmul(const(-1, R), b))
        if is_const(d):
            return bconst(d.val == 0)
        p = topoly(d)
        # normalise leading coefficient
        items = sorted(p.items())
        lc = items[-1][1]
        p2 = {m: c / lc for m, c in p.items()}
        return mk('req0', (frompoly(p2),), B)
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    if a.op == 'frombits' and b.op == 'frombits':
        n = max(len(a.args), len(b.args))
        return and_(*[eq(getbit(a, i), getbit(b, i)) for i in range(n)])
    d, c = tolin(sub(a, b))
    if not d:
        return bconst(c == 0)
    ks = sorted(d)
    s = a.sort
    if len(ks) == 1 and d[ks[0]] in (1, -1):
        x = byid(ks[0])
        k = const(-c * d[ks[0]], s)
        if x is a and k is b:
            return mk('eq', (x, k), B)
        return eq(x, k)
    if len(ks) == 2 and c == 0 and sorted(d.values()) == [-1, 1]:
        x, y = byid(ks[0]), byid(ks[1])
        return mk('eq', (x, y), B)
    if d[ks[0]] < 0:
        d = {i: -k for i, k in d.items()}
        c = -c
    return mk('eq', (fromlin(d, 0, s), const(-c, s)), B)


def lt(a, b):
    assert a.sort == b.sort, (a.sort, b.sort)
    if a is b:
        return FALSE
    if a.sort == R:
        d = radd(b, rmul(const(-1, R), a))
        if is_const(d):
            return bconst(d.val > 0)
        return mk('rpos', (_scalepos(d),), B)
    if is_const(a) and is_const(b):
        return bconst(a.val < b.val)
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0]:
        return TRUE
    if ra[0] >= rb[1]:
        return FALSE
    if is_const(a) and b.op == 'ite' and (is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    if is_const(b) and a.op == 'ite' and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if is_const(a) and not a.sort[1] and a.val == 0:
        return not_(eq(b, a))
    if is_const(b) and not b.sort[1] and b.val == 1:
        return eq(a, const(0, a.sort))
    if a.op == 'cast' and isinstance(a.args[0].sort, tuple) and b.op == 'cast' and b.args[0].sort == a.args[0].sort:
        f = full(a.sort)
        r1, r2 = rng(a.args[0]), rng(b.args[0])
        if f[0] <= r1[0] and r1[1] <= f[1] and f[0] <= r2[0] and r2[1] <= f[1]:
            return lt(a.args[0], b.args[0])
    return mk('lt', (a, b), B)


def le(a, b):
    if a.sort == R:
        return not_(lt(b, a))
    return not_(lt(b, a))


def _scalepos(d):
    p = topoly(d)
    items = sorted(p.items())
    lc = abs(items[-1][1])
    return frompoly({m: c / lc for m, c in p.items()})


# ---------------------------------------------------------------- reals
def topoly(t):
    if t.op == 'poly':
        if t._poly is None:
            t._poly = dict(t.val)
        return t._poly
    if t.op == 'const':
        return {(): t.val} if t.val != 0 else {}
    return {((t.id, 1),): Fraction(1)}


def frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return const(0, R)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return const(c, R)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return byid(m[0][0])
    items = tuple(sorted(p.items()))
    ids = sorted(set(i for m, _ in items for i, _ in m))
    return mk('poly', [byid(i) for i in ids], R, items)


def radd(a, b):
    p = dict(topoly(a))
    for m, c in topoly(b).items():
        p[m] = p.get(m, 0) + c
    return frompoly(p)


def _mulmono(m1, m2):
    d = dict(m1)
    for i, p in m2:
        d[i] = d.get(i, 0) + p
    return tuple(sorted((i, p) for i, p in d.items() if p != 0))


def rmul(a, b):
    if a.op == 'ite' and is_const(a.args[1]) and is_const(a.args[2]):
        return ite(a.args[0], rmul(a.args[1], b), rmul(a.args[2], b))
    if b.op == 'ite' and is_const(b.args[1]) and is_const(b.args[2]):
        return ite(b.args[0], rmul(a, b.args[1]), rmul(a, b.args[2]))
    pa, pb = topoly(a), topoly(b)
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return frompoly(out)


def rinv(a):
    p = topoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return frompoly({tuple((i, -q) for i, q in m): 1 / c})
    if not p:
        return mk('rdiv0', (), R)
    items = sorted(p.items())
    lc = items[-1][1]
    n = frompoly({m: c / lc for m, c in p.items()})
    return frompoly({((n.id, -1),): 1 / lc})


def rdiv(a, b):
    return rmul(a, rinv(b))


def i2r(a):
    if is_const(a):
        return const(a.val, R)
    if a.op == 'ite':
        return ite(a.args[0], i2r(a.args[1]), i2r(a.args[2]))
    if a.op == 'cast' and isinstance(a.args[0].sort, tuple):
        f, r = full(a.sort), rng(a.args[0])
        if f[0] <= r[0] and r[1] <= f[1]:
            return i2r(a.args[0])
    l = nowrap_lin(a) if a.op == 'lin' else None
    if l is not None:
        d, c = l
        r = const(c, R)
        for i, k in d.items():
            r = radd(r, rmul(const(k, R), i2r(byid(i))))
        return r
    return mk('i2r', (a,), R)


def r2i(a, s):
    if is_const(a):
        v = a.val
        q = abs(v.numerator) // v.denominator
        return const(q if v >= 0 else -q, s)
    if a.op == 'i2r':
        # conversion of an integer that came from an integer: exact for the value range
        b = a.args[0]
        r, f = rng(b), full(s)
        if f[0] <= r[0] and r[1] <= f[1]:
            return cast(b, s)
    if a.op == 'ite':
        return ite(a.args[0], r2i(a.args[1], s), r2i(a.args[2], s))
    return mk('r2i', (a,), s)


# ---------------------------------------------------------------- binders
def _level(t):
    b = t._bl
    if b is None:
        b = 0
        for a in t.args:
            b = max(b, _level(a))
        if t.op in BINDERS:
            b += 1
        t._bl = b
    return b


def _canon(s, lvl, j=0):
    return var('#%d.%d' % (lvl, j), s)


def sum_(x, n, body):
    """sum of body over x in [0,n);  body real or machine integer"""
    if is_const(n) and n.val == 0:
        return const(0, body.sort)
    if x.id not in fv(body):
        if body.sort == R:
            return rmul(i2r(n), body)
        return mul(cast(n, body.sort), body)
    if body.sort == R:
        p = topoly(body)
        if len(p) > 1 or True:
            groups = {}
            for m, c in p.items():
                ind = tuple((i, q) for i, q in m if x.id not in fv(byid(i)))
                dep = tuple((i, q) for i, q in m if x.id in fv(byid(i)))
                groups.setdefault(ind, {})
                groups[ind][dep] = groups[ind].get(dep, 0) + c
            out = const(0, R)
            for ind, g in groups.items():
                for dep, c in g.items():
                    out = radd(out, rmul(frompoly({ind: c}), _sum1(x, n, frompoly({dep: Fraction(1)}))))
            return out
    else:
        d, c = tolin(body)
        if len(d) > 1 or c != 0 or (d and list(d.values()) != [1]):
            out = mul(cast(n, body.sort), const(c, body.sort))
            for i, k in d.items():
                out = add(out, mul(const(k, body.sort), sum_(x, n, byid(i))))
            return out
    return _sum1(x, n, body)


def _sum1(x, n, body):
    if x.id not in fv(body):
        return rmul(i2r(n), body) if body.sort == R else mul(cast(n, body.sort), body)
    plus = radd if body.sort == R else add
    if body.op == 'ite' and x.id not in fv(body.args[0]):
        return ite(body.args[0], sum_(x, n, body.args[1]), sum_(x, n, body.args[2]))
    # the body treats one index specially: take that index out
    for g in subterms([body]).values():
        if g.op == 'eq' and isinstance(g.args[0].sort, tuple) and x.id in fv(g):
            idx = point(g, x)
            if idx is None:
                continue
            a, b = subst(body, {g.id: TRUE}), subst(body, {g.id: FALSE})
            m = {x.id: idx}
            a, b0 = subst(a, m), subst(b, m)
            d = radd(a, rmul(const(-1, R), b0)) if body.sort == R else sub(a, b0)
            return plus(sum_(x, n, b), ite(lt(idx, n), d, const(0, body.sort)))
    lvl = _level(body) + 1
    y = _canon(x.sort, lvl)
    b = subst(body, {x.id: y})
    return mk('sum', (n, b), body.sort, (y.id,))


def point(g, x):
    """index term i, free of x, with  g (an equality) <=> x == i"""
    a, b = g.args
    if a.sort != x.sort:
        return None
    d, c = tolin(sub(a, b))
    co = d.get(x.id)
    if co not in (1, -1):
        return None
    rest = fromlin({i: v for i, v in d.items() if i != x.id}, c, a.sort)
    r = neg(rest) if co == 1 else rest
    f = fv(r)
    if x.id in f or any(str(byid(i).val).startswith('#') for i in f):
        return None
    return r


def all_(x, n, body):
    """forall x in [0,n): body"""
    if body is TRUE or (is_const(n) and n.val == 0):
        return TRUE
    if x.id not in fv(body):
        return or_(eq(n, const(0, n.sort)), body)
    if body.op == 'and':
        return and_(*[all_(x, n, b) for b in body.args])
    lvl = _level(body) + 1
    y = _canon(x.sort, lvl)
    b = subst(body, {x.id: y})
    return mk('all', (n, b), B, (y.id,))


def any_(x, n, body):
    return not_(all_(x, n, not_(body)))


def fold_(which, xs, k, inits, n, bodies):
    """value of component `which` after n steps of (xs := bodies(xs,k)) started in inits"""
    if is_const(n) and n.val == 0:
        return inits[which]
    lvl = max([_level(b) for b in bodies]) + 1
    m = {}
    ys = []
    for j, x in enumerate(xs):
        y = _canon(x.sort, lvl, j + 1)
        m[x.id] = y
        ys.append(y)
    ky = _canon(k.sort, lvl, 0)
    m[k.id] = ky
    bs = [subst(b, m) for b in bodies]
    return mk('fold', tuple([n] + list(inits) + bs), xs[which].sort, (tuple([ky.id] + [y.id for y in ys]), which))


def openb(t, name='b'):
    """open a binder with fresh variables: returns (vars, args-with-bodies-instantiated)"""
    if t.op == 'fold':
        ids = t.val[0]
        vs = [fresh(name, byid(i).sort) for i in ids]
        m = {i: v for i, v in zip(ids, vs)}
        k = len(ids) - 1
        n = t.args[0]
        inits = t.args[1:1 + k]
        bodies = [subst(b, m) for b in t.args[1 + k:]]
        return vs, n, inits, bodies
    v = fresh(name, byid(t.val[0]).sort)
    return v, t.args[0], subst(t.args[1], {t.val[0]: v})


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(t, args):
    op, s = t.op, t.sort
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'xor':
        return xor_(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'lin':
        cs, c = t.val
        r = const(c, s)
        for k, a in zip(cs, args):
            r = add(r, mul(const(k, s), a))
        return r
    if op == 'poly':
        m = {o.id: n for o, n in zip(t.args, args)}
        r = const(0, R)
        for mono, c in t.val:
            x = const(c, R)
            for i, p in mono:
                y = m[i]
                if p < 0:
                    y = rinv(y)
                    p = -p
                for _ in range(p):
                    x = rmul(x, y)
            r = radd(r, x)
        return r
    if op == 'mul':
        return mul(*args)
    if op == 'div':
        return div(*args)
    if op == 'rem':
        return rem(*args)
    if op in ('band', 'bor', 'bxor'):
        return bitop(op, *args)
    if op == 'shl':
        return shl(*args)
    if op == 'shr':
        return shr(*args)
    if op == 'cast':
        return cast(args[0], s)
    if op == 'bit':
        return getbit(args[0], t.val)
    if op == 'frombits':
        return frombits(args, s)
    if op == 'eq':
        return eq(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'req0':
        return eq(args[0], const(0, R))
    if op == 'rpos':
        return lt(const(0, R), args[0])
    if op == 'i2r':
        return i2r(args[0])
    if op == 'r2i':
        return r2i(args[0], s)
    if op == 'app':
        return mk('app', args, s, t.val)
    return mk(op, args, s, t.val)


def subst(t, m, memo=None):
    """m: term id -> term.  Substitutes variables (or, when ids of non-variables are given, whole subterms)."""
    if memo is None:
        memo = {}
        if all(byid(i).op == 'var' for i in m):
            memo['fvs'] = frozenset(m)
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t.id)
    if r is not None:
        return r
    if not t.args:
        return t
    fvs = memo.get('fvs')
    if fvs is not None and not (fvs & fv(t)):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ('sum', 'all'):
        v, n, b = openb(t)
        n2 = _subst(n, m, memo)
        b2 = _subst(b, m, memo)
        r = sum_(v, n2, b2) if t.op == 'sum' else all_(v, n2, b2)
    elif t.op == 'fold':
        vs, n, ins, bs = openb(t)
        r = fold_(t.val[1], vs[1:], vs[0], [_subst(i, m, memo) for i in ins], _subst(n, m, memo), [_subst(b, m, memo) for b in bs])
    else:
        args = [_subst(a, m, memo) for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t, args)
    memo[t.id] = r
    return r


def subterms(ts):
    seen = {}
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(x.args)
    return seen
