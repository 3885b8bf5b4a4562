"""Hash-consed bit-vector terms with normalisation.

Every term denotes a bit-vector value of fixed width under an assignment of
variables ('v') and an interpretation of function symbols ('app').  All
constructors are semantics preserving rewrites; tests/fidelity.py checks every
constructor against concrete evaluation.
"""
import sys
sys.setrecursionlimit(1000000)

_tab = {}
_n = [0]


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'ar', '_iv', '_kz')

    def __repr__(self):
        return show(self, 4)

    # identity equality and hash by default


def _mk(op, w, a, ar=False):
    key = (op, w) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.ar = ar
        t._iv = None
        t._kz = None
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t


def reset():
    """forget all terms (only between independent obligations)"""
    _tab.clear()
    _cc.clear()
    _slcm.clear()
    _shr.clear()


_cc = {}


def const(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    t = _cc.get(k)
    if t is None:
        t = _mk('c', w, (v,), True)
        _cc[k] = t
    return t


def var(name, w=64, lo=0, hi=None, ar=True):
    if hi is None:
        hi = (1 << w) - 1
    return _mk('v', w, (name, lo, hi), ar)


_fresh = [0]


def fresh(name, w=64, lo=0, hi=None, ar=True):
    _fresh[0] += 1
    return var('%s#%d' % (name, _fresh[0]), w, lo, hi, ar)


def app(fn, w, args, hi=None):
    return _mk('app', w, (fn, hi) + tuple(args))


def is_c(t):
    return t.op == 'c'


def cval(t):
    return t.a[0]


def mask(w):
    return (1 << w) - 1


# ------------------------------------------------------------------ intervals

def sgn(c, w):
    return c - (1 << w) if c >> (w - 1) else c


def iv(t):
    r = t._iv
    if r is None:
        r = _ivc(t)
        t._iv = r
    return r


def lin_exact(t):
    """integer range of the sum read with signed coefficients (may leave [0,2^w))"""
    w = t.w
    c, ms = t.a
    lo = hi = sgn(c, w)
    for (m, k) in ms:
        k = sgn(k, w)
        l, h = iv(m)
        if k > 0:
            lo += k * l
            hi += k * h
        else:
            lo += k * h
            hi += k * l
    return lo, hi


def _ivc(t):
    op = t.op
    w = t.w
    full = (1 << w) - 1
    if op == 'c':
        return (t.a[0], t.a[0])
    if op == 'v':
        return (t.a[1], t.a[2])
    if op == 'app':
        h = t.a[1]
        return (0, full if h is None else h)
    if op == '+':
        lo, hi = lin_exact(t)
        if lo >= 0 and hi <= full:
            return (lo, hi)
        c = t.a[0]
        if c and sgn(c, w) < 0:       # read constant unsigned
            lo2, hi2 = lo + (1 << w), hi + (1 << w)
            if lo2 >= 0 and hi2 <= full:
                return (lo2, hi2)
        return (0, full)
    if op == '*':
        (al, ah), (bl, bh) = iv(t.a[0]), iv(t.a[1])
        if ah * bh <= full:
            return (al * bl, ah * bh)
        return (0, full)
    if op == 'cat':
        lo = hi = s = 0
        for p in t.a:
            l, h = iv(p)
            lo += l << s
            hi += h << s
            s += p.w
        return (lo, hi)
    if op == 'x':
        l, h = iv(t.a[0])
        l >>= t.a[1]
        h >>= t.a[1]
        if h <= full:
            return (l, h)
        if (l >> w) == (h >> w):
            return (l & full, h & full)
        return (0, full)
    if op == 'ite':
        (al, ah), (bl, bh) = iv(t.a[1]), iv(t.a[2])
        return (min(al, bl), max(ah, bh))
    if op == '&':
        return (0, min(iv(x)[1] for x in t.a))
    if op == '^':
        h = t.a[0]
        for m in t.a[1]:
            h |= (1 << iv(m)[1].bit_length()) - 1
        return (0, h)
    if op == 'udiv':
        (al, ah), (bl, bh) = iv(t.a[0]), iv(t.a[1])
        if bl > 0:
            return (al // bh, ah // bl)
        return (0, full)
    if op == 'urem':
        (al, ah), (bl, bh) = iv(t.a[0]), iv(t.a[1])
        if bl > 0:
            return (0, min(ah, bh - 1))
        return (0, full)
    return (0, full)


def kz(t):
    """mask of bits known to be zero"""
    r = t._kz
    if r is None:
        w = t.w
        op = t.op
        full = (1 << w) - 1
        if op == 'c':
            r = full & ~t.a[0]
        elif op == 'cat':
            r = 0
            s = 0
            for p in t.a:
                r |= kz(p) << s
                s += p.w
        elif op == 'ite':
            r = kz(t.a[1]) & kz(t.a[2])
        elif op == '&':
            r = 0
            for x in t.a:
                r |= kz(x)
        elif op == '^':
            r = full & ~t.a[0]
            for x in t.a[1]:
                r &= kz(x)
        else:
            h = iv(t)[1]
            r = full & ~((1 << h.bit_length()) - 1)
            if op == '+' and t.a[1]:
                # low zero bits from coefficients
                g = t.a[0]
                for m, k in t.a[1]:
                    g |= k * ((kz(m) & full) == 0 and 1 or (((kz(m) + 1) & ~kz(m)) if kz(m) != full else 0) or 1)
                if g:
                    r |= (g & -g) - 1
        t._kz = r
    return r


# ------------------------------------------------------------------ linear

def _lin(w, c, d):
    """from constant and dict term->coef (already reduced mod 2^w, non zero)"""
    m = (1 << w) - 1
    c &= m
    if not d:
        return const(c, w)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    ar = True
    for t in d:
        if not t.ar:
            ar = False
            break
    its = tuple(sorted(d.items(), key=_keyid))
    return _mk('+', w, (c, its), ar)


def _keyid(p):
    return p[0].id


def _id(t):
    return t.id


def add(a, b):
    if a.op == 'c':
        a, b = b, a
    w = a.w
    if b.op == 'c':
        v = b.a[0]
        if v == 0:
            return a
        if a.op == 'c':
            return const(a.a[0] + v, w)
        if a.op == '+':
            c = (a.a[0] + v) & ((1 << w) - 1)
            if c == 0 and len(a.a[1]) == 1 and a.a[1][0][1] == 1:
                return a.a[1][0][0]
            return _mk('+', w, (c, a.a[1]), a.ar)
    if not (a.ar or b.ar):
        if (kz(a) | kz(b)) == (1 << w) - 1:
            r = _disjoint(a, b)
            if r is not None:
                return r
    m = (1 << w) - 1
    if a.op == '+':
        c = a.a[0]
        d = dict(a.a[1])
    elif a.op == 'c':
        c = a.a[0]
        d = {}
    else:
        c = 0
        d = {a: 1}
    if b.op == '+':
        c += b.a[0]
        for t, k in b.a[1]:
            k2 = (d.get(t, 0) + k) & m
            if k2:
                d[t] = k2
            else:
                d.pop(t, None)
    elif b.op == 'c':
        c += b.a[0]
    else:
        k2 = (d.get(b, 0) + 1) & m
        if k2:
            d[b] = k2
        else:
            d.pop(b, None)
    return _lin(w, c, d)


def mulc(a, v):
    w = a.w
    m = (1 << w) - 1
    v &= m
    if v == 0:
        return const(0, w)
    if v == 1:
        return a
    if a.op == 'c':
        return const(a.a[0] * v, w)
    if w == 1:
        return a
    if a.op == '+':
        d = {}
        for t, k in a.a[1]:
            k = (k * v) & m
            if k:
                d[t] = k
        return _lin(w, a.a[0] * v, d)
    if a.op == 'cat' and not a.ar and v & (v - 1) == 0 and v != 1:
        return shlc(a, v.bit_length() - 1)
    return _lin(w, 0, {a: v})


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    if a is b:
        return const(0, a.w)
    return add(a, mulc(b, -1))


def mul(a, b):
    if a.op == 'c':
        return mulc(b, a.a[0])
    if b.op == 'c':
        return mulc(a, b.a[0])
    if a.ar and b.ar:
        # expand products of linear integer expressions
        if a.op == '+' or b.op == '+':
            ca, da = (a.a if a.op == '+' else (0, ((a, 1),)))
            cb, db = (b.a if b.op == '+' else (0, ((b, 1),)))
            r = const(ca * cb, a.w)
            for t, k in da:
                r = add(r, mulc(t, k * cb))
            for t, k in db:
                r = add(r, mulc(t, k * ca))
            for t, k in da:
                for u, l in db:
                    r = add(r, mulc(_mulatom(t, u), k * l))
            return r
    return _mulatom(a, b)


def _mulatom(a, b):
    fs = []
    for x in (a, b):
        if x.op == '*':
            fs.extend(_factors(x))
        else:
            fs.append(x)
    fs.sort(key=_id)
    r = fs[0]
    for f in fs[1:]:
        r = _mk('*', a.w, (r, f), r.ar and f.ar)
    return r


def _factors(x):
    if x.op == '*':
        return _factors(x.a[0]) + [x.a[1]]
    return [x]


# ------------------------------------------------------------------ slices

def slc(t, lo, n):
    """bits lo..lo+n-1 of t"""
    if lo == 0 and n == t.w:
        return t
    assert 0 <= lo and lo + n <= t.w and n > 0, (lo, n, t.w)
    op = t.op
    if op == 'c':
        return const(t.a[0] >> lo, n)
    k = (t, lo, n)
    r = _slcm.get(k)
    if r is None:
        r = _slcm[k] = _slc(t, lo, n)
    return r


_slcm = {}


def _slc(t, lo, n):
    op = t.op
    if op == 'x':
        return slc(t.a[0], lo + t.a[1], n)
    if op == 'cat':
        out = []
        s = 0
        e = lo + n
        for p in t.a:
            pe = s + p.w
            if pe > lo and s < e:
                l = max(lo, s) - s
                h = min(e, pe) - s
                out.append(slc(p, l, h - l))
            s = pe
            if s >= e:
                break
        return cat(out)
    if op == '^':
        c = const(t.a[0] >> lo, n)
        acc = set()
        for m in t.a[1]:
            acc ^= _anfset(slc(m, lo, n))
        return xor(_anf_from(n, acc), c)
    if op == '&':
        if len(t.a) > 2 and n > 1 and any(x.op == '^' for x in t.a):
            p = {slc(x, lo, n) for x in t.a}
            if len(p) > 1 and not any(x.op == 'c' for x in p):
                return _mk('&', n, tuple(sorted(p, key=_id)))
        r = slc(t.a[0], lo, n)
        for x in t.a[1:]:
            r = and_(r, slc(x, lo, n))
        return r
    if op == 'ite':
        return ite(t.a[0], slc(t.a[1], lo, n), slc(t.a[2], lo, n))
    l, h = iv(t)
    if h >> lo == 0:
        return const(0, n)
    if (l >> lo) == (h >> lo):
        return const(l >> lo, n)
    if op == '+':
        r = _slc_lin(t, lo, n)
        if r is not None:
            return r
    if op == '*' and lo == 0:
        a, b = t.a
        if _shrinks(a, n) and _shrinks(b, n):
            return mul(slc(a, 0, n), slc(b, 0, n))
    if op == 'udiv' and lo == 0 and h <= mask(n) and t.a[1].op == 'c' and iv(t.a[0])[1] <= mask(n):
        return udiv(slc(t.a[0], 0, n), slc(t.a[1], 0, n))
    return _mk('x', n, (t, lo), t.ar)


_shr = {}


def _shrinks(t, n):
    """does truncation to n bits commute with t AND make it structurally
    simpler (a zero extension of at most n bits, or a constant)?"""
    op = t.op
    if op == 'c':
        return True
    if op == 'cat':
        return t.a[0].w == n and all(p.op == 'c' for p in t.a[1:])
    if op not in ('+', '*'):
        return False
    k = (t, n)
    r = _shr.get(k)
    if r is None:
        if op == '+':
            r = all(_shrinks(m, n) for m, k_ in t.a[1])
        else:
            r = _shrinks(t.a[0], n) and _shrinks(t.a[1], n)
        _shr[k] = r
    return r


def _slc_lin(t, lo, n):
    c, ms = t.a
    w = t.w
    if lo == 0:
        # drop parts that vanish modulo 2^n
        mk = mask(n)
        if any((k & mk) == 0 for m, k in ms):
            return slc(_lin(w, c & mk, {m: k for m, k in ms if k & mk}), 0, n)
        if all(_shrinks(m, n) for m, k in ms):
            r = const(c, n)
            for m, k in ms:
                if k & mask(n):
                    r = add(r, mulc(slc(m, 0, n), k))
            return r
        return None
    # t = 2^lo * A + R,  0 <= R < 2^lo, no overflow of t
    el, eh = lin_exact(t)
    if el < 0 or eh > mask(w):
        return None
    p = 1 << lo
    cs = sgn(c, w)
    A = {}
    ac = cs >> lo
    rl = rh = cs & (p - 1)
    R = []
    for m, k in ms:
        k = sgn(k, w)
        q, r = divmod(k, p)
        if r * iv(m)[1] >= p and q == 0:
            return None
        if r and (p - r) < r:      # prefer small negative remainder
            pass
        if q:
            A[m] = q & mask(w)
        if r:
            l, h = iv(m)
            rl += r * l
            rh += r * h
    if rl < 0:
        return None
    if rl >> lo != rh >> lo:
        return None
    ac += rl >> lo
    q = _lin(w, ac, A)
    return slc(q, 0, n)


# ------------------------------------------------------------------ concat

def cat(ps):
    """concatenate, least significant piece first"""
    if len(ps) == 1:
        return ps[0]
    out = []
    st = list(reversed(ps))
    while st:
        p = st.pop()
        if p.op == 'cat':
            st.extend(reversed(p.a))
            continue
        if out:
            j = _join(out[-1], p)
            if j is not None:
                if j.op == 'cat':
                    out.pop()
                    out.extend(j.a)
                else:
                    out.pop()
                    st.append(j)
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    w = 0
    for p in out:
        w += p.w
    # arithmetic specials
    if len(out) == 2:
        a, b = out
        if b.op == 'c' and b.a[0] == 0:
            if a.op == 'x' and a.a[1] == 0:
                base = a.a[0]
                if base.w == w and iv(base)[1] <= mask(a.w):
                    return base
            if a.ar:
                r = _zext_ar(a, w)
                if r is not None:
                    return r
        if a.op == 'c' and a.a[0] == 0 and b.ar:
            # b << k
            if b.op == 'x' and b.a[1] == 0 and b.a[0].w == w:
                return mulc(b.a[0], 1 << a.w)
    if len(out) == 3 and out[0].op == 'c' and out[0].a[0] == 0 and out[2].op == 'c' and out[2].a[0] == 0 and out[1].ar:
        x = out[1]
        if x.op == 'x' and x.a[1] == 0 and x.a[0].w == w and iv(x.a[0])[1] <= mask(x.w):
            return mulc(x.a[0], 1 << out[0].w)
    return _mk('cat', w, tuple(out))


def _zext_ar(a, w):
    """zero extension of an arithmetic term, pushed to the leaves when no wrap can occur"""
    if a.op == 'c':
        return const(a.a[0], w)
    if a.op == 'x' and a.a[1] == 0 and a.a[0].w == w and iv(a.a[0])[1] <= mask(a.w):
        return a.a[0]
    if a.op == '+':
        lo, hi = lin_exact(a)
        if lo < 0 or hi > mask(a.w):
            return None
        r = const(sgn(a.a[0], a.w), w)
        for m, k in a.a[1]:
            z = _zext_ar(m, w)
            if z is None:
                return None
            r = add(r, mulc(z, sgn(k, a.w)))
        return r
    return None


def _join(a, b):
    """term for cat(a,b) when simpler than a two piece cat, else None"""
    ao, bo = a.op, b.op
    if ao == 'c':
        if bo == 'c':
            return const(a.a[0] | (b.a[0] << a.w), a.w + b.w)
        return None
    if ao == 'x' and bo == 'x':
        if a.a[0] is b.a[0] and a.a[1] + a.w == b.a[1]:
            return slc(a.a[0], a.a[1], a.w + b.w)
        return None
    if bo == 'x' and b.a[0].op == '+' and b.a[1] == a.w and ao in ('+', 'x', 'app', 'v'):
        # low part was distributed over the sum
        if slc(b.a[0], 0, a.w) is a:
            return slc(b.a[0], 0, a.w + b.w)
        return None
    if ao == 'ite' and bo == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], cat([a.a[1], b.a[1]]), cat([a.a[2], b.a[2]]))
    if ao == '^' and bo == '^':
        return _join_anf(a, b)
    if ao == '^' or bo == '^':
        return None
    return None


def _hd(t):
    """(base, position) of lowest bits, for matching"""
    while t.op == 'cat':
        t = t.a[0]
    if t.op == 'x':
        return (t.a[0].id, t.a[1])
    return (t.id, 0)


def _tl(t):
    while t.op == 'cat':
        t = t.a[-1]
    if t.op == 'x':
        e = t.a[1] + t.w
        b = t.a[0]
        return (b.id, 0 if e == b.w else e)
    return (t.id, 0)


def _hdm(m):
    if m.op == '&':
        return tuple(sorted(_hd(x) for x in m.a))
    return (_hd(m),)


def _tlm(m):
    if m.op == '&':
        return tuple(sorted(_tl(x) for x in m.a))
    return (_tl(m),)


def _catm(a, b):
    if a.op == '&':
        if b.op != '&' or len(a.a) != len(b.a):
            return None
        d = {}
        for x in b.a:
            h = _hd(x)
            if h in d:
                return None
            d[h] = x
        r = None
        for x in a.a:
            y = d.pop(_tl(x), None)
            if y is None:
                return None
            z = cat([x, y])
            r = z if r is None else and_(r, z)
        return r
    if b.op == '&':
        return None
    return cat([a, b])


def _join_anf(a, b):
    d = {}
    for m in b.a[1]:
        k = _hdm(m)
        if k in d:
            return None
        d[k] = m
    if len(a.a[1]) != len(b.a[1]):
        return None
    out = []
    for m in a.a[1]:
        n = d.pop(_tlm(m), None)
        if n is None:
            return None
        z = _catm(m, n)
        if z is None:
            return None
        out.append(z)
    w = a.w + b.w
    acc = set()
    for z in out:
        acc ^= _anfset(z)
    c = a.a[0] | (b.a[0] << a.w)
    if c:
        acc ^= {const(c, w)}
    return _anf_from(w, acc)


def zext(t, w):
    if w == t.w:
        return t
    return cat([t, const(0, w - t.w)])


def sext(t, w):
    if w == t.w:
        return t
    if t.op == 'c':
        return const(sgn(t.a[0], t.w), w)
    if t.w == 1:
        return ite(t, const(-1, w), const(0, w))
    if (kz(t) >> (t.w - 1)) & 1:
        return zext(t, w)
    if t.op == 'ite':
        return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    return _mk('sext', w, (t,))


def trunc(t, w):
    return slc(t, 0, w)


def shlc(t, k):
    if k == 0:
        return t
    if k >= t.w:
        return const(0, t.w)
    if t.ar and t.op != 'c':
        return mulc(t, 1 << k)
    return cat([const(0, k), slc(t, 0, t.w - k)])


def lshrc(t, k):
    if k == 0:
        return t
    if k >= t.w:
        return const(0, t.w)
    return cat([slc(t, k, t.w - k), const(0, k)])


def rotl(t, k):
    k %= t.w
    if k == 0:
        return t
    return cat([slc(t, t.w - k, k), slc(t, 0, t.w - k)])


def rotr(t, k):
    return rotl(t, -k)


def bswap(t):
    return cat([slc(t, i, 8) for i in range(t.w - 8, -1, -8)])


def shl(a, b):
    if b.op == 'c':
        return shlc(a, b.a[0])
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
        return ite(b.a[0], shl(a, b.a[1]), shl(a, b.a[2]))
    return _mk('shl', a.w, (a, b))


def lshr(a, b):
    if b.op == 'c':
        return lshrc(a, b.a[0])
    if a.op == 'c' and a.a[0] == 0:
        return a
    return _mk('lshr', a.w, (a, b))


def ashr(a, b):
    if b.op == 'c':
        k = min(b.a[0], a.w - 1)
        if k == 0:
            return a
        if a.op == 'c':
            return const(sgn(a.a[0], a.w) >> k, a.w)
        if (kz(a) >> (a.w - 1)) & 1:
            return lshrc(a, k)
        if a.w > 1 and k >= 1:
            return sext(slc(a, k, a.w - k), a.w)
    return _mk('ashr', a.w, (a, b))


# ------------------------------------------------------------------ bitwise

def _disjoint(a, b):
    """a | b when no bit is possibly set in both; None if it does not simplify"""
    w = a.w
    ka, kb = kz(a), kz(b)
    full = (1 << w) - 1
    # segment boundaries: where "a possibly non zero" changes
    if ka == full:
        return b
    if kb == full:
        return a
    segs = []
    i = 0
    cur = None
    st = 0
    for i in range(w):
        za = (ka >> i) & 1
        zb = (kb >> i) & 1
        k = 0 if (za and zb) else (1 if not za else 2)
        if k == 0 and cur is not None:
            # attach dead bits as zero segment
            pass
        if k != cur:
            if cur is not None:
                segs.append((cur, st, i))
            cur = k
            st = i
    segs.append((cur, st, w))
    if len(segs) > 12:
        return None
    out = []
    for k, s, e in segs:
        if k == 0:
            out.append(const(0, e - s))
        elif k == 1:
            out.append(slc(a, s, e - s))
        else:
            out.append(slc(b, s, e - s))
    return cat(out)


def _anfset(t):
    if t.op == '^':
        s = set(t.a[1])
        if t.a[0]:
            s.add(const(t.a[0], t.w))   # constant kept as pseudo monomial
        return s
    if t.op == 'c' and t.a[0] == 0:
        return set()
    return {t}


def _anf_from(w, s):
    c = 0
    ms = []
    for m in s:
        if m.op == 'c':
            c ^= m.a[0]
        else:
            ms.append(m)
    if not ms:
        return const(c, w)
    if c == 0 and len(ms) == 1:
        return ms[0]
    ms.sort(key=_id)
    return _mk('^', w, (c, tuple(ms)))


def xor(a, b):
    w = a.w
    if a is b:
        return const(0, w)
    if a.op == 'c' and a.a[0] == 0:
        return b
    if b.op == 'c' and b.a[0] == 0:
        return a
    if a.op == 'c' and b.op == 'c':
        return const(a.a[0] ^ b.a[0], w)
    full = (1 << w) - 1
    if w > 1 and (kz(a) | kz(b)) == full:
        r = _disjoint(a, b)
        if r is not None:
            return r
    if w > 1:
        # xor with ite of constants: distribute
        if a.op == 'c' and b.op == 'ite':
            return ite(b.a[0], xor(a, b.a[1]), xor(a, b.a[2]))
        if b.op == 'c' and a.op == 'ite':
            return ite(a.a[0], xor(b, a.a[1]), xor(b, a.a[2]))
    ca = cb = 0
    if a.op == '^':
        ca = a.a[0]
        sa = set(a.a[1])
    elif a.op == 'c':
        ca = a.a[0]
        sa = set()
    else:
        sa = {a}
    if b.op == '^':
        cb = b.a[0]
        sa ^= set(b.a[1])
    elif b.op == 'c':
        cb = b.a[0]
    else:
        sa ^= {b}
    c = ca ^ cb
    if not sa:
        return const(c, w)
    if c == 0 and len(sa) == 1:
        return sa.pop()
    return _mk('^', w, (c, tuple(sorted(sa, key=_id))))


def not_(a):
    if a.w == 1:
        if a.op == 'c':
            return const(1 - a.a[0], 1)
        if a.op == 'ite':
            return ite(a.a[0], not_(a.a[1]), not_(a.a[2]))
    return xor(a, const(-1, a.w))


def andc(t, m):
    w = t.w
    m &= (1 << w) - 1
    if m == 0:
        return const(0, w)
    if m == (1 << w) - 1:
        return t
    if t.op == 'c':
        return const(t.a[0] & m, w)
    if (~m & ~kz(t)) & ((1 << w) - 1) == 0:
        return t
    if t.op == 'ite':
        return ite(t.a[0], andc(t.a[1], m), andc(t.a[2], m))
    out = []
    i = 0
    while i < w:
        b = (m >> i) & 1
        j = i
        while j < w and ((m >> j) & 1) == b:
            j += 1
        out.append(slc(t, i, j - i) if b else const(0, j - i))
        i = j
    return cat(out)


def and_(a, b):
    w = a.w
    if a is b:
        return a
    if b.op == 'c':
        return andc(a, b.a[0])
    if a.op == 'c':
        return andc(b, a.a[0])
    if w == 1:
        return _and1(a, b)
    full = (1 << w) - 1
    if (kz(a) | kz(b)) == full:
        return const(0, w)
    # masks that are ite(c,-1,0) / ite(c,k,0)
    if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
        return ite(a.a[0], and_(a.a[1], b), and_(a.a[2], b))
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
        return ite(b.a[0], and_(b.a[1], a), and_(b.a[2], a))
    sa = _anfset(a)
    sb = _anfset(b)
    if len(sa) * len(sb) > 256:
        return _mk('&', w, tuple(sorted((a, b), key=_id)))
    acc = set()
    for x in sa:
        for y in sb:
            acc ^= _anfset(_andm(w, x, y))
    return _anf_from(w, acc)


def _andm(w, x, y):
    if x.op == 'c':
        return andc(y, x.a[0])
    if y.op == 'c':
        return andc(x, y.a[0])
    if (kz(x) | kz(y)) == (1 << w) - 1:
        return const(0, w)
    s = set(x.a) if x.op == '&' else {x}
    s |= set(y.a) if y.op == '&' else {y}
    if len(s) == 1:
        return s.pop()
    return _mk('&', w, tuple(sorted(s, key=_id)))


def _isnot(t):
    return t.op == '^' and t.w == 1 and t.a[0] == 1 and len(t.a[1]) == 1


def _and1(a, b):
    s = set(a.a) if a.op == '&' else {a}
    s |= set(b.a) if b.op == '&' else {b}
    for x in s:
        if not_(x) in s:
            return const(0, 1)
    if len(s) == 1:
        return s.pop()
    return _mk('&', 1, tuple(sorted(s, key=_id)))


def or_(a, b):
    w = a.w
    if a is b:
        return a
    if w == 1:
        return not_(and_(not_(a), not_(b)))
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        v = b.a[0]
        if v == 0:
            return a
        return xor(andc(a, ~v), b)
    if (kz(a) | kz(b)) == (1 << w) - 1:
        r = _disjoint(a, b)
        if r is not None:
            return r
    if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
        return ite(a.a[0], or_(a.a[1], b), or_(a.a[2], b))
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
        return ite(b.a[0], or_(b.a[1], a), or_(b.a[2], a))
    full = (1 << w) - 1
    fa, fb = _orfactors(a), _orfactors(b)
    if fa or fb or len(_anfset(a)) * len(_anfset(b)) > 16:
        # long chains stay conjunctions of complements
        s = set(fa or (not_(a),)) | set(fb or (not_(b),))
        if any(x.op == 'c' for x in s):
            return xor(xor(a, b), and_(a, b))
        m = s.pop() if len(s) == 1 else _mk('&', w, tuple(sorted(s, key=_id)))
        return xor(const(full, w), m)
    return xor(xor(a, b), and_(a, b))


def _orfactors(t):
    if t.op == '^' and t.a[0] == (1 << t.w) - 1 and len(t.a[1]) == 1 and t.a[1][0].op == '&':
        m = t.a[1][0].a
        if any(x.op == '^' for x in m):
            return m
    return None


# ------------------------------------------------------------------ conditions

TRUE = None
FALSE = None


def ite(c, a, b):
    if c.op == 'c':
        return a if c.a[0] else b
    if a is b:
        return a
    if _isnot(c):
        return ite(c.a[1][0], b, a)
    w = a.w
    if w == 1:
        if a.op == 'c' and b.op == 'c':
            return c if a.a[0] else not_(c)
        if a.op == 'c':
            return or_(c, b) if a.a[0] else and_(not_(c), b)
        if b.op == 'c':
            return or_(not_(c), a) if b.a[0] else and_(c, a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.op == 'ult' and c.a[0] is a and c.a[1] is b:
        # min: the other side is never smaller
        if iv(b)[0] >= iv(a)[1]:
            return a
        if iv(a)[0] >= iv(b)[1]:
            return b
    if c.op == 'ult' and c.a[0] is b and c.a[1] is a:
        if iv(a)[0] >= iv(b)[1]:
            return a
        if iv(b)[0] >= iv(a)[1]:
            return b
    if w > 1 and a.op == 'c' and b.op == 'c' and a.a[0] == 1 and b.a[0] == 0:
        return zext(c, w)
    return _mk('ite', w, (c, a, b), a.ar and b.ar)


def eq(a, b):
    if a is b:
        return const(1, 1)
    w = a.w
    if a.op == 'c' and b.op == 'c':
        return const(int(a.a[0] == b.a[0]), 1)
    if w == 1:
        return not_(xor(a, b))
    if a.op == 'c':
        a, b = b, a
    (al, ah), (bl, bh) = iv(a), iv(b)
    if ah < bl or bh < al:
        return const(0, 1)
    if b.op == 'c':
        v = b.a[0]
        if kz(a) & v:
            return const(0, 1)
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if x.op == 'c' or y.op == 'c':
                return ite(a.a[0], eq(x, b), eq(y, b))
        if a.op == 'cat':
            # conjunction over pieces
            r = const(1, 1)
            s = 0
            for p in a.a:
                r = and_(r, eq(p, const(v >> s, p.w)))
                s += p.w
            return r
        if a.op == '&' and v == (1 << w) - 1:
            r = const(1, 1)
            for p in a.a:
                r = and_(r, eq(p, b))
            return r
        if a.op == '^' and a.a[0]:
            return eq(_mk('^', w, (0, a.a[1])) if len(a.a[1]) > 1 else a.a[1][0], const(v ^ a.a[0], w))
    if a.op == '+' or b.op == '+':
        d = sub(a, b)
        if d.op == 'c':
            return const(int(d.a[0] == 0), 1)
        if d.op == '+':
            lo, hi = lin_exact(d)
            if (lo > 0 and hi < (1 << w)) or (hi < 0 and lo > -(1 << w)):
                return const(0, 1)
            c, ms = d.a
            # gcd test: low bits
            g = 0
            for m, k in ms:
                g |= k
            g = g & -g
            if c & (g - 1):
                return const(0, 1)
            # canonical sign: first coefficient positive small
            if sgn(ms[0][1], w) < 0:
                d = neg(d)
                c, ms = d.a if d.op == '+' else (0, ((d, 1),))
            if len(ms) == 1 and ms[0][1] == 1:
                a, b = ms[0][0], const(-c, w)
                (al, ah) = iv(a)
                if not (al <= b.a[0] <= ah):
                    return const(0, 1)
                return _mk('eq', 1, (a, b))
            return _mk('eq', 1, (d, const(0, w)))
        return eq(d, const(0, w))
    if b.op != 'c' and a.id > b.id:
        a, b = b, a
    return _mk('eq', 1, (a, b))


def ult(a, b):
    if a is b:
        return const(0, 1)
    w = a.w
    (al, ah), (bl, bh) = iv(a), iv(b)
    if ah < bl:
        return const(1, 1)
    if al >= bh:
        return const(0, 1)
    if w == 1:
        return and_(not_(a), b)
    # integer reading when neither side wraps
    if (a.op == '+' or b.op == '+') and _nowrap(a) and _nowrap(b):
        lo, hi = _diff_range(b, a)
        if lo > 0:
            return const(1, 1)
        if hi <= 0:
            return const(0, 1)
    if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c' and b.op == 'c':
        return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if b.op == 'c':
        v = b.a[0]
        if v == 1:
            return eq(a, const(0, w))
        if v & (v - 1) == 0:
            # a < 2^k  <=> high bits zero
            k = v.bit_length() - 1
            if not a.ar:
                return eq(slc(a, k, w - k), const(0, w - k))
        elif ((v + 1) & v) == 0 and False:
            pass
    if a.op == 'c' and a.a[0] == 0:
        return not_(eq(b, a))
    if a.op == 'cat' and b.op == 'c' and a.a[-1].op == 'c' and a.a[-1].a[0] == 0:
        n = w - a.a[-1].w
        if b.a[0] <= mask(n):
            return ult(slc(a, 0, n), const(b.a[0], n))
    return _mk('ult', 1, (a, b))


def _nowrap(a):
    if a.op == '+':
        lo, hi = lin_exact(a)
        return lo >= 0 and hi <= mask(a.w)
    return True


def _lind(a):
    w = a.w
    if a.op == '+':
        return sgn(a.a[0], w), {m: sgn(k, w) for m, k in a.a[1]}
    if a.op == 'c':
        return a.a[0], {}
    return 0, {a: 1}


def _diff_range(a, b):
    """exact integer range of a-b (both non wrapping)"""
    ca, da = _lind(a)
    cb, db = _lind(b)
    for m, k in db.items():
        da[m] = da.get(m, 0) - k
    lo = hi = ca - cb
    for m, k in da.items():
        l, h = iv(m)
        if k > 0:
            lo += k * l
            hi += k * h
        elif k < 0:
            lo += k * h
            hi += k * l
    return lo, hi


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    w = a.w
    if a is b:
        return const(0, 1)
    if a.op == 'c' and b.op == 'c':
        return const(int(sgn(a.a[0], w) < sgn(b.a[0], w)), 1)
    top = 1 << (w - 1)
    if iv(a)[1] < top and iv(b)[1] < top:
        return ult(a, b)
    if b.op == 'c' and b.a[0] == 0:
        return slc(a, w - 1, 1)
    return _mk('slt', 1, (a, b))


def sle(a, b):
    return not_(slt(b, a))


def udiv(a, b):
    w = a.w
    if b.op == 'c' and b.a[0] != 0:
        v = b.a[0]
        if v == 1:
            return a
        if a.op == 'c':
            return const(a.a[0] // v, w)
        if v & (v - 1) == 0:
            return lshrc(a, v.bit_length() - 1)
        l, h = iv(a)
        if l // v == h // v:
            return const(l // v, w)
        r = _divmod_lin(a, v)
        if r is not None:
            return r[0]
    return _mk('udiv', w, (a, b), a.ar and b.ar)


def urem(a, b):
    w = a.w
    if b.op == 'c' and b.a[0] != 0:
        v = b.a[0]
        if a.op == 'c':
            return const(a.a[0] % v, w)
        if v & (v - 1) == 0:
            return andc(a, v - 1)
        l, h = iv(a)
        if l // v == h // v:
            return sub(a, const(l // v * v, w))
        r = _divmod_lin(a, v)
        if r is not None:
            return r[1]
    return _mk('urem', w, (a, b), a.ar and b.ar)


def _divmod_lin(a, v):
    if a.op != '+':
        return None
    w = a.w
    lo, hi = lin_exact(a)
    if lo < 0 or hi > mask(w):
        return None
    c = sgn(a.a[0], w)
    Q = {}
    R = {}
    qc, rc = divmod(c, v)
    rl = rh = rc
    for m, k in a.a[1]:
        k = sgn(k, w)
        q, r = divmod(k, v)
        if q:
            Q[m] = q & mask(w)
        if r:
            R[m] = r
            l, h = iv(m)
            rl += r * l
            rh += r * h
    if rl // v != rh // v:
        return None
    e = rl // v
    return _lin(w, qc + e, Q), _lin(w, rc - e * v, R)


# ------------------------------------------------------------------ traversal

def subst(t, mp, memo=None):
    """simultaneous substitution (terms -> terms), rebuilding with normalisation"""
    if memo is None:
        memo = {}
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    r = mp.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: _subst(x, mp, memo))
    memo[t] = r
    return r


def children(t):
    op = t.op
    if op in ('c', 'v'):
        return ()
    if op == 'app':
        return tuple(x for x in t.a[2:] if isinstance(x, T))
    if op == '+':
        return tuple(m for m, k in t.a[1])
    if op == '^':
        return t.a[1]
    if op == 'x':
        return (t.a[0],)
    return t.a


def rebuild(t, f):
    op = t.op
    if op == 'c' or op == 'v':
        return t
    if op == 'app':
        new = tuple(f(x) if isinstance(x, T) else x for x in t.a[2:])
        if all(p is q for p, q in zip(new, t.a[2:])):
            return t
        h = _apphook.get(t.a[0])
        if h is not None:
            r = h(t.w, new)
            if r is not None:
                return r
        return _mk('app', t.w, t.a[:2] + new, t.ar)
    if op == '+':
        new = [(f(m), k) for m, k in t.a[1]]
        if all(p[0] is q[0] for p, q in zip(new, t.a[1])):
            return t
        r = const(t.a[0], t.w)
        for m, k in new:
            r = add(r, mulc(m, k))
        return r
    if op == '^':
        new = [f(m) for m in t.a[1]]
        if all(p is q for p, q in zip(new, t.a[1])):
            return t
        r = const(t.a[0], t.w)
        for m in new:
            r = xor(r, m)
        return r
    if op == 'x':
        b = f(t.a[0])
        return t if b is t.a[0] else slc(b, t.a[1], t.w)
    new = [f(x) for x in t.a]
    if all(p is q for p, q in zip(new, t.a)):
        return t
    if op == 'cat':
        return cat(new)
    if op == '&':
        r = new[0]
        for x in new[1:]:
            r = and_(r, x)
        return r
    return _BUILD[op](t.w, *new)


_apphook = {}

_BUILD = {
    '*': lambda w, a, b: mul(a, b),
    'ite': lambda w, c, a, b: ite(c, a, b),
    'eq': lambda w, a, b: eq(a, b),
    'ult': lambda w, a, b: ult(a, b),
    'slt': lambda w, a, b: slt(a, b),
    'udiv': lambda w, a, b: udiv(a, b),
    'urem': lambda w, a, b: urem(a, b),
    'shl': lambda w, a, b: shl(a, b),
    'lshr': lambda w, a, b: lshr(a, b),
    'ashr': lambda w, a, b: ashr(a, b),
    'sext': lambda w, a: sext(a, w),
}


def leaves(t, acc=None, seen=None):
    """set of variables and applications below t"""
    if acc is None:
        acc = set()
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('v', 'app'):
            acc.add(x)
        st.extend(children(x))
    return acc


# ------------------------------------------------------------------ evaluation

def ev(t, env, memo):
    """concrete value; env(leaf, [argvalues]) gives the value of variables/apps"""
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    w = t.w
    m = (1 << w) - 1
    if op == 'c':
        return t.a[0]
    if op == 'v':
        r = env(t, ()) & m
    elif op == 'app':
        r = env(t, tuple(ev(x, env, memo) if isinstance(x, T) else x for x in t.a[2:])) & m
    elif op == '+':
        r = t.a[0]
        for x, k in t.a[1]:
            r += k * ev(x, env, memo)
        r &= m
    elif op == '^':
        r = t.a[0]
        for x in t.a[1]:
            r ^= ev(x, env, memo)
    elif op == '&':
        r = m
        for x in t.a:
            r &= ev(x, env, memo)
    elif op == 'cat':
        r = 0
        s = 0
        for x in t.a:
            r |= ev(x, env, memo) << s
            s += x.w
    elif op == 'x':
        r = (ev(t.a[0], env, memo) >> t.a[1]) & m
    elif op == 'ite':
        r = ev(t.a[1] if ev(t.a[0], env, memo) else t.a[2], env, memo)
    else:
        a = ev(t.a[0], env, memo)
        aw = t.a[0].w
        if op == 'sext':
            r = sgn(a, aw) & m
        else:
            b = ev(t.a[1], env, memo)
            if op == '*':
                r = (a * b) & m
            elif op == 'eq':
                r = int(a == b)
            elif op == 'ult':
                r = int(a < b)
            elif op == 'slt':
                r = int(sgn(a, aw) < sgn(b, aw))
            elif op == 'udiv':
                r = a // b if b else m
            elif op == 'urem':
                r = a % b if b else a
            elif op == 'shl':
                r = (a << b) & m if b < w else 0
            elif op == 'lshr':
                r = a >> b if b < w else 0
            elif op == 'ashr':
                r = (sgn(a, w) >> min(b, w - 1)) & m
            else:
                raise Exception(op)
    memo[t] = r
    return r


# ------------------------------------------------------------------ printing

def show(t, d=6):
    op = t.op
    if op == 'c':
        v = sgn(t.a[0], t.w)
        return '%d' % v if abs(v) < 4096 else '0x%x' % t.a[0]
    if op == 'v':
        return t.a[0][-40:]
    if d == 0:
        return '..'
    if op == 'app':
        return '%s(%s)' % (str(t.a[0])[-40:], ','.join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a[2:]))
    if op == '+':
        ps = []
        for m, k in t.a[1][:6]:
            k = sgn(k, t.w)
            ps.append(show(m, d - 1) if k == 1 else '%d*%s' % (k, show(m, d - 1)))
        if len(t.a[1]) > 6:
            ps.append('..%d more' % (len(t.a[1]) - 6))
        if t.a[0]:
            ps.append(show(const(t.a[0], t.w)))
        return '(' + ' + '.join(ps) + ')'
    if op == '^':
        ps = [show(m, d - 1) for m in t.a[1][:6]]
        if len(t.a[1]) > 6:
            ps.append('..%d more' % (len(t.a[1]) - 6))
        if t.a[0]:
            ps.append(hex(t.a[0]))
        return '(' + ' ^ '.join(ps) + ')'
    if op == 'x':
        return '%s[%d+%d]' % (show(t.a[0], d - 1), t.a[1], t.w)
    if op == 'cat':
        return '{' + '|'.join('%s:%d' % (show(p, d - 1), p.w) for p in t.a[:8]) + ('..' if len(t.a) > 8 else '') + '}'
    return '%s(%s)' % (op, ','.join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a))
