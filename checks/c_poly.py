"""M02: Poly1305"""
import ctypes
import itertools
import random

import build
import core
import execu
import ghost
import guarded
import hashth
import intpoly
import irparse
import prover
import terms as t
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from hashth import must_equal
from terms import const

PRIME = (1 << 130) - 5
QMAX = 1 << 54

SRC = '''
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/detail/alias.h>
#include <new>
using namespace milo; using namespace milo::primitive;
''' + ghost.GBOX + '''
using PP = %(cls)s;
using C = mac::apie<PP>;
extern "C" {
size_t h_sizeof(){ return sizeof(C); }
void h_init(C* o, const uint8_t* k, size_t kn){ o->initialize(k, kn); }
void h_initc(C* o, const char* k, size_t kn){ o->initialize(k, kn); }
void h_ctor(C* o, const uint8_t* k, size_t kn){ new (o) C(k, kn); }
void h_del(C* o){ o->~C(); }
void h_upd(C* o, const uint8_t* p, size_t n){ o->update(p, n); }
void h_updc(C* o, const char* p, size_t n){ o->update(p, n); }
size_t h_dig(C* o, uint8_t* p, size_t n){ return o->digest(p, n); }
size_t h_digch(C* o, char* p, size_t n){ return o->digest(p, n); }
size_t h_digc(C* o, std::array<uint8_t,8>* a, size_t n){ return o->digest(*a, n); }
size_t h_digl(C* o, std::array<uint8_t,100>* a, size_t n){ return o->digest(*a, n); }
size_t h_digb(C* o, gbox<uint8_t>* a, size_t n){ return o->digest(*a, n); }
size_t h_digr(C* o, gbox<uint8_t>* a, size_t n){ *a = o->template digest<gbox<uint8_t>>(n); return a->n; }
size_t h_digs(C* o, uint8_t* p){ auto r = o->digest(); __builtin_memcpy(p, r.data(), r.size()); return r.size(); }
size_t h_one(const uint8_t* k, size_t kn, const uint8_t* p, size_t n, uint8_t* d, size_t m){ return mac::digest<PP>(k, kn, p, n, d, m); }
size_t h_oneb(const gbox<uint8_t>* k, const gbox<uint8_t>* p, gbox<uint8_t>* d, size_t m){ return mac::digest<PP>(*k, *p, *d, m); }
size_t h_oner(const gbox<uint8_t>* k, const gbox<uint8_t>* p, gbox<uint8_t>* d, size_t m){ *d = mac::digest<PP, gbox<uint8_t>>(*k, *p, m); return d->n; }
size_t h_ones(const gbox<uint8_t>* k, const gbox<uint8_t>* p, uint8_t* d){ auto r = mac::digest<PP>(*k, *p); __builtin_memcpy(d, r.data(), r.size()); return r.size(); }
}'''

LSRC = '''
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/poly.h>
using namespace milo; using namespace milo::primitive;
extern "C" void h_proc(size_t n, const uint32_t* k, uint32_t* a, uint32_t add, const uint8_t* p){ detail::mac_poly_1305_impl_sw::process(n, k, a, add, p); }
'''

LEAFFN = 'mac_poly_1305_impl_sw\\w*process'
A4 = 6          # largest top limb the block function has to accept (value < 2p)


def KEYB(o):
    return t.app('key', 8, (o,))


def keywords(f=KEYB, n=None):
    """the eight words of m_key_r and the four of s, from key bytes (missing bytes zero)"""
    def byte(i):
        return f(const(i, 64)) if n is None or i < n else const(0, 8)
    w = [t.cat([byte(4 * i + j) for j in range(4)]) for i in range(8)]
    r = [t.and_(w[0], const(0x0fffffff, 32))] + [t.and_(w[i], const(0x0ffffffc, 32)) for i in (1, 2, 3)]
    k = r + [t.mulc(t.lshr(x, const(2, 32)), 5) for x in r]
    return k, w[4:]


# ------------------------------------------------------------------ leaf

def tob(ws):
    return [t.slc(x, 8 * i, 8) for x in ws for i in range(x.w // 8)]


def pick(bs):
    def f(o):
        if o.op != 'c':
            raise irparse.Unsupported('symbolic index into the state')
        return bs[o.a[0]]
    return f


def leaf(mod, entry='@h_proc'):
    """process: for every n, add in {0, 1}, r as clamped by initialize and limbs of a value V < 2p (top limb <= 6):
    the limbs after j blocks hold a value congruent to V_j modulo p, top limb <= 6, where V_{j+1} = (V_j + block_j + add 2^128) r"""
    n = t.var('n', 64, 0, 1 << 50)
    r = [t.var('r0', 32, 0, 0x0fffffff)] + [t.mulc(t.var('s%d' % i, 32, 0, 0x03ffffff), 4) for i in (1, 2, 3)]
    k = r + [t.mulc(t.lshr(x, const(2, 32)), 5) for x in r]
    add = t.var('add', 32, 0, 1)
    A = lambda i, j: t.app('A.%d' % i, 32, (j,), hi=A4 if i == 4 else None)
    M = lambda o: t.app('M', 8, (o,))
    ex = Exec(mod)
    folded = []

    def fold(st, kt):
        try:
            mp = step(ex, st, kt, r, add, A, M)
        except (NotProved, Refuted):
            if ex.fold_probe:
                return {}           # the loop is entered before the first block
            raise
        folded.append(len(mp))
        return mp
    ex.fold = fold
    st = State()
    K = st.new('key', 32, base=pick(tob(k)), writable=False)
    C = st.new('acc', 20, base=pick(tob([A(i, const(0, 64)) for i in range(5)])))
    D = st.new('data', t.mulc(n, 16), base=M, writable=False)
    outs = ex.run_function(st, entry, [n, K, C, add, D])
    if not outs or not folded:
        raise NotProved('vacuous')
    for o in outs:
        if o.out[0] != 'ret':
            raise Refuted('process ends in %s' % (o.out,), pc=o.pc)
        for i in range(5):
            v = ex.load(o, Ptr('acc', const(4 * i, 64)), 4)
            g = A(i, n)
            if v is not g and ex.decide(o, t.eq(n, const(0, 64))) is True:
                g = A(i, const(0, 64))
            must_equal(ex, o, v, g, 'limb %d after n blocks' % i)
    if all(ex.decide(o, t.eq(n, const(0, 64))) is True for o in outs):
        raise NotProved('vacuous: only n = 0 returns')
    return {}


def step(ex, st, kt, r, add, A, M):
    """find the five limbs among the live values, prove the step, and name them A.i(kt)"""
    j = t.sub(kt, const(1, 64))
    cand = {}
    raw = {}

    def see(v):
        if not isinstance(v, t.T) or v.w < 32 or v.w > 64 or v.op in ('c', 'v'):
            return
        lo = t.slc(v, 0, 32)
        if v.w > 32 and v is not t.zext(lo, v.w) and t.iv(v)[1] >= 1 << 32:
            return
        if not any(l.op == 'app' and l.a[0] == 'M' and True for l in leafset(lo)):
            return
        cand.setdefault(lo, len(cand))
        raw.setdefault(lo, set()).add(v)
    for fr in st.frames[-1:]:
        for nm, v in fr.env.items():
            if nm not in ex.fold_live:
                continue
            if isinstance(v, list):
                for x in v:
                    see(x)
            see(v)
    for (o, off, nn, v) in st.log or ():
        if o in st.mem and off.op == 'c' and nn == 4:
            see(ex.load(st, Ptr(o, off), 4))
    cs = list(cand)
    if len(cs) < 5:
        raise NotProved('limbs not found (%d candidates)' % len(cs))
    rnd = random.Random(5)
    envs = []
    for s in range(3):
        vals = {}

        def env(x, args, vals=vals):
            key = (x.a[0],) + tuple(args)
            if key not in vals:
                lo, hi = t.iv(x)
                vals[key] = rnd.choice([lo, hi, rnd.randint(lo, hi), rnd.randint(lo, hi)])
            return vals[key]
        memo = {}
        kv = t.ev(j, env, memo)
        V = sum(t.ev(A(i, j), env, memo) << (32 * i) for i in range(5))
        m = sum(t.ev(M(t.add(t.mulc(j, 16), const(i, 64))), env, memo) << (8 * i) for i in range(16)) + (t.ev(add, env, memo) << 128)
        R = sum(t.ev(x, env, memo) << (32 * i) for i, x in enumerate(r))
        envs.append(([t.ev(c, env, memo) for c in cs], (V + m) * R % PRIME, vals))
    if len(cs) > 12:
        raise NotProved('too many candidate limbs')
    order = None
    for p in itertools.permutations(range(len(cs)), 5):
        if all((sum(vs[c] << (32 * i) for i, c in enumerate(p)) - w) % PRIME == 0 for vs, w, _ in envs):
            order = p
            break
    if order is None:
        if len(cs) == 5:
            raise Refuted('one block does not compute (acc + block + add 2^128) r modulo 2^130 - 5 for any reading of the limbs',
                          {str(k): v for k, v in list(envs[-1][2].items())[:40]})
        raise NotProved('no five live values hold the new accumulator')
    T = [cs[c] for c in order]
    tr = intpoly.Tr()
    try:
        V = intpoly.P()
        for i in range(5):
            V = V.add(tr.tr(T[i]), 1 << (32 * i))
        R = intpoly.P()
        for i in range(4):
            R = R.add(tr.tr(r[i]), 1 << (32 * i))
        W = tr.tr(add).scale(1 << 128)
        for i in range(5):
            W = W.add(tr.tr(A(i, j)), 1 << (32 * i))
        for i in range(16):
            W = W.add(tr.tr(M(t.add(t.mulc(j, 16), const(i, 64)))), 1 << (8 * i))
        d = V.add(W.mul(R), -1)
    except intpoly.NoInt as e:
        raise NotProved(str(e))
    ex.oblig += 1 + len(d.d)
    if not d.mod_zero(PRIME):
        for _ in range(3000):
            vals = {}
            fix = rnd.choice([None, None, None, 1])

            def env(x, args, vals=vals, fix=fix):
                key = (x.a[0],) + tuple(args)
                if key not in vals:
                    lo, hi = t.iv(x)
                    if x.op == 'app' and x.a[0] == 'A.4':
                        hi = 3
                    vals[key] = hi if fix else rnd.choice([lo, hi, hi, rnd.randint(lo, hi)])
                return vals[key]
            memo = {}
            t.ev(j, env, memo)
            Vn = sum(t.ev(A(i, j), env, memo) << (32 * i) for i in range(5))
            if Vn >= PRIME:
                continue
            m = sum(t.ev(M(t.add(t.mulc(j, 16), const(i, 64))), env, memo) << (8 * i) for i in range(16)) + (t.ev(add, env, memo) << 128)
            Rn = sum(t.ev(x, env, memo) << (32 * i) for i, x in enumerate(r))
            if (sum(t.ev(x, env, memo) << (32 * i) for i, x in enumerate(T)) - (Vn + m) * Rn) % PRIME:
                raise Refuted('one block does not compute (acc + block + add 2^128) r modulo 2^130 - 5 (a limb overflows)', {str(k): v for k, v in list(vals.items())[:40]})
        raise NotProved('the congruence modulo 2^130 - 5 of one block is not a polynomial identity')
    ex.oblig += 1
    if t.iv(T[4])[1] > A4:
        raise NotProved('bound of the top limb %d' % t.iv(T[4])[1])
    mp = {}
    for i in range(5):
        for v in raw[T[i]] | {T[i], t.zext(T[i], 64)}:
            mp[v] = t.zext(A(i, kt), v.w)
    return mp


def leafset(x):
    return t.leaves(x)


# ------------------------------------------------------------------ contract of process

def ACC(i, a):
    if a.op == 'c' and a.a[0] == 0:
        return const(0, 32)
    return t.app('ACC.%d' % i, 32, (a,), hi=A4 if i == 4 else None)


def FIN(i):
    return t.app('FIN.%d' % i, 32, (), hi=A4 if i == 4 else None)


class PolyContract:
    """process under its contract.  ACC.i(a): limbs of any value congruent to the polynomial after a blocks"""

    def __init__(self, kw, tail=None):
        self.kw = kw
        self.tail = tail
        self.fin = 0

    def __call__(self, ex, st, args):
        cnt, kp, ap, add, dp = args
        for i in range(8):
            must_equal(ex, st, ex.load(st, Ptr(kp.obj, t.add(kp.off, const(4 * i, 64))), 4), self.kw[i], 'key word %d given to process' % i)
        ws = [ex.load(st, Ptr(ap.obj, t.add(ap.off, const(4 * i, 64))), 4) for i in range(5)]
        a = self.which(ws)
        if a is None:
            raise Refuted('process called with an accumulator that is not the one after a blocks: %s' % [t.show(w, 2) for w in ws])
        if not isinstance(dp, Ptr):
            raise NotProved('data pointer')
        if add.op != 'c' or add.a[0] not in (0, 1):
            raise Refuted('process called with the 2^128 bit %s' % t.show(add))
        o = st.objs.get(dp.obj)
        if o is None:
            raise Refuted('process reads dead memory')
        ex.oblig += 1
        ex.range_in(st, o, dp.off, t.mulc(cnt, 16), False)
        base = t.mulc(a, 16)
        if add.a[0] == 0:
            if self.tail is None or cnt.op != 'c' or cnt.a[0] != 1:
                raise Refuted('process without the 2^128 bit outside the final block')
            for x in range(16):
                must_equal(ex, st, ex.byte(st, Ptr(dp.obj, t.add(dp.off, const(x, 64)))), self.tail(a, x), 'byte %d of the final block' % x)
            self.fin += 1
            out = [FIN(i) for i in range(5)]
        else:
            if cnt.op == 'c' and cnt.a[0] <= 2:
                for x in range(cnt.a[0] * 16):
                    must_equal(ex, st, ex.byte(st, Ptr(dp.obj, t.add(dp.off, const(x, 64)))), hashth.P(t.add(base, const(x, 64))), 'block byte %d' % x)
            else:
                x = t.fresh('byte', 64, 0, QMAX * 16)
                s2 = st.fork()
                s2.assume(t.ult(x, t.mulc(cnt, 16)))
                old, ex.cur = ex.cur, s2
                v = ex.byte(s2, Ptr(dp.obj, t.add(dp.off, x)))
                ex.cur = old
                must_equal(ex, s2, v, hashth.P(t.add(base, x)), 'bytes of %s blocks from block %s' % (t.show(cnt), t.show(a)))
            out = [ACC(i, t.add(a, cnt)) for i in range(5)]
        for i in range(5):
            ex.store(st, Ptr(ap.obj, t.add(ap.off, const(4 * i, 64))), out[i], 4)
        return None

    def which(self, ws):
        if all(w.op == 'c' and w.a[0] == 0 for w in ws):
            return const(0, 64)
        a = None
        for i, w in enumerate(ws):
            if w.op != 'app' or w.a[0] != 'ACC.%d' % i:
                return None
            if a is None:
                a = w.a[2]
            elif a is not w.a[2]:
                return None
        return a


def setup(mod, con):
    ex = Exec(mod)
    ex.hooks['@ghost_resize'] = ghost.resize_hook
    ex.indirect = lambda ex, st, fv, args: con(ex, st, args)
    import re
    for f in list(mod.funcs) + list(mod.decls):
        if re.search(LEAFFN, f):
            ex.hooks[f] = con
    return ex


def newkey(st, kn=32, name='kk'):
    return st.new(name, const(kn, 64) if isinstance(kn, int) else kn, base=KEYB, writable=False)


def update(mod, case, zero, f='@h_upd'):
    kw, s = keywords()
    con = PolyContract(kw)
    ex = setup(mod, con)
    st = State()
    B = 16
    q = const(0, 64) if zero else t.var('q', 64, 1, QMAX)
    b = t.var('b', 64, 0, B - 1)
    L = t.add(t.mulc(q, B), b)
    if case == 'same':
        n = t.var('n', 64, 0, B - 1)
        st.assume(t.ult(t.add(b, n), const(B, 64)))
    else:
        m = t.var('m', 64, 0, QMAX)
        b2 = t.var('b2', 64, 0, B - 1)
        n = t.add(t.sub(b2, b), t.mulc(t.add(m, const(1, 64)), B))
    sz = hashth.const_ret(mod, '@h_sizeof')
    o1, o2 = st.new('obj', sz), st.new('ref', sz)
    P = hashth.P
    K = newkey(st)
    d1 = st.new('msg1', L, base=P, writable=False)
    d2 = st.new('msg2', n, base=lambda o: P(t.add(L, o)), writable=False)
    d3 = st.new('msg3', t.add(L, n), base=P, writable=False)
    sts = [st]
    sts = hashth.paths(ex, sts, '@h_init', [o1, K, const(32, 64)])
    sts = hashth.paths(ex, sts, '@h_init', [o2, K, const(32, 64)])
    sts = hashth.paths(ex, sts, f, [o1, d1, L])
    sts = hashth.paths(ex, sts, f, [o1, d2, n])
    sts = hashth.paths(ex, sts, '@h_upd', [o2, d3, t.add(L, n)])
    if not sts:
        raise NotProved('vacuous')
    c = 0
    for x in sts:
        c += hashth.soft((L, n), hashth.compare_objects, ex, x, 'ref', 'obj', sz, 'update after %s' % case)
    if c < 8 * len(sts):
        raise NotProved('vacuous: nothing determined')
    return {'paths': len(sts), 'obligations': c}


def tagspec(limbs, s):
    """((value of the limbs) mod p + s) mod 2^128 as 16 bytes"""
    V = const(0, 160)
    for i in range(5):
        V = t.add(V, t.cat([const(0, 32 * i), t.zext(limbs[i], 160 - 32 * i)] if i else [t.zext(limbs[0], 160)]))
    S = t.zext(t.cat(s), 160)
    red = t.ite(t.ult(V, const(PRIME, 160)), V, t.sub(V, const(PRIME, 160)))
    tag = t.add(red, S)
    return [t.slc(tag, 8 * i, 8) for i in range(16)]


def abstract(ws, limbs, s, st):
    """replace limbs and s words by plain variables (the lemma does not depend on how they came about)"""
    mp = {}
    A, S = [], []
    for i, l in enumerate(limbs):
        if l.op == 'c':
            A.append(l)
        else:
            v = t.var('limb%d' % i, 32, 0, A4 if i == 4 else None)
            mp[l] = v
            A.append(v)
    return mp, A


def final(ex, st, obj, limbs, s, n=16, what='tag'):
    """the n tag bytes at obj equal the specification"""
    want = tagspec(limbs, s)
    for i in range(n):
        pass
    got = [ex.byte(st, Ptr(obj, const(i, 64))) for i in range(n)]
    ex.oblig += n
    if n == 0 or all(a is b for a, b in zip(got, want)):
        return
    g, w = t.cat(got), t.cat(want[:n])
    key = (g, w)
    r = lemma.get(key)
    if r is None:
        r = lemma[key] = prover.valid(t.eq(g, w), (), timeout=120000, force='bv')
    if r is True:
        return
    must_equal(ex, st, g, w, what)


lemma = {}


def tailfn(q, b):
    def f(a, x):
        if t.sub(a, q).op != 'c' or t.sub(a, q).a[0] != 0:
            raise Refuted('final block after %s blocks' % t.show(a))
        if x < b:
            return hashth.P(t.add(t.mulc(q, 16), const(x, 64)))
        return const(1 if x == b else 0, 8)
    return f


def digest(mod, b, zero, kind='plain'):
    kw, s = keywords()
    q = const(0, 64) if zero else t.var('q', 64, 1, QMAX)
    L = t.add(t.mulc(q, 16), const(b, 64))
    limbs = [FIN(i) for i in range(5)] if b else [ACC(i, q) for i in range(5)]
    P = hashth.P
    sz = hashth.const_ret(mod, '@h_sizeof')
    if kind == 'plain':
        jobs = [('@h_dig', 16, None), ('@h_digch', 16, None)]
    elif kind == 'short':
        jobs = [('@h_dig', k, None) for k in list(range(16)) + [None]]
    else:
        jobs = []
        for f, cap in (('@h_digc', 8), ('@h_digl', 100), ('@h_digb', None), ('@h_digr', None), ('@h_digs', None), ('@h_one', None), ('@h_oneb', None), ('@h_oner', None), ('@h_ones', None)):
            lim = min(cap or 16, 16)
            for k in [None] + ([] if f in ('@h_digs', '@h_ones') else [0, 1, lim - 1, lim]):
                jobs.append((f, k, cap))
    for f, k, cap in jobs:
        con = PolyContract(kw, tailfn(q, b))
        ex = setup(mod, con)
        st = State()
        o1 = st.new('obj', sz)
        K = newkey(st)
        D = st.new('msg', L, base=P, writable=False)
        lim = min(cap or 16, 16)
        got = 16 if f in ('@h_digs', '@h_ones') else lim if k is None else min(k, lim)
        n = const(k, 64) if k is not None else t.var('m', 64, lim, (1 << 64) - 1)
        outsz = cap or (got + 40 if f not in ('@h_digs', '@h_ones') else 16)
        sts = [st]
        one = f.startswith('@h_one')
        if not one:
            sts = hashth.paths(ex, sts, '@h_init', [o1, K, const(32, 64)])
            sts = hashth.paths(ex, sts, '@h_upd', [o1, D, L])
        for rep in (1, 2) if not one else (1,):
            nm = 'out%d' % rep
            boxed = f in ('@h_digb', '@h_digr', '@h_oneb', '@h_oner')
            if boxed and rep == 2:
                break
            for x in sts:
                if boxed:
                    out = ghost.box(ex, x, 'box', None, const(0, 64))
                    if one:
                        kb, pb = ghost.box(ex, x, 'kbox', K, const(32, 64)), ghost.box(ex, x, 'pbox', D, L)
                else:
                    out = x.new(nm, outsz)
                    if f == '@h_ones':
                        kb, pb = ghost.box(ex, x, 'kbox', K, const(32, 64)), ghost.box(ex, x, 'pbox', D, L)
            if f == '@h_one':
                args = [K, const(32, 64), D, L, out, n]
            elif f == '@h_ones':
                args = [kb, pb, out]
            elif one:
                args = [kb, pb, out, n]
            elif f == '@h_digs':
                args = [o1, out]
            else:
                args = [o1, out, n]
            sts = hashth.paths(ex, sts, f, args)
            if not sts:
                raise NotProved('vacuous')
            for x in sts:
                must_equal(ex, x, x.out[1], const(got, 64), f + ' return value')
                ob = nm
                if boxed:
                    ob = 'grown'
                    rs = [e[1] for e in x.events if e[0] == 'resize']
                    for y in rs:
                        must_equal(ex, x, y, const(got, 64), f + ' container size')
                    if got and not rs:
                        raise Refuted('the container is never sized')
                if got:
                    final(ex, x, ob, limbs, s, got, '%s for %d bytes into a block' % (f, b))
                if not boxed:
                    for i in range(got, outsz):
                        must_equal(ex, x, ex.byte(x, Ptr(ob, const(i, 64))), x.objs[ob].base(const(i, 64)), 'byte %d beyond the tag' % i)
        if con.fin != (1 if b else 0) * len(sts) and con.fin == 0 and b:
            raise Refuted('the final partial block is never processed')
    return {}


def digests(mod, bs, kind):
    for b in bs:
        for z in (True, False):
            digest(mod, b, z, kind)


# ------------------------------------------------------------------ concrete

NSRC = '''
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/detail/alias.h>
#include <new>
#include <vector>
using namespace milo; using namespace milo::primitive;
#define DEF(N, T) \\
extern "C" size_t N##_sizeof(){ return sizeof(mac::apie<T>); } \\
extern "C" void N##_init(mac::apie<T>* o,const uint8_t*k,size_t n){ o->initialize(k,n); } \\
extern "C" void N##_upd(mac::apie<T>* o,const uint8_t*p,size_t n){ o->update(p,n); } \\
extern "C" size_t N##_dig(mac::apie<T>* o,uint8_t*p,size_t n){ return o->digest(p,n); } \\
extern "C" size_t N##_one(const uint8_t*k,size_t kn,const uint8_t*p,size_t n,uint8_t*d,size_t m){ std::vector<uint8_t> K(k,k+kn), Q(p,p+n); auto r = mac::digest<T>(K,Q,m); for (size_t i=0;i<r.size();i++) d[i]=r[i]; return r.size(); }
DEF(p_default, mac_poly_1305)
'''


def poly1305(key, msg):
    r = int.from_bytes(key[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:32], 'little')
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b'\x01', 'little')) * r % PRIME
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, 'little')


def diff(chk, pid, shortkeys=False):
    Z = ctypes.c_size_t
    lib = ctypes.CDLL(build.native(NSRC, 'poly_' + pid))
    rnd = random.Random(core.SEED + 3)
    fails = []
    n = 0
    thorough = core.TIER == 'thorough'
    for nm in ('p_default',):
        g = lambda f: getattr(lib, nm + '_' + f)
        for f in ('sizeof', 'dig', 'one'):
            g(f).restype = Z
        size = g('sizeof')()
        for it in range(20000 if thorough else 4000):
            kn = 32 if not shortkeys else rnd.choice([0, 1, 7, 15, 16, 17, 20, 31, 32, 33, 64])
            kind = rnd.randrange(6)
            key = rnd.randbytes(kn)
            if kind == 1:
                key = bytes([0xff]) * kn
            if kind == 2:
                key = key[:16] + bytes([0xff]) * max(0, kn - 16)
            if kind == 3:
                # r = 1 or 2: accumulators near 2^130 - 5 can be met
                key = (bytes([rnd.choice([1, 2])]) + bytes(15) + rnd.choice([bytes(16), bytes([0xff]) * 16]))[:kn]
            parts = [rnd.choice([0, 1, 15, 16, 17, 31, 32, 33, rnd.randrange(80), rnd.randrange(600)]) for _ in range(rnd.randrange(1, 6))]
            fill = rnd.choice([None, None, 0xff, 0xfb, 0])
            data = [rnd.randbytes(k) if fill is None else bytes([fill]) + bytes([0xff]) * (k - 1) if k and fill == 0xfb else bytes([fill or 0]) * k for k in parts]
            msg = b''.join(data)
            want = poly1305((key + bytes(32))[:32], msg)
            o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * (size + 32), size + 32)
            if it % 5 == 1:
                g('init')(o, b'q' * 32, Z(32))
                g('upd')(o, b'zzz', Z(3))
                if it % 2:
                    g('dig')(o, ctypes.create_string_buffer(16), Z(16))
            end = o.raw[size:]
            g('init')(o, key, Z(kn))
            for d in data:
                g('upd')(o, d, Z(len(d)))
            for rep in (1, 2):
                k = rnd.choice([16, 16, 16, 0, 5, 15, 17, 100])
                buf = ctypes.create_string_buffer(bytes([0x5c]) * 128, 128)
                ret = g('dig')(o, buf, Z(k))
                w = min(k, 16)
                n += 1
                if ret != w or buf.raw[:w] != want[:w] or buf.raw[w:] != bytes([0x5c]) * (128 - w) or o.raw[size:] != end:
                    fails.append({'key': key.hex(), 'update_sizes': parts, 'message': msg.hex()[:600], 'requested': k, 'returned': ret, 'tag': buf.raw[:16].hex(), 'expected': want.hex()})
                    break
            if it % 7 == 0:
                buf = ctypes.create_string_buffer(bytes(128), 128)
                ret = g('one')(key, Z(kn), msg, Z(len(msg)), buf, Z(16))
                n += 1
                if ret != 16 or buf.raw[:16] != want:
                    fails.append({'key': key.hex(), 'message': msg.hex()[:600], 'call': 'one-shot', 'tag': buf.raw[:16].hex(), 'expected': want.hex()})
            if len(fails) > 3:
                break
    n, fails = guarded.merge(n, fails, guarded.keyed(lib, 'p_default', (32,) if not shortkeys else (0, 1, 15, 17, 31, 33), ([], [1], [15], [16], [17], [3, 13], [3, 30], [33, 0, 100])))
    return n, fails, 'real library (g++ -O2) against a python Poly1305: random splits, extreme keys and messages; buffers between unreadable pages'


def replay(chk, hist):
    """update sizes [L, n] with continuations against the python Poly1305"""
    Z = ctypes.c_size_t
    lib = ctypes.CDLL(build.native(NSRC, 'poly_' + chk.pid))
    g = lambda f: getattr(lib, 'p_default_' + f)
    for f in ('sizeof', 'dig'):
        g(f).restype = Z
    size = g('sizeof')()
    rnd = random.Random(core.SEED)
    n = 0
    for key, sizes in hist:
        for tail in [[]] + [[k] for k in range(1, 35)] + [[1, 15], [16, 16], [15, 1, 1], [5, 300]]:
            k = rnd.randbytes(32)
            data = [rnd.randbytes(x) for x in sizes + tail]
            o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
            g('init')(o, k, Z(32))
            for d in data:
                g('upd')(o, d, Z(len(d)))
            want = poly1305(k, b''.join(data))
            for rep in (1, 2):
                buf = ctypes.create_string_buffer(64)
                r = g('dig')(o, buf, Z(16))
                n += 1
                if r != 16 or buf.raw[:16] != want:
                    return n, [{'key': k.hex(), 'update_sizes': sizes + tail, 'message': b''.join(data).hex()[:600], 'digest_call': rep, 'tag': buf.raw[:16].hex(), 'expected': want.hex()}], 'python Poly1305'
    return n, [], 'real library against a python Poly1305'


def deep(chk):
    """message lengths around 2^16, 2^24 and 2^32"""
    import bigmem
    Z = ctypes.c_size_t
    lib = ctypes.CDLL(build.native(NSRC, 'poly_' + chk.pid))
    g = lambda f: getattr(lib, 'p_default_' + f)
    for f in ('sizeof', 'dig'):
        g(f).restype = Z
    size = g('sizeof')()
    rnd = random.Random(core.SEED + 4)
    n = 0
    for ln in (65535, 65536 + 3, (1 << 24) + 21, (1 << 32) + 37):
        m = bigmem.Big(ln, rnd)
        for parts in ([ln], [7, ln - 7], [ln - 5, 5]):
            k = rnd.randbytes(32)
            o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
            g('init')(o, k, Z(32))
            p = 0
            for c in parts:
                g('upd')(o, m.at(p), Z(c))
                p += c
            buf = ctypes.create_string_buffer(64)
            g('dig')(o, buf, Z(16))
            want = bigmem.poly(k, [m.head, ('z', m.zeros), m.tail])
            n += 1
            if buf.raw[:16] != want:
                return n, [{'key': k.hex(), 'update_sizes': parts, 'message': 'head %s..., %d zero bytes, tail ...%s' % (m.head[:32].hex(), m.zeros, m.tail[-32:].hex()), 'tag': buf.raw[:16].hex(), 'expected': want.hex()}], ''
    return n, [], 'real library against a python Poly1305 in closed form, lengths to 2^32 + 37'


ASSUME = ['total message below 2^58 bytes; message, key and tag do not overlap the object']
TRUST = ['irvc IR semantics and loop rule', 'irvc term normaliser (fuzzed)', 'irvc/intpoly.py (integer meaning of limb terms)', 'z3', 'clang++-18 / opt-18']


def add(chk, mods, tag=''):
    lm, m = mods
    if lm is not None:
        chk.ob('block function' + tag, leaf, lm)
    if m is not None:
        for case in ('same', 'cross'):
            for z in (True, False):
                chk.ob('update %s-block %s%s' % (case, 'first' if z else 'later', tag), update, m, case, z)
        chk.ob('update of char data' + tag, update, m, 'cross', False, '@h_updc')
        for i in range(0, 16, 2):
            chk.ob('tag fill %d..%d%s' % (i, i + 1, tag), digests, m, [i, i + 1], 'plain', timeout=400)
        for b in (0, 5):
            chk.ob('truncated tags, fill %d%s' % (b, tag), digests, m, [b], 'short', timeout=400)
            chk.ob('container and one-shot forms, fill %d%s' % (b, tag), digests, m, [b], 'forms', timeout=400)


def load(chk, consteval=False, tag=''):
    lm = m = None
    try:
        lm = irparse.parse(build.ir(LSRC, consteval=consteval))
    except Exception as e:
        chk.fail_early('ir block function' + tag, repr(e)[:600])
    try:
        m = irparse.parse(build.ir(SRC % dict(cls='mac::poly_1305<>'), consteval=consteval, noinline=LEAFFN))
    except Exception as e:
        chk.fail_early('ir stream' + tag, repr(e)[:600])
    return lm, m


def main(pid):
    chk = core.Check(pid, assumptions=ASSUME, trusted=TRUST)
    add(chk, load(chk))
    chk.differential('tag', diff, pid)
    chk.replay = replay
    chk.deep.append(deep)
    return chk.finish()
