"""S01: ChaCha20 stream layer, software block function, hardware wrappers"""
import ctypes
import random

import build
import core
import execu
import ghost
import guarded
import hashth
import irparse
import loops
import prover
import spec
import terms as t
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from hashth import must_equal
from terms import const

SRC = '''
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/detail/alias.h>
#include <new>
using namespace milo; using namespace milo::primitive;
''' + ghost.GBOX.replace('%', '%%') + '''
extern "C" { size_t ghost_transform(size_t, const uint32_t*, uint8_t*, const uint8_t*); size_t ghost_generate(size_t, const uint32_t*, uint8_t*); }
template<size_t R> struct gimpl {
  struct requirements {};
  static constexpr size_t block_size = 64;
  static constexpr size_t block_ratio = R;
  static constexpr size_t rounds = 10;
  template<meta::byte D, meta::byte S> static auto transform(size_t n, const uint32_t* s, D* d, const S* p) noexcept(true) -> size_t { return ghost_transform(n, s, (uint8_t*)d, (const uint8_t*)p); }
  template<meta::byte D> static auto generate(size_t n, const uint32_t* s, D* d) noexcept(true) -> size_t { return ghost_generate(n, s, (uint8_t*)d); }
};
using CC = cipher::chacha_20<%(opt)s>;
using C = cipher::apie<CC>;
extern "C" {
size_t h_sizeof(){ return sizeof(C); }
void h_init(C* o, const uint8_t* k, size_t kn, const uint8_t* v, size_t vn){ o->initialize(k, kn, v, vn); }
void h_ctor(C* o){ new (o) C(); }
void h_del(C* o){ o->~C(); }
size_t h_enc(C* o, const uint8_t* s, size_t n, uint8_t* d){ return o->encrypt(s, n, d); }
size_t h_dec(C* o, const uint8_t* s, size_t n, uint8_t* d){ return o->decrypt(s, n, d); }
size_t h_encc(C* o, const char* s, size_t n, char* d){ return o->encrypt(s, n, d); }
size_t h_decc(C* o, const char* s, size_t n, char* d){ return o->decrypt(s, n, d); }
size_t h_es(C* o, const uint8_t* s, size_t n){ return o->encrypt_size(s, n); }
size_t h_ds(C* o, const uint8_t* s, size_t n){ return o->decrypt_size(s, n); }
size_t h_cenc(C* o, const gbox<uint8_t>* s, gbox<uint8_t>* d){ return o->encrypt(*s, *d); }
size_t h_cdec(C* o, const gbox<uint8_t>* s, gbox<uint8_t>* d){ return o->decrypt(*s, *d); }
size_t h_crenc(C* o, const gbox<uint8_t>* s, gbox<uint8_t>* d){ *d = o->template encrypt<gbox<uint8_t>>(*s); return d->n; }
size_t h_crdec(C* o, const gbox<uint8_t>* s, gbox<uint8_t>* d){ *d = o->template decrypt<gbox<uint8_t>>(*s); return d->n; }
size_t h_c1enc(const gbox<uint8_t>* k, const gbox<uint8_t>* v, const gbox<uint8_t>* s, gbox<uint8_t>* d){ return cipher::encrypt<CC>(*k, *v, *s, *d); }
size_t h_c1dec(const gbox<uint8_t>* k, const gbox<uint8_t>* v, const gbox<uint8_t>* s, gbox<uint8_t>* d){ return cipher::decrypt<CC>(*k, *v, *s, *d); }
size_t h_c1renc(const gbox<uint8_t>* k, const gbox<uint8_t>* v, const gbox<uint8_t>* s, gbox<uint8_t>* d){ *d = cipher::encrypt<CC, gbox<uint8_t>>(*k, *v, *s); return d->n; }
size_t h_c1rdec(const gbox<uint8_t>* k, const gbox<uint8_t>* v, const gbox<uint8_t>* s, gbox<uint8_t>* d){ *d = cipher::decrypt<CC, gbox<uint8_t>>(*k, *v, *s); return d->n; }
size_t h_one(const uint8_t* k, size_t kn, const uint8_t* v, size_t vn, const uint8_t* s, size_t n, uint8_t* d){ return cipher::encrypt<CC>(k, kn, v, vn, s, n, d); }
size_t h_oned(const uint8_t* k, size_t kn, const uint8_t* v, size_t vn, const uint8_t* s, size_t n, uint8_t* d){ return cipher::decrypt<CC>(k, kn, v, vn, s, n, d); }
}'''

LSRC = '''
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>
using namespace milo; using namespace milo::primitive; using namespace milo::primitive::detail;
extern "C" {
size_t l_sw_t(size_t n, const uint32_t* s, uint8_t* d, const uint8_t* p){ return cipher_chacha_impl_sw_ietf::transform(n, s, d, p); }
size_t l_sw_g(size_t n, const uint32_t* s, uint8_t* d){ return cipher_chacha_impl_sw_ietf::generate(n, s, d); }
size_t l_ss_t(size_t n, const uint32_t* s, uint8_t* d, const uint8_t* p){ return cipher_chacha_impl_hw_x86_64_ssse_3_ietf::transform(n, s, d, p); }
size_t l_ss_g(size_t n, const uint32_t* s, uint8_t* d){ return cipher_chacha_impl_hw_x86_64_ssse_3_ietf::generate(n, s, d); }
size_t l_av_t(size_t n, const uint32_t* s, uint8_t* d, const uint8_t* p){ return cipher_chacha_impl_hw_x86_64_avx_2_ietf::transform(n, s, d, p); }
size_t l_av_g(size_t n, const uint32_t* s, uint8_t* d){ return cipher_chacha_impl_hw_x86_64_avx_2_ietf::generate(n, s, d); }
size_t l_ratio(int i){ return i == 0 ? cipher_chacha_impl_sw_ietf::block_ratio : i == 1 ? cipher_chacha_impl_hw_x86_64_ssse_3_ietf::block_ratio : cipher_chacha_impl_hw_x86_64_avx_2_ietf::block_ratio; }
}'''

QMAX = 1 << 50


def W(i):
    return t.var('st%d' % i, 32)


def KB(i, ctr):
    """word i of the key stream block with counter word ctr"""
    return t.app('KB.%d' % i, 32, (ctr,))


# ------------------------------------------------------------------ leaf: block producers

def leaf(mod, gen, inplace):
    """software transform / generate: dst[64 j + i] = src[64 j + i] ^ byte i of block(state[12] + j), all n"""
    n = t.var('n', 64, 0, QMAX)
    S0 = state0()
    ex = Exec(mod)
    st = State()
    S = st.new('state', 64, base=lambda o: t.slc(S0[o.a[0] // 4], 8 * (o.a[0] % 4), 8) if o.op == 'c' else _sym(), writable=False)
    X = lambda o: t.app('in', 8, (o,))
    if inplace:
        D = st.new('dst', t.mulc(n, 64), base=X)
        P = D
    else:
        D = st.new('dst', t.mulc(n, 64))
        P = st.new('src', t.mulc(n, 64), base=X, writable=False)
    args = [n, S, D] + ([] if gen else [P])
    outs = ex.run_function(st, '@l_sw_g' if gen else '@l_sw_t', args)
    chk_block(ex, outs, S0, n, 1, gen, X)
    return {}


def state0():
    """arbitrary state; the counter is written as variable + 5 so that all iterates have the same normal form"""
    S = [W(i) for i in range(16)]
    S[12] = t.add(S[12], const(5, 32))
    return S


def _sym():
    raise irparse.Unsupported('symbolic index into the state')


def low32(a):
    """a modulo 2^32, distributed over sums"""
    if a.op == '+':
        r = const(a.a[0] & 0xffffffff, 32)
        for x, c in a.a[1]:
            r = t.add(r, t.mulc(low32(x), c & 0xffffffff))
        return r
    return t.slc(a, 0, 32)


def block_fold(S0, ratio):
    """names the key stream words of one unit: KB.i(counter) is word i of the RFC 8439 block with that counter"""
    cache = {}

    def fold(st, kt):
        j = t.sub(kt, const(1, 64))
        if j not in cache:
            mp = cache[j] = {}
            for r in range(ratio):
                SS = list(S0)
                SS[12] = t.add(S0[12], t.add(t.mulc(low32(j), ratio), const(r, 32)))
                for i, w in enumerate(spec.chacha_rounds(SS)):
                    mp[w] = KB(i, SS[12])
                    mp[t.sub(w, SS[i])] = t.sub(KB(i, SS[12]), SS[i])
        return loops.Deep(cache[j])
    return fold


def chk_block(ex, outs, S0, n, ratio, gen, X, folded=False):
    if not outs:
        raise NotProved('vacuous')
    seen = 0
    for x in outs:
        if x.out[0] != 'ret':
            raise Refuted('block producer ends in %s' % (x.out,), pc=x.pc)
        if x.pc and hashth.infeasible_pc(x):
            continue
        must_equal(ex, x, x.out[1], t.mulc(n, ratio), 'number of blocks returned')
        h = x.fork()
        j = t.var('j', 64, 0, QMAX)
        if not h.assume(t.ult(j, n)) or hashth.infeasible_pc(h):
            continue
        seen += 1
        ex.cur = h
        for r in range(ratio):
            SS = list(S0)
            SS[12] = t.add(S0[12], t.add(t.mulc(low32(j), ratio), const(r, 32)))
            blk = [KB(i, SS[12]) for i in range(16)] if folded else spec.chacha_rounds(SS)
            for i in range(64):
                o = t.add(t.mulc(j, 64 * ratio), const(64 * r + i, 64))
                v = ex.byte(h, Ptr('dst', o))
                w = t.slc(blk[i // 4], 8 * (i % 4), 8)
                if not gen:
                    w = t.xor(w, X(o))
                must_equal(ex, h, v, w, 'byte %d of key stream block %d of unit j' % (i, r))
    if not seen:
        raise NotProved('vacuous')


def wrapper(mod, f, gen):
    """hardware wrapper passes (10, n, state, dst, src) and the result through"""
    name = '@milo_primitive_detail_cipher_chacha_impl_hw_x86_64_%s_ietf_%s' % ({'ss': 'ssse_3', 'av': 'avx_2'}[f], 'generate' if gen else 'transform')
    if name not in mod.decls:
        raise NotProved('no external function ' + name)
    seen = []

    def hook(ex, st, args):
        seen.append(args)
        return t.var('result', 64)
    ex = Exec(mod)
    ex.hooks[name] = hook
    st = State()
    n = t.var('n', 64)
    S = st.new('state', 64, writable=False)
    D = st.new('dst', 64)
    P = st.new('src', 64, writable=False)
    a = [n, S, D] + ([] if gen else [P])
    outs = ex.run_function(st, '@l_%s_%s' % (f, 'g' if gen else 't'), a)
    ex.oblig += 3
    for x in outs:
        if x.out[0] != 'ret' or len(seen) != len(outs):
            raise Refuted('wrapper does not call the block function exactly once')
        must_equal(ex, x, x.out[1], t.var('result', 64), 'wrapper result')
    for s in seen:
        if not (s[0].op == 'c' and s[0].a[0] == 10):
            raise Refuted('wrapper asks for %s double rounds' % t.show(s[0]))
        for u, v in zip(s[1:], a):
            if not (u is v or u == v):
                raise Refuted('wrapper argument %r instead of %r' % (u, v))
    return {}


# ------------------------------------------------------------------ stream layer

def lift(a):
    """64 * a modulo 2^38 for a 32 bit term a"""
    if a.op == 'c':
        return const((64 * a.a[0]) & ((1 << 38) - 1), 38)
    if a.op == '+':
        r = const((64 * a.a[0]) & ((1 << 38) - 1), 38)
        for x, c in a.a[1]:
            r = t.add(r, t.mulc(lift(x), t.sgn(c, 32) & ((1 << 38) - 1)))
        return r
    if a.op == 'x' and a.a[1] == 0 and a.a[0].w >= 38:
        return t.mulc(t.slc(a.a[0], 0, 38), 64)
    if a.op == 'x' and a.a[0].w >= a.a[1] + 38:
        return t.mulc(t.slc(a.a[0], a.a[1], 38), 64)
    if a.op == 'ite':
        return t.ite(a.a[0], lift(a.a[1]), lift(a.a[2]))
    return t.mulc(t.zext(a, 38), 64)


def KS(p):
    """key stream byte at absolute position p (counter modulo 2^32: position modulo 2^38)"""
    return t.app('KS', 8, (t.slc(p, 0, 38) if p.w != 38 else p,))


class BlockModel:
    """contract of transform / generate used under the stream layer"""

    def __init__(self, ratio, key, iv):
        self.ratio = ratio
        self.key = key
        self.iv = iv
        self.calls = 0
        self.rounds = False

    def pos(self, ex, st, sp):
        ws = [ex.load(st, Ptr(sp.obj, t.add(sp.off, const(4 * i, 64))), 4) for i in range(16)]
        want = [const(x, 32) for x in (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)] + self.key + [None] + self.iv[1:]
        for i in range(16):
            if i != 12:
                must_equal(ex, st, ws[i], want[i], 'state word %d given to the block function' % i)
        return lift(t.sub(ws[12], self.iv[0]))

    def run(self, ex, st, n, sp, dp, srcp):
        self.calls += 1
        p0 = self.pos(ex, st, sp)
        size = t.mulc(n, 64 * self.ratio)
        so, do = None, st.objs.get(dp.obj)
        if do is None:
            raise Refuted('block function writes dead memory')
        ex.range_in(st, do, dp.off, size, True)
        if srcp is not None:
            so = st.objs.get(srcp.obj)
            if so is None:
                raise Refuted('block function reads dead memory')
            ex.range_in(st, so, srcp.off, size, False)
            sm = st.mem[srcp.obj].clone()
            if srcp.obj == dp.obj:
                must_equal(ex, st, srcp.off, dp.off, 'overlapping source and destination')

            def fn(i, so=so, sm=sm, off=srcp.off, p0=p0):
                c = ex.cell(ex.cur or st, so, sm, t.add(off, i))
                return (t.xor(execu.tbyte(*c), KS(t.add(p0, t.slc(i, 0, 38)))), 0)
        else:
            def fn(i, p0=p0):
                return (KS(t.add(p0, t.slc(i, 0, 38))), 0)
        put_range(ex, st, dp, size, fn)
        return t.mulc(n, self.ratio)

    def transform(self, ex, st, a):
        if self.rounds:
            if a[0].op != 'c' or a[0].a[0] != 10:
                raise Refuted('double rounds: %s' % t.show(a[0]))
            a = a[1:]
        return self.run(ex, st, a[0], a[1], a[2], a[3])

    def generate(self, ex, st, a):
        if self.rounds:
            if a[0].op != 'c' or a[0].a[0] != 10:
                raise Refuted('double rounds: %s' % t.show(a[0]))
            a = a[1:]
        return self.run(ex, st, a[0], a[1], a[2], None)


def put_range(ex, st, dp, size, fn):
    """write size bytes at dp with content fn(relative offset) -> cell"""
    m = st.wmem(dp.obj)
    m.layers.append(execu.Rec(dp.off, size, fn))
    if st.log is not None:
        st.log.append((dp.obj, dp.off, size, m.layers[-1]))


def setup(mod, model):
    ex = Exec(mod)
    ex.hooks['@ghost_transform'] = model.transform
    ex.hooks['@ghost_generate'] = model.generate
    ex.hooks['@ghost_resize'] = ghost.resize_hook
    real = BlockModel(model.ratio, model.key, model.iv)
    real.rounds = True
    for f in list(mod.decls) + list(mod.funcs):
        if 'chacha_impl' in f:
            k = 'transform' if 'transform' in f else 'generate' if 'generate' in f else None
            if k:
                ex.hooks[f] = getattr(model if '_sw_' in f else real, k)
    return ex


KEYB = lambda o: t.app('key', 8, (o,))
IVB = lambda o: t.app('iv', 8, (o,))


def words(f, n):
    return [t.cat([f(const(4 * i + j, 64)) for j in range(4)]) for i in range(n)]


def stream(mod, R, case, first, second, inplace, lead=None):
    """init; first(L) gives src ^ KS(0..L); then second(n) gives src ^ KS(L..) and the state of one first(L+n)"""
    B = 64 * R
    key, iv = words(KEYB, 8), words(IVB, 4)
    model = BlockModel(R, key, iv)
    ex = setup(mod, model)
    st = State()
    sz = hashth.const_ret(mod, '@h_sizeof')
    X1 = lambda o: t.app('in', 8, (o,))
    q = const(0, 64) if lead == 'zero' else t.var('q', 64, 1, QMAX)
    b = t.var('b', 64, 1, B - 1) if lead != 'even' else const(0, 64)
    if lead == 'nothing':
        q, b = const(0, 64), const(0, 64)
    L = t.add(t.mulc(q, B), b)
    o1 = st.new('obj', sz)
    o2 = st.new('ref', sz)
    K = st.new('kk', const(32, 64), base=KEYB, writable=False)
    V = st.new('vv', const(16, 64), base=IVB, writable=False)
    sts = hashth.paths(ex, [st], '@h_init', [o1, K, const(32, 64), V, const(16, 64)])
    sts = hashth.paths(ex, sts, '@h_init', [o2, K, const(32, 64), V, const(16, 64)])

    def bufs(st, nm, size, base):
        if inplace:
            d = st.new('d' + nm, size, base=base)
            return d, d
        return st.new('s' + nm, size, base=base, writable=False), st.new('d' + nm, size)
    for s in sts:
        s1, d1 = bufs(s, '1', L, X1)
    sts = hashth.paths(ex, sts, '@' + first, [o1, s1, L, d1])
    chk_out(ex, sts, 'd1', L, X1, const(0, 64), first)
    if case is None:
        return {'paths': len(sts)}
    if case == 'same':
        n = t.var('n', 64, 0, B - 1)
        for s in sts:
            s.assume(t.ult(t.add(b, n), const(B, 64)))
    else:
        m = t.var('m', 64, 0, QMAX)
        b2 = t.var('b2', 64, 1, B - 1) if case == 'cross' else const(0, 64)
        n = t.add(t.sub(b2, b), t.mulc(t.add(m, const(1, 64)), B))
    X2 = lambda o: X1(t.add(L, o))
    tot = t.add(L, n)
    for s in sts:
        s2, d2 = bufs(s, '2', n, X2)
        s3, d3 = bufs(s, '3', tot, X1)
    sts = hashth.paths(ex, sts, '@' + second, [o1, s2, n, d2])
    chk_out(ex, sts, 'd2', n, X2, L, second)
    sts = hashth.paths(ex, sts, '@' + first, [o2, s3, tot, d3])
    if not sts:
        raise NotProved('vacuous')
    c = 0
    for s in sts:
        ex.cur = s
        c += hashth.soft((L, n), hashth.compare_objects, ex, s, 'ref', 'obj', sz, 'object state after a split')
    if c < 8 * len(sts):
        raise NotProved('vacuous: nothing determined')
    return {'paths': len(sts), 'obligations': c}


def split_equal(ex, st, v, w, what):
    """v = w by the cases of a conditional value"""
    n = 0
    for cs, leaf in cases(v):
        h = st.fork()
        if not all(h.assume(c) for c in cs) or (cs and hashth.infeasible_pc(h)):
            continue
        n += 1
        must_equal(ex, h, leaf, w, what)
    if not n:
        raise NotProved('vacuous: ' + what)


def cases(v):
    """case split of a term containing conditionals: [(conditions, term without them)]"""
    c = find_ite(v)
    if c is None:
        return [([], v)]
    out = []
    for val in (1, 0):
        x = t.subst(v, {c: const(val, 1)})
        cond = c if val else t.not_(c)
        out += [([cond] + cs, l) for cs, l in cases(x)]
    return out


def find_ite(v, seen=None):
    stk = [v]
    seen = set()
    while stk:
        x = stk.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            c = x.a[0]
            n = find_ite(c)
            return n if n is not None else c
        if x.op == 'app':
            continue
        stk.extend(hashth.kids(x))
    return None


def chk_out(ex, sts, obj, n, src, base, what):
    if not sts:
        raise NotProved('vacuous')
    for s in sts:
        must_equal(ex, s, s.out[1], n, what + ' return value')
        h = s.fork()
        i = t.fresh('i', 64, 0, 1 << 60)
        if not h.assume(t.ult(i, n)) or hashth.infeasible_pc(h):
            continue
        ex.cur = h
        v = ex.byte(h, Ptr(obj, i))
        split_equal(ex, h, v, t.xor(src(i), KS(t.add(base, i))), what + ' output byte i')


def ones(mod, R, f):
    """one-shot and container forms give src ^ KS"""
    B = 64 * R
    for lead in ('nothing', 'zero', 'even', None):
        model = BlockModel(R, words(KEYB, 8), words(IVB, 4))
        ex = setup(mod, model)
        st = State()
        X1 = lambda o: t.app('in', 8, (o,))
        q = const(0, 64) if lead in ('zero', 'nothing') else t.var('q', 64, 1, QMAX)
        b = t.var('b', 64, 1, B - 1) if lead in ('zero', None) else const(0, 64)
        L = t.add(t.mulc(q, B), b)
        K = st.new('kk', const(32, 64), base=KEYB, writable=False)
        V = st.new('vv', const(16, 64), base=IVB, writable=False)
        S = st.new('src', L, base=X1, writable=False)
        kn, vn = const(32, 64), const(16, 64)
        if f in ('h_one', 'h_oned'):
            sts = hashth.paths(ex, [st], '@' + f, [K, kn, V, vn, S, L, st.new('dst', L)])
            chk_out(ex, sts, 'dst', L, X1, const(0, 64), f)
            continue
        sb = ghost.box(ex, st, 'sbox', S, L)
        db = ghost.box(ex, st, 'dbox', None, const(0, 64))
        if f.startswith('h_c1'):
            sts = hashth.paths(ex, [st], '@' + f, [ghost.box(ex, st, 'kbox', K, kn), ghost.box(ex, st, 'vbox', V, vn), sb, db])
        else:
            o = st.new('obj', hashth.const_ret(mod, '@h_sizeof'))
            sts = hashth.paths(ex, [st], '@h_init', [o, K, kn, V, vn])
            sts = hashth.paths(ex, sts, '@' + f, [o, sb, db])
        for s in sts:
            rs = [e[1] for e in s.events if e[0] == 'resize']
            if not rs:
                raise Refuted('the container is never sized')
            for r in rs:
                must_equal(ex, s, r, L, f + ' container size')
        chk_out(ex, sts, 'grown', L, X1, const(0, 64), f)
    return {}


# ------------------------------------------------------------------ concrete

NSRC = '''
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/detail/alias.h>
#include <new>
#include <vector>
using namespace milo; using namespace milo::primitive;
#define DEF(N, T) \\
extern "C" size_t N##_sizeof(){ return sizeof(cipher::apie<T>); } \\
extern "C" void N##_init(cipher::apie<T>* o, const uint8_t* k, size_t kn, const uint8_t* v, size_t vn){ o->initialize(k, kn, v, vn); } \\
extern "C" size_t N##_enc(cipher::apie<T>* o, const uint8_t* s, size_t n, uint8_t* d){ return o->encrypt(s, n, d); } \\
extern "C" size_t N##_dec(cipher::apie<T>* o, const uint8_t* s, size_t n, uint8_t* d){ return o->decrypt(s, n, d); } \\
extern "C" size_t N##_vec(const uint8_t* k, const uint8_t* v, const uint8_t* s, size_t n, uint8_t* d, int dec){ std::vector<uint8_t> K(k, k+32), V(v, v+16), S(s, s+n); \\
  auto r = dec ? cipher::decrypt<T>(K, V, S) : cipher::encrypt<T>(K, V, S); for (size_t i=0;i<r.size();i++) d[i]=r[i]; return r.size(); }
DEF(c_default, cipher_chacha_20)
DEF(c_sw, cipher_chacha_20_sw)
DEF(c_ssse3, cipher_chacha_20_hw_x86_64_ssse_3)
DEF(c_avx2, cipher_chacha_20_hw_x86_64_avx_2)
'''


def cpu_flags():
    try:
        return set(open('/proc/cpuinfo').read().split('flags')[1].split('\n')[0].split())
    except Exception:
        return set()


def rotl32(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def chacha_block(key, iv, k):
    M = 0xffffffff
    S = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + [int.from_bytes(key[4 * i:4 * i + 4], 'little') for i in range(8)] + \
        [int.from_bytes(iv[4 * i:4 * i + 4], 'little') for i in range(4)]
    S[12] = (S[12] + k) & M
    x = list(S)
    for _ in range(10):
        for a, b, c, d in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            x[a] = (x[a] + x[b]) & M; x[d] = rotl32(x[d] ^ x[a], 16)
            x[c] = (x[c] + x[d]) & M; x[b] = rotl32(x[b] ^ x[c], 12)
            x[a] = (x[a] + x[b]) & M; x[d] = rotl32(x[d] ^ x[a], 8)
            x[c] = (x[c] + x[d]) & M; x[b] = rotl32(x[b] ^ x[c], 7)
    return b''.join(((a + b) & M).to_bytes(4, 'little') for a, b in zip(x, S))


def keystream(key, iv, n):
    return b''.join(chacha_block(key, iv, k) for k in range((n + 63) // 64))[:n]


def xor(a, b):
    return (int.from_bytes(a, 'little') ^ int.from_bytes(b, 'little')).to_bytes(len(a), 'little')


class Nat:
    def __init__(self, lib, nm):
        self.l, self.nm = lib, nm
        self.size = self.f('sizeof')()

    def f(self, x):
        g = getattr(self.l, self.nm + '_' + x)
        g.restype = ctypes.c_size_t
        return g


def diff(chk, pid, shortkeys=False):
    Z = ctypes.c_size_t
    lib = ctypes.CDLL(build.native(NSRC, 'chacha_' + pid))
    fl = cpu_flags()
    names = ['c_default', 'c_sw'] + (['c_ssse3'] if 'ssse3' in fl else []) + (['c_avx2'] if 'avx2' in fl else [])
    rnd = random.Random(core.SEED + 7)
    fails = []
    n = 0
    thorough = core.TIER == 'thorough'
    MAX = 5000
    for ki in range(14 if not thorough else 60):
        kn = 32 if not shortkeys or ki % 3 == 0 else rnd.choice([0, 1, 5, 16, 31, 33, 40, 70])
        vn = 16 if not shortkeys or ki % 3 == 1 else rnd.choice([0, 1, 4, 12, 15, 17, 33])
        key, iv = rnd.randbytes(kn), bytearray(rnd.randbytes(vn))
        if not shortkeys:
            c = rnd.choice([0, 1, 0xffffffff, 0xfffffffe, 0xfffffff8, 0xffffffc0, rnd.getrandbits(32)])
            iv[:4] = c.to_bytes(4, 'little')
        iv = bytes(iv)
        k32, v16 = (key + bytes(32))[:32], (iv + bytes(16))[:16]
        ks = keystream(k32, v16, MAX)
        for nm in names:
            N = Nat(lib, nm)
            for rep in range(25 if not thorough else 100):
                parts = []
                mx = rnd.choice([64, 256, 512, 600, 2000])
                while sum(parts) < MAX and len(parts) < 12:
                    parts.append(rnd.choice([0, 1, 63, 64, 65, 255, 256, 257, 448, 511, 512, 513, rnd.randrange(mx)]))
                while sum(parts) > MAX:
                    parts.pop()
                o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * (N.size + 64), N.size + 64)
                if rep % 3 == 1:
                    # object previously used with something else
                    N.f('init')(o, b'k' * 32, Z(32), b'v' * 16, Z(16))
                    tmp = ctypes.create_string_buffer(700)
                    N.f('enc')(o, bytes(700), Z(rnd.randrange(700)), tmp)
                tail = bytes(64)
                o[N.size:] = tail
                N.f('init')(o, key, Z(kn), iv, Z(vn))
                pos = 0
                for p in parts:
                    data = rnd.randbytes(p)
                    f = rnd.choice(['enc', 'dec'])
                    inplace = rnd.random() < 0.4
                    buf = ctypes.create_string_buffer((data if inplace else bytes([0xc3]) * p) + bytes([0xc3]) * 48, p + 48)
                    r = N.f(f)(o, buf if inplace else data, Z(p), buf)
                    want = xor(data, ks[pos:pos + p])
                    n += 1
                    if r != p or buf.raw[:p] != want or buf.raw[p:] != bytes([0xc3]) * 48 or o.raw[N.size:] != tail:
                        fails.append({'backend': nm, 'key': key.hex(), 'iv': iv.hex(), 'calls': parts, 'call_at_position': pos, 'size': p, 'in_place': inplace,
                                      'returned': r, 'output': buf.raw[:64].hex(), 'expected': want[:64].hex()})
                        break
                    pos += p
                if len(fails) > 3:
                    return n, fails, ''
            if not shortkeys:
                data = rnd.randbytes(rnd.randrange(1500))
                buf = ctypes.create_string_buffer(len(data) + 1)
                for dec in (0, 1):
                    r = N.f('vec')(key, iv, data, Z(len(data)), buf, dec)
                    n += 1
                    if r != len(data) or buf.raw[:r] != xor(data, ks[:r]):
                        fails.append({'backend': nm, 'key': key.hex(), 'iv': iv.hex(), 'call': 'one-shot', 'size': len(data), 'returned': r, 'output': buf.raw[:64].hex(), 'expected': xor(data, ks[:len(data)])[:64].hex()})
    n, fails = guarded.merge(n, fails, *[guarded.keyed(lib, nm, (32,) if not shortkeys else (0, 1, 31, 33), ([], [0], [1], [64], [63, 2], [256], [511, 1], [512, 513], [5000, 3, 100]), iv) for nm in names for iv in ((16,) if not shortkeys else (0, 1, 15, 17))])
    return n, fails, 'real library (default, software, SSSE3, AVX2 backends, g++ -O2) against a python ChaCha20; buffers between unreadable pages'


def replay(chk, hist):
    """call sizes [L, n] with continuations: the prefix of the stream against the python ChaCha20, the rest against the same call sequence in small pieces"""
    Z = ctypes.c_size_t
    lib = ctypes.CDLL(build.native(NSRC, 'chacha_' + chk.pid))
    fl = cpu_flags()
    names = ['c_default', 'c_sw'] + (['c_ssse3'] if 'ssse3' in fl else []) + (['c_avx2'] if 'avx2' in fl else [])
    rnd = random.Random(core.SEED)
    cases = 0
    for key, sizes in hist:
        for nm in names:
            N = Nat(lib, nm)
            for tail in [[k] for k in list(range(1, 67)) + [255, 256, 257, 511, 512, 513, 1100]] + [[1, 63], [64, 64], [200, 400]]:
                calls = sizes + tail
                K, V = rnd.randbytes(32), rnd.randbytes(16)
                tot = sum(calls)
                data = rnd.randbytes(tot)
                outs = []
                for seq in (calls, [61] * (tot // 61) + [tot % 61] if tot < 100000 else [4093] * (tot // 4093) + [tot % 4093]):
                    o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * N.size, N.size)
                    N.f('init')(o, K, Z(32), V, Z(16))
                    pos, got = 0, []
                    for c in seq:
                        buf = ctypes.create_string_buffer(c + 1)
                        N.f('enc')(o, data[pos:pos + c], Z(c), buf)
                        got.append(buf.raw[:c])
                        pos += c
                    outs.append(b''.join(got))
                cases += 1
                head = xor(data[:300], keystream(K, V, min(tot, 300)))
                if outs[0] != outs[1] or outs[0][:300] != head:
                    i = next((i for i in range(tot) if outs[0][i] != outs[1][i]), 0)
                    return cases, [{'backend': nm, 'key': K.hex(), 'iv': V.hex(), 'call_sizes': calls, 'first_difference_at': i, 'output': outs[0][i:i + 32].hex(), 'in_small_pieces': outs[1][i:i + 32].hex()}], 'chunking'
    return cases, [], 'real library, all backends: independence of the chunking'


def deep(chk):
    """calls of 2^16 and 2^24 bytes"""
    return replay(chk, [('large', [65536 + 5, 70]), ('large', [70, 65536 + 5]), ('large', [(1 << 22) + 5, 1])])


ASSUME = ['total data below 2^58 bytes per object use; input and output either identical or disjoint, disjoint from the object',
          'keystream position is compared modulo 2^38 (the 32 bit block counter wraps as the property says)']
TRUST = ['irvc IR semantics and loop rule', 'irvc term normaliser (fuzzed)', 'z3', 'clang++-18 / opt-18',
         'spec.py chacha_rounds (tested on the RFC 8439 vector each run)']


def add_ratio(chk, R, consteval=False, tag=''):
    try:
        m = irparse.parse(build.ir(SRC % dict(opt='option::%s<gimpl<%d>>' % ('impl_cpltime' if consteval else 'impl_runtime', R)), consteval=consteval))
    except Exception as e:
        return chk.fail_early('ir ratio %d%s' % (R, tag), repr(e)[:600])
    for lead in ('nothing', 'zero', 'even', None):
        for a, b in (('h_enc', 'h_enc'), ('h_enc', 'h_dec'), ('h_dec', None), ('h_encc', None), ('h_decc', None)):
            for ip in (False, True):
                chk.ob('ratio %d %s/%s after %s%s' % (R, a, b, {'nothing': 'nothing', 'zero': 'a part block', 'even': 'whole blocks', None: 'blocks and a part'}[lead], ' in place' if ip else '') + tag,
                       streams, m, R, a, b, ip, lead)
    for f in ('h_one', 'h_oned', 'h_cenc', 'h_cdec', 'h_crenc', 'h_crdec', 'h_c1enc', 'h_c1dec', 'h_c1renc', 'h_c1rdec') if R == 4 else ('h_one', 'h_oned'):
        chk.ob('ratio %d %s%s' % (R, f, tag), ones, m, R, f)


def add_leaf(chk, consteval=False, tag=''):
    try:
        lm = irparse.parse(build.ir(LSRC, consteval=consteval))
        for g in (True, False):
            for ip in (False, True):
                if not (g and ip):
                    chk.ob('software %s%s%s' % ('generate' if g else 'transform', ' in place' if ip else '', tag), leaf, lm, g, ip)
            for f in ('ss', 'av') if not consteval else ():
                chk.ob('wrapper %s %s%s' % ('ssse3' if f == 'ss' else 'avx2', 'generate' if g else 'transform', tag), wrapper, lm, f, g)
    except Exception as e:
        chk.fail_early('ir block functions' + tag, repr(e)[:600])


def main(pid):
    chk = core.Check(pid, assumptions=ASSUME, trusted=TRUST)
    chk.extra['spec_selftest_cases'] = spec.selftest()
    add_leaf(chk)
    for R in (1, 4, 8):
        add_ratio(chk, R)
    for nm, R, opt in (('sw', 1, 'option::impl_enforce<detail::cipher_chacha_impl_sw_ietf>'), ('ssse3', 4, 'option::impl_enforce<detail::cipher_chacha_impl_hw_x86_64_ssse_3_ietf>'),
                       ('avx2', 8, 'option::impl_enforce<detail::cipher_chacha_impl_hw_x86_64_avx_2_ietf>'), ('sw by default slot', 1, 'option::impl_runtime<detail::cipher_chacha_impl_sw_ietf>')):
        try:
            m = irparse.parse(build.ir(SRC % dict(opt=opt), noinline='cipher_chacha_impl_sw\\w*(transform|generate)'))
        except Exception as e:
            chk.fail_early('ir backend %s' % nm, repr(e)[:600])
            continue
        for lead in ('nothing', 'zero', 'even', None):
            for ip in (False, True):
                chk.ob('backend %s after %s%s' % (nm, lead, ' in place' if ip else ''), streams, m, R, 'h_enc', 'h_dec', ip, lead)
    chk.differential('stream', diff, pid)
    chk.replay = replay
    chk.deep.append(deep)
    return chk.finish()


def streams(m, R, a, b, ip, lead):
    n = 0
    for case in (None,) if b is None else ('same', 'cross', 'even'):
        n += stream(m, R, case, a, b or a, ip, lead).get('obligations', 1)
    return {'obligations': n}
