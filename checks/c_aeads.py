"""A01 (sealing), A02 (verification), A03 (constant time comparison)"""
import ctypes
import random

import build
import c_ciphers
import c_poly
import core
import execu
import ghost
import guarded
import hashth
import irparse
import prover
import terms as t
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from hashth import must_equal
from terms import const

SRC = '''
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/detail/alias.h>
#include <new>
#include <type_traits>
using namespace milo; using namespace milo::primitive;
''' + ghost.GBOX + '''
extern "C" {
void g_cinit(void*, const uint8_t*, size_t, const uint8_t*, size_t); size_t g_cenc(void*, const uint8_t*, size_t, uint8_t*);
void g_minit(void*, const uint8_t*, size_t); void g_mupd(void*, const uint8_t*, size_t); void g_mfin(void*); size_t g_mdig(const void*, uint8_t*, size_t);
}
struct gcipher {
  struct properties { using cipher = int; using cipher_stream = int; using cipher_chacha_20 = int; };
  static constexpr size_t key_size = 32, iv_size = 16, block_size = 64;
  uint64_t s[2];
  template<meta::byte K, meta::byte V> constexpr auto initialize(const K* k, size_t kn, const V* v, size_t vn) noexcept(true) -> void { g_cinit(this, (const uint8_t*)k, kn, (const uint8_t*)v, vn); }
  template<meta::byte S, meta::byte D> constexpr auto encrypt(const S* s, size_t n, D* d) noexcept(true) -> size_t { return g_cenc(this, (const uint8_t*)s, n, (uint8_t*)d); }
  template<meta::byte S, meta::byte D> constexpr auto decrypt(const S* s, size_t n, D* d) noexcept(true) -> size_t { return g_cenc(this, (const uint8_t*)s, n, (uint8_t*)d); }
  template<meta::byte S> constexpr auto encrypt_size(const S*, size_t n) noexcept(true) -> size_t { return n; }
  template<meta::byte S> constexpr auto decrypt_size(const S*, size_t n) noexcept(true) -> size_t { return n; }
};
struct gmac {
  struct properties { using mac = int; using mac_poly_1305 = int; };
  static constexpr size_t key_size = 32, digest_size = 16;
  uint64_t s[2];
  template<meta::byte K> constexpr auto initialize(const K* k, size_t kn) noexcept(true) -> void { g_minit(this, (const uint8_t*)k, kn); }
  template<meta::byte M> constexpr auto update(const M* p, size_t n) noexcept(true) -> void { g_mupd(this, (const uint8_t*)p, n); }
  constexpr auto finalize() noexcept(true) -> void { g_mfin(this); }
  template<meta::byte D> constexpr auto digest(D* p, size_t n = digest_size) const noexcept(true) -> size_t { return g_mdig(this, (uint8_t*)p, n); }
};
using T = detail::aead_chacha_20_poly_1305<gcipher, gmac>;
using C = aead::apie<T>;
using B = gbox<uint8_t>;
using byte_t = uint8_t;
extern "C" {
bool h_wiring(){ return std::is_same_v<typename aead::chacha_20_poly_1305<>::cipher_type, cipher::chacha_20<>> && std::is_same_v<typename aead::chacha_20_poly_1305<>::mac_type, mac::poly_1305<>>; }
size_t h_sizes(int i){ return i == 0 ? C::key_size : i == 1 ? C::iv_size : C::digest_size; }
size_t h_sizeof(){ return sizeof(C); }
void h_init(C* o, const uint8_t* k, size_t kn, const uint8_t* v, size_t vn){ o->initialize(k, kn, v, vn); }
void h_ctor(C* o, const uint8_t* k, size_t kn, const uint8_t* v, size_t vn){ new (o) C(k, kn, v, vn); }
void h_initb(C* o, const B* k, const B* v){ o->initialize(*k, *v); }
void h_ctorb(C* o, const B* k, const B* v){ new (o) C(*k, *v); }
void h_aad(C* o, const uint8_t* p, size_t n){ o->aad(p, n); }
void h_aadc(C* o, const char* p, size_t n){ o->aad(p, n); }
void h_aadb(C* o, const B* p){ o->aad(*p); }
size_t h_enc(C* o, const uint8_t* s, size_t n, uint8_t* d){ return o->encrypt(s, n, d); }
size_t h_dec(C* o, const uint8_t* s, size_t n, uint8_t* d){ return o->decrypt(s, n, d); }
size_t h_encb(C* o, const B* s, B* d){ return o->encrypt(*s, *d); }
size_t h_decb(C* o, const B* s, B* d){ return o->decrypt(*s, *d); }
size_t h_encr(C* o, const B* s, B* d){ *d = o->template encrypt<B>(*s); return d->n; }
size_t h_decr(C* o, const B* s, B* d){ *d = o->template decrypt<B>(*s); return d->n; }
size_t h_es(C* o, const uint8_t* s, size_t n){ return o->encrypt_size(s, n); }
size_t h_ds(C* o, const uint8_t* s, size_t n){ return o->decrypt_size(s, n); }
size_t h_dig(C* o, uint8_t* p, size_t n){ return o->digest(p, n); }
size_t h_digc(C* o, std::array<uint8_t,8>* a, size_t n){ return o->digest(*a, n); }
size_t h_digl(C* o, std::array<uint8_t,100>* a, size_t n){ return o->digest(*a, n); }
size_t h_digb(C* o, B* a, size_t n){ return o->digest(*a, n); }
size_t h_digr(C* o, B* a, size_t n){ *a = o->template digest<B>(n); return a->n; }
size_t h_digs(C* o, uint8_t* p){ auto r = o->digest(); __builtin_memcpy(p, r.data(), r.size()); return r.size(); }
int v_err(C* o, const uint8_t* d, size_t n, int e0){ error e; e = static_cast<decltype(error::none)>(e0); o->verify(d, n, e); return static_cast<int>(static_cast<decltype(error::none)>(e)); }
void v_thr(C* o, const uint8_t* d, size_t n){ o->verify(d, n); }
int v_berr(C* o, const B* d, int e0){ error e; e = static_cast<decltype(error::none)>(e0); o->verify(*d, e); return static_cast<int>(static_cast<decltype(error::none)>(e)); }
void v_bthr(C* o, const B* d){ o->verify(*d); }
%(one)s
}'''

ONE = '''
#define KIA const uint8_t* k, size_t kn, const uint8_t* v, size_t vn, const uint8_t* a, size_t an
#define KIV k, kn, v, vn, a, an
#define ERR(x) error e; e = static_cast<decltype(error::none)>(e0); x; *ep = static_cast<int>(static_cast<decltype(error::none)>(e))
size_t o_enc(KIA, const uint8_t* s, size_t n, uint8_t* d, uint8_t* tg){ auto r = aead::encrypt<T>(KIV, s, n, d, tg); return r.item_0 + (r.item_1 << 57); }
size_t o_encb(const B* k, const B* v, const B* a, const B* s, B* d, std::array<uint8_t,16>* tg){ auto r = aead::encrypt<T>(*k, *v, *a, *s, *d, *tg); return r.item_0 + (r.item_1 << 57); }
size_t o_encr(const B* k, const B* v, const B* a, const B* s, B* d, std::array<uint8_t,16>* tg){ auto r = aead::encrypt<T, B>(*k, *v, *a, *s); *d = r.item_0; *tg = r.item_1; return d->n; }
size_t o_dec(KIA, const uint8_t* s, size_t n, const uint8_t* tg, size_t tn, uint8_t* d, int e0, int* ep){ size_t r = 0; ERR(r = aead::decrypt<T>(KIV, s, n, tg, tn, d, e)); return r; }
size_t o_dect(KIA, const uint8_t* s, size_t n, const uint8_t* tg, size_t tn, uint8_t* d){ return aead::decrypt<T>(KIV, s, n, tg, tn, d); }
size_t o_decb(const B* k, const B* v, const B* a, const B* s, const B* tg, B* d, int e0, int* ep){ size_t r = 0; ERR(r = aead::decrypt<T>(*k, *v, *a, *s, *tg, *d, e)); return r; }
size_t o_decbt(const B* k, const B* v, const B* a, const B* s, const B* tg, B* d){ return aead::decrypt<T>(*k, *v, *a, *s, *tg, *d); }
size_t o_decr(const B* k, const B* v, const B* a, const B* s, const B* tg, B* d, int e0, int* ep){ ERR(*d = (aead::decrypt<T, B>(*k, *v, *a, *s, *tg, e))); return d->n; }
size_t o_decrt(const B* k, const B* v, const B* a, const B* s, const B* tg, B* d){ *d = aead::decrypt<T, B>(*k, *v, *a, *s, *tg); return d->n; }
size_t o_decs(const B* k, const B* v, const B* a, const B* s, const B* tg, std::array<uint8_t,100>* d, int e0, int* ep){ size_t r = 0; ERR(r = aead::decrypt<T>(*k, *v, *a, *s, *tg, *d, e)); return r; }
size_t o_decst(const B* k, const B* v, const B* a, const B* s, const B* tg, std::array<uint8_t,100>* d){ return aead::decrypt<T>(*k, *v, *a, *s, *tg, *d); }
'''

AMAX = 1 << 56
KEYB = lambda o: t.app('key', 8, (o,))
IVB = lambda o: t.app('iv', 8, (o,))
AADB = lambda o: t.app('aad', 8, (o,))
IN = lambda o: t.app('in', 8, (o,))
TAG = lambda i: t.app('TAG', 8, (i,))
PRES = lambda o: t.app('presented', 8, (o,))


def KS(p):
    return t.app('KS', 8, (p,))


def up16(n):
    return t.add(n, t.zext(t.neg(t.slc(n, 0, 4)), 64))


def le64(x):
    return [t.slc(x, 8 * i, 8) for i in range(8)]


class Ghost:
    """contracts of the cipher and the mac (S01, M02, M03 prove that chacha_20 and poly_1305 satisfy them)"""

    def __init__(self, A, Cn, dec, kn, vn):
        self.A, self.C, self.dec = A, Cn, dec
        self.A16 = up16(A)
        self.E = t.add(self.A16, Cn)
        self.E16 = t.add(self.A16, up16(Cn))
        self.N = t.add(self.E16, const(16, 64))
        self.kn, self.vn = kn, vn
        self.calls = {}

    def install(self, ex):
        for f in ('cinit', 'cenc', 'minit', 'mupd', 'mfin', 'mdig'):
            ex.hooks['@g_' + f] = getattr(self, f)
        ex.hooks['@ghost_resize'] = ghost.resize_hook

    def st8(self, ex, st, p, v, off=0):
        ex.store(st, Ptr(p.obj, t.add(p.off, const(off, 64))), v, 8)

    def ld8(self, ex, st, p, off=0):
        return ex.load(st, Ptr(p.obj, t.add(p.off, const(off, 64))), 8)

    def generic(self, ex, st, p, n, want, what):
        """every byte p[i], i < n, equals want(i)"""
        if n.op == 'c' and n.a[0] <= 64:
            for x in range(n.a[0]):
                must_equal(ex, st, ex.byte(st, Ptr(p.obj, t.add(p.off, const(x, 64)))), want(const(x, 64)), '%s byte %d' % (what, x))
            return
        i = t.fresh('i', 64, 0, 1 << 60)
        s2 = st.fork()
        if not s2.assume(t.ult(i, n)):
            return
        old, ex.cur = ex.cur, s2
        v = ex.byte(s2, Ptr(p.obj, t.add(p.off, i)))
        ex.cur = old
        c_ciphers.split_equal(ex, s2, v, want(i), what + ' byte i')

    def cinit(self, ex, st, a):
        o, k, kn, v, vn = a
        must_equal(ex, st, kn, self.kn, 'key size given to the cipher')
        self.generic(ex, st, k, kn, KEYB, 'cipher key')
        must_equal(ex, st, vn, const(16, 64), 'iv size given to the cipher')
        vlen = self.vn if isinstance(self.vn, int) else 12
        for x in range(16):
            w = const(0, 8) if x < 4 or x - 4 >= vlen else IVB(const(x - 4, 64))
            must_equal(ex, st, ex.byte(st, Ptr(v.obj, t.add(v.off, const(x, 64)))), w, 'cipher iv byte %d' % x)
        self.st8(ex, st, o, const(0, 64))
        self.st8(ex, st, o, const(0xC1F3, 64), 8)
        return None

    def cenc(self, ex, st, a):
        o, s, n, d = a
        must_equal(ex, st, self.ld8(ex, st, o, 8), const(0xC1F3, 64), 'cipher used before initialize')
        pos = self.ld8(ex, st, o)
        if n.op == 'c' and n.a[0] == 0:
            return n
        so, do = st.objs.get(s.obj), st.objs.get(d.obj)
        if so is None or do is None:
            raise Refuted('cipher given dead memory')
        ex.range_in(st, so, s.off, n, False)
        ex.range_in(st, do, d.off, n, True)
        if s.obj == d.obj and s.off is not d.off:
            must_equal(ex, st, s.off, d.off, 'overlapping source and destination')
        if n.op == 'c' and n.a[0] <= 64:
            vs = [ex.byte(st, Ptr(s.obj, t.add(s.off, const(x, 64)))) for x in range(n.a[0])]
            for x, v in enumerate(vs):
                ex.store(st, Ptr(d.obj, t.add(d.off, const(x, 64))), t.xor(v, KS(t.add(pos, const(x, 64)))), 1)
        else:
            sm = st.mem[s.obj].clone()

            def fn(i, so=so, sm=sm, off=s.off, pos=pos):
                c = ex.cell(ex.cur or st, so, sm, t.add(off, i))
                return (t.xor(execu.tbyte(*c), KS(t.add(pos, i))), 0)
            c_ciphers.put_range(ex, st, d, n, fn)
        self.st8(ex, st, o, t.add(pos, n))
        return n

    def minit(self, ex, st, a):
        o, k, kn = a
        ex.oblig += 1
        if kn.op != 'c' or kn.a[0] < 32:
            raise Refuted('one-time key of %s bytes' % t.show(kn))
        for x in range(32):
            must_equal(ex, st, ex.byte(st, Ptr(k.obj, t.add(k.off, const(x, 64)))), KS(const(x, 64)), 'one-time key byte %d' % x)
        self.st8(ex, st, o, const(0, 64))
        self.st8(ex, st, o, const(0x3AC, 64), 8)
        return None

    def data(self, i):
        """ciphertext byte i (given when decrypting)"""
        return IN(i) if self.dec else t.xor(IN(i), KS(t.add(i, const(64, 64))))

    def regions(self):
        z = lambda r: const(0, 8)
        lens = le64(self.A) + le64(self.C)

        def ln(r):
            if r.op != 'c' or r.a[0] >= 16:
                raise NotProved('lengths block at a symbolic place')
            return lens[r.a[0]]
        zero = const(0, 64)
        return [(zero, self.A, AADB, 'associated data'), (self.A, self.A16, z, 'padding of the associated data'), (self.A16, self.E, self.data, 'ciphertext'),
                (self.E, self.E16, z, 'padding of the ciphertext'), (self.E16, self.N, ln, 'lengths')]

    def mupd(self, ex, st, a):
        o, p, n = a
        must_equal(ex, st, self.ld8(ex, st, o, 8), const(0x3AC, 64), 'mac updated before initialize or after finalize')
        l = self.ld8(ex, st, o)
        if n.op == 'c' and n.a[0] == 0:
            return None
        ob = st.objs.get(p.obj)
        if ob is None:
            raise Refuted('mac given dead memory')
        ex.range_in(st, ob, p.off, n, False)
        s0 = st.fork()
        if s0.assume(t.ult(const(0, 64), n)) and not hashth.infeasible_pc(s0):
            self.content(ex, s0, l, p, n)
        self.st8(ex, st, o, t.add(l, n))
        return None

    def content(self, ex, st, l, p, n):
        """p[0..n) is the part of the mac input string at l (n > 0)"""
        end = t.add(l, n)
        ex.oblig += 1
        for lo, hi, f, what in self.regions():
            if hi is lo:
                continue
            if self.le(st, lo, l) and self.le(st, end, hi):
                rel = t.sub(l, lo)
                if rel.op != 'c' and what == 'lengths':
                    for x in range(16):
                        if prover.valid(t.eq(l, t.add(lo, const(x, 64))), st.pc, force='bv') is True:
                            rel = const(x, 64)
                            break
                self.generic(ex, st, p, n, lambda i, rel=rel, f=f: f(t.add(rel, i)), 'mac input (%s)' % what)
                return
        # byte by byte: whichever part each byte falls into
        i = t.fresh('i', 64, 0, 1 << 60)
        q = t.add(l, i)
        s1 = st.fork()
        if not s1.assume(t.ult(i, n)):
            return
        if not self.le(s1, t.add(q, const(1, 64)), self.N):
            must_equal(ex, s1, t.ite(t.ult(q, self.N), const(1, 8), const(0, 8)), const(1, 8), 'mac input continues past its end')
        for lo, hi, f, what in self.regions():
            for x in range(16) if what == 'lengths' else (None,):
                s2 = s1.fork()
                ok = s2.assume(t.eq(q, t.add(lo, const(x, 64)))) if x is not None else s2.assume(t.not_(t.ult(q, lo))) and s2.assume(t.ult(q, hi))
                if not ok or hashth.infeasible_pc(s2):
                    continue
                old, ex.cur = ex.cur, s2
                v = ex.byte(s2, Ptr(p.obj, t.add(p.off, i)))
                ex.cur = old
                c_ciphers.split_equal(ex, s2, v, f(const(x, 64) if x is not None else t.sub(q, lo)), 'mac input (%s)' % what)

    def le(self, st, a, b):
        if a is b:
            return True
        return prover.valid(t.not_(t.ult(b, a)), st.pc) is True

    def mfin(self, ex, st, a):
        o, = a
        must_equal(ex, st, self.ld8(ex, st, o, 8), const(0x3AC, 64), 'mac finalized before initialize or twice')
        must_equal(ex, st, self.ld8(ex, st, o), self.N, 'length of the mac input')
        self.st8(ex, st, o, const(0xF1, 64), 8)
        return None

    def mdig(self, ex, st, a):
        o, p, n = a
        must_equal(ex, st, self.ld8(ex, st, o, 8), const(0xF1, 64), 'tag read before finalize')
        if t.iv(n)[0] >= 16:
            k = 16
        elif n.op == 'c':
            k = n.a[0]
        else:
            raise NotProved('tag size ' + t.show(n))
        for x in range(k):
            ex.store(st, Ptr(p.obj, t.add(p.off, const(x, 64))), TAG(const(x, 64)), 1)
        return const(k, 64)


def begin(mod, A, Cn, dec, kn=32, vn=12):
    KN = const(kn, 64) if isinstance(kn, int) else kn
    VN = const(vn, 64) if isinstance(vn, int) else vn
    g = Ghost(A, Cn, dec, KN, vn)
    ex = Exec(mod)
    g.install(ex)
    st = State()
    o = st.new('obj', hashth.const_ret(mod, '@h_sizeof'))
    K = st.new('kk', KN, base=KEYB, writable=False)
    V = st.new('vv', VN, base=IVB, writable=False)
    return ex, g, st, o, K, KN, V, VN


def length(name, shape, hi=AMAX):
    return const(0, 64) if shape == 'none' else t.var(name, 64, 0, hi)


def same(ex, sts, what, need=6, sizes=()):
    if not sts:
        raise NotProved('vacuous')
    c = 0
    sz = None
    for s in sts:
        sz = s.objs['obj'].size.a[0]
        ex.cur = s
        c += hashth.soft(sizes, hashth.compare_objects, ex, s, 'ref', 'obj', sz, what)
    if c < need * len(sts):
        raise NotProved('vacuous: nothing determined')
    return c


def aad_split(mod, f1, f2):
    """aad(x); aad(y) = aad(x|y); aad of nothing = no call"""
    L, n = t.var('L', 64, 0, AMAX), t.var('n', 64, 0, AMAX)
    tot = t.add(L, n)
    ex, g, st, o, K, KN, V, VN = begin(mod, tot, const(0, 64), False)
    o2 = st.new('ref', st.objs['obj'].size)
    a1 = st.new('a1', L, base=AADB, writable=False)
    a2 = st.new('a2', n, base=lambda i: AADB(t.add(L, i)), writable=False)
    a3 = st.new('a3', tot, base=AADB, writable=False)
    sts = hashth.paths(ex, [st], '@h_init', [o, K, KN, V, VN])
    sts = hashth.paths(ex, sts, '@h_init', [o2, K, KN, V, VN])
    for f, a, m, nm in ((f1, a1, L, 'b1'), (f2, a2, n, 'b2')):
        if f == '@h_aadb':
            for s in sts:
                b = ghost.box(ex, s, nm, a, m)
            sts = hashth.paths(ex, sts, f, [o, b])
        else:
            sts = hashth.paths(ex, sts, f, [o, a, m])
    sts = hashth.paths(ex, sts, '@h_aad', [o2, a3, tot])
    c = same(ex, sts, 'associated data in two calls', sizes=(L, n, const(0, 64), const(0, 64)))
    # nothing
    ex, g, st, o, K, KN, V, VN = begin(mod, const(0, 64), const(0, 64), False)
    o2 = st.new('ref', st.objs['obj'].size)
    a1 = st.new('a1', 0, writable=False)
    sts = hashth.paths(ex, [st], '@h_init', [o, K, KN, V, VN])
    sts = hashth.paths(ex, sts, '@h_init', [o2, K, KN, V, VN])
    sts = hashth.paths(ex, sts, '@h_aad', [o2, a1, const(0, 64)])
    return {'obligations': c + same(ex, sts, 'no associated data', sizes=(const(0, 64),) * 4)}


def enc_split(mod, first, second, inplace):
    """text(x); text(y) = text(x|y); the output is in ^ keystream from byte 64 on"""
    A, L, n = t.var('A', 64, 0, AMAX), t.var('L', 64, 0, AMAX), t.var('n', 64, 0, AMAX)
    tot = t.add(L, n)
    dec = 'dec' in first
    ex, g, st, o, K, KN, V, VN = begin(mod, A, tot, dec)
    o2 = st.new('ref', st.objs['obj'].size)
    a = st.new('aa', A, base=AADB, writable=False)
    sts = hashth.paths(ex, [st], '@h_init', [o, K, KN, V, VN])
    sts = hashth.paths(ex, sts, '@h_init', [o2, K, KN, V, VN])
    sts = hashth.paths(ex, sts, '@h_aad', [o, a, A])
    sts = hashth.paths(ex, sts, '@h_aad', [o2, a, A])

    def call(sts, f, ob, size, off, nm):
        base = lambda i: IN(t.add(off, i))
        for s in sts:
            d = s.new('d' + nm, size, base=base if inplace else None)
            p = d if inplace else s.new('s' + nm, size, base=base, writable=False)
        sts = hashth.paths(ex, sts, f, [ob, p, size, d])
        for s in sts:
            must_equal(ex, s, s.out[1], size, f + ' return value')
            h = s.fork()
            i = t.fresh('i', 64, 0, 1 << 60)
            if h.assume(t.ult(i, size)):
                ex.cur = h
                v = ex.byte(h, Ptr('d' + nm, i))
                c_ciphers.split_equal(ex, h, v, t.xor(IN(t.add(off, i)), KS(t.add(t.add(off, i), const(64, 64)))), f + ' output byte i')
                ex.cur = None
        return sts
    sts = call(sts, first, o, L, const(0, 64), '1')
    sts = call(sts, second, o, n, L, '2')
    sts = call(sts, first, o2, tot, const(0, 64), '3')
    return {'obligations': same(ex, sts, 'text in two calls', sizes=(A, const(0, 64), L, n))}


def seal(mod, aadcall, text, kn=32, vn=12, init='@h_init', dig='@h_dig', ks=(16,)):
    """init; [aad]; [text]; digest; digest"""
    n = 0
    for k in ks:
        A = t.var('A', 64, 0, AMAX) if aadcall else const(0, 64)
        Cn = t.var('C', 64, 0, AMAX) if text else const(0, 64)
        dec = bool(text) and 'dec' in text
        ex, g, st, o, K, KN, V, VN = begin(mod, A, Cn, dec, kn, vn)
        a = st.new('aa', A, base=AADB, writable=False)
        s_ = st.new('src', Cn, base=IN, writable=False)
        if init in ('@h_initb', '@h_ctorb'):
            sts = hashth.paths(ex, [st], init, [o, ghost.box(ex, st, 'kb', K, KN), ghost.box(ex, st, 'vb', V, VN)])
        else:
            sts = hashth.paths(ex, [st], init, [o, K, KN, V, VN])
        if aadcall:
            sts = hashth.paths(ex, sts, '@h_aad', [o, a, A])
        if text:
            boxed = text[-1] in 'br'
            for s in sts:
                if boxed:
                    sb, db = ghost.box(ex, s, 'sb', s_, Cn), ghost.box(ex, s, 'db', None, const(0, 64))
                else:
                    d = s.new('dst', Cn)
            sts = hashth.paths(ex, sts, text, [o, sb, db] if boxed else [o, s_, Cn, d])
            for s in sts:
                must_equal(ex, s, s.out[1], Cn, text + ' return value')
                if boxed:
                    rs = [e[1] for e in s.events if e[0] == 'resize']
                    if not rs:
                        raise Refuted('the container is never sized')
                    for r in rs:
                        must_equal(ex, s, r, Cn, 'container size')
                h = s.fork()
                i = t.fresh('i', 64, 0, 1 << 60)
                if h.assume(t.ult(i, Cn)):
                    ex.cur = h
                    c_ciphers.split_equal(ex, h, ex.byte(h, Ptr('grown' if boxed else 'dst', i)), t.xor(IN(i), KS(t.add(i, const(64, 64)))), text + ' output byte i')
                    ex.cur = None
        cap = {'@h_digc': 8, '@h_digl': 100}.get(dig)
        lim = min(cap or 16, 16)
        got = 16 if dig == '@h_digs' else lim if k is None else min(k, lim)
        kt = const(k, 64) if k is not None else t.var('m', 64, 16, (1 << 64) - 1)
        for rep in (1, 2):
            nm = 'out%d' % rep
            if dig in ('@h_digb', '@h_digr'):
                if rep == 2:
                    break
                for s in sts:
                    s.events = []
                    b = ghost.box(ex, s, 'tb', None, const(0, 64))
                sts = hashth.paths(ex, sts, dig, [o, b, kt])
                nm = 'grown'
            else:
                size = cap or (16 if dig == '@h_digs' else got + 24)
                for s in sts:
                    out = s.new(nm, size)
                sts = hashth.paths(ex, sts, dig, [o, out] if dig == '@h_digs' else [o, out, kt])
            if not sts:
                raise NotProved('vacuous')
            for s in sts:
                must_equal(ex, s, s.out[1], const(got, 64), 'digest return value')
                if nm == 'grown':
                    for r in [e[1] for e in s.events if e[0] == 'resize']:
                        must_equal(ex, s, r, const(got, 64), 'container size')
                    size = got
                for i in range(size):
                    w = TAG(const(i, 64)) if i < got else s.objs[nm].base(const(i, 64))
                    must_equal(ex, s, ex.byte(s, Ptr(nm, const(i, 64))), w, 'tag byte %d' % i)
                n += 1
    return {'obligations': n}


def material(mod):
    """every key length is passed on, every iv length is padded or cut to 12 bytes"""
    n = 0
    for kn in (t.var('kn', 64, 0, 1 << 56),):
        for vn in list(range(13)) + [t.var('vn', 64, 13, 1 << 56)]:
            for init in ('@h_init', '@h_ctor', '@h_initb', '@h_ctorb'):
                n += seal(mod, True, '@h_enc', kn, vn, init)['obligations']
    return {'obligations': n}


def wiring(mod):
    for f, args, w in (('@h_wiring', [], 1), ('@h_sizes', [const(0, 32)], 32), ('@h_sizes', [const(1, 32)], 12), ('@h_sizes', [const(2, 32)], 16)):
        ex = Exec(mod)
        for r in ex.run_function(State(), f, args):
            v = r.out[1]
            if v.op != 'c' or v.a[0] != w:
                raise Refuted('%s%s is %s, not %d' % (f, [x.a[0] for x in args], t.show(v), w))
    return {'obligations': 4}


def oneshot(mod, f):
    """one-shot encrypt / decrypt forms, A01 part: output and tag"""
    dec = f.startswith('o_dec')
    A, Cn = t.var('A', 64, 0, AMAX), t.var('C', 64, 0, AMAX)
    if f in ('o_decs', 'o_decst'):
        Cn = const(100, 64)
    ex, g, st, o, K, KN, V, VN = begin(mod, A, Cn, dec)
    a = st.new('aa', A, base=AADB, writable=False)
    s_ = st.new('src', Cn, base=IN, writable=False)
    tg = st.new('tag', 16, base=PRES if dec else None, writable=not dec)
    ptr = f in ('o_enc', 'o_dec', 'o_dect')
    if ptr:
        d = st.new('dst', Cn)
        args = [K, KN, V, VN, a, A, s_, Cn] + ([tg, const(16, 64), d] if dec else [d, tg])
        res = 'dst'
    else:
        bx = [ghost.box(ex, st, nm, p, n) for nm, p, n in (('kb', K, KN), ('vb', V, VN), ('ab', a, A), ('sb', s_, Cn))]
        if f in ('o_decs', 'o_decst'):
            db = st.new('dst', 100)
            res = 'dst'
        else:
            db = ghost.box(ex, st, 'db', None, const(0, 64))
            res = 'grown'
        args = bx + ([ghost.box(ex, st, 'tb', tg, const(16, 64)), db] if dec else [db, tg])
    err = dec and not f.endswith('t')
    if err:
        args += [t.var('e0', 32, 0, 6), st.new('errout', 4)]
    outs = ex.run_function(st, '@' + f, args)
    n = 0
    acc = accept(16)
    seen = {True: 0, False: 0}
    for s in outs:
        if s.pc and hashth.infeasible_pc(s):
            continue
        if dec:
            n += verdict(ex, s, f, acc, err, seen)
            if s.out[0] != 'ret':
                continue
        elif s.out[0] != 'ret':
            raise Refuted('%s ends in %s' % (f, s.out), pc=s.pc)
        w = Cn
        if f in ('o_enc', 'o_encb'):
            w = t.add(Cn, t.mulc(const(16, 64), 1 << 57))
        must_equal(ex, s, s.out[1], w, f + ' return value')
        if res == 'grown':
            for r in [e[1] for e in s.events if e[0] == 'resize']:
                must_equal(ex, s, r, Cn, 'container size')
        h = s.fork()
        i = t.fresh('i', 64, 0, 1 << 60)
        if h.assume(t.ult(i, Cn)):
            ex.cur = h
            c_ciphers.split_equal(ex, h, ex.byte(h, Ptr(res, i)), t.xor(IN(i), KS(t.add(i, const(64, 64)))), f + ' output byte i')
            ex.cur = None
        if not dec:
            for i in range(16):
                must_equal(ex, s, ex.byte(s, Ptr('tag', const(i, 64))), TAG(const(i, 64)), 'tag byte %d' % i)
        n += 1
    if not n or (dec and not (seen[True] and seen[False])):
        raise NotProved('vacuous')
    return {'obligations': n}


# ------------------------------------------------------------------ verification

def accept(n):
    """1 iff the first n tag bytes equal the presented ones"""
    r = const(1, 1)
    for i in range(n):
        r = t.and_(r, t.eq(TAG(const(i, 64)), PRES(const(i, 64))))
    return r


def entails(s, c):
    return prover.valid(c, s.pc, timeout=20000, force='bv') is True


def refutes(s, c, what):
    if prover.valid(c, s.pc, timeout=60000, force='bv') is None:
        raise NotProved(what + '?')
    w = prover.counterexample(c, s.pc)
    raise Refuted(what, w and {t.show(k, 2): v for k, v in list(w.items())[:40]})


def verdict(ex, s, f, acc, err, seen, code=None):
    """the outcome of one path agrees with acc"""
    ex.oblig += 1
    if err and s.out[0] == 'ret':
        if code is None:
            code = ex.load(s, Ptr('errout', const(0, 64)), 4)
        want = t.ite(acc, const(0, 32), const(2, 32))
        if not entails(s, t.eq(code, want)):
            r = prover.valid(t.eq(code, want), s.pc, timeout=20000, force='bv')
            if r is False:
                refutes(s, t.eq(code, want), '%s: error code %s' % (f, t.show(code)[:200]))
            raise NotProved('%s: error code %s' % (f, t.show(code)[:200]))
        for v in (True, False):
            h = s.fork()
            if h.assume(acc if v else t.not_(acc)) and not hashth.infeasible_pc(h):
                seen[v] += 1
        return 1
    if s.out[0] == 'ret':
        seen[True] += 1
        if not entails(s, acc):
            refutes(s, acc, '%s returns normally although the tag is wrong' % f)
        return 1
    if s.out[0] == 'throw' and not err:
        seen[False] += 1
        if not entails(s, t.not_(acc)):
            refutes(s, t.not_(acc), '%s throws although the tag is right' % f)
        from c_codecs import thrown
        code = thrown(ex, s)
        must_equal(ex, s, code, const(2, 32), 'thrown error code')
        return 1
    raise Refuted('%s ends in %s%s' % (f, s.out[0], '' if acc.op != 'c' or acc.a[0] else ' for a tag of the wrong size'), pc=s.pc)


def verify(mod, f, sizes, after):
    """object as after init; aad; text (or a computed digest); then verify"""
    cnt = 0
    for k in sizes:
        A, Cn = t.var('A', 64, 0, AMAX), t.var('C', 64, 0, AMAX)
        if after in ('init', 'aad'):
            Cn = const(0, 64)
        if after == 'init':
            A = const(0, 64)
        ex, g, st, o, K, KN, V, VN = begin(mod, A, Cn, True)
        a = st.new('aa', A, base=AADB, writable=False)
        s_ = st.new('src', Cn, base=IN, writable=False)
        d = st.new('dst', Cn)
        sts = hashth.paths(ex, [st], '@h_init', [o, K, KN, V, VN])
        if after != 'init':
            sts = hashth.paths(ex, sts, '@h_aad', [o, a, A])
        if after in ('text', 'digest'):
            sts = hashth.paths(ex, sts, '@h_dec', [o, s_, Cn, d])
        if after == 'digest':
            for s in sts:
                tb = s.new('tb', 16)
            sts = hashth.paths(ex, sts, '@h_dig', [o, tb, const(16, 64)])
        kt = const(k, 64) if k is not None else t.var('m', 64, 17, 1 << 56)
        acc = accept(16) if k == 16 else const(0, 1)
        seen = {True: 0, False: 0}
        for s in sts:
            p = s.new('pres', kt, base=PRES, writable=False)
            args = [o, ghost.box(ex, s, 'pb', p, kt)] if f in ('@v_berr', '@v_bthr') else [o, p, kt]
            err = f in ('@v_err', '@v_berr')
            if err:
                args.append(t.var('e0', 32, 0, 6))
            for x in ex.run_function(s, f, args):
                if x.pc and hashth.infeasible_pc(x):
                    continue
                cnt += verdict(ex, x, f, acc, err, seen, x.out[1] if err else None)
        if not seen[False] or (k == 16 and not seen[True]):
            raise NotProved('vacuous')
    return {'obligations': cnt}


# ------------------------------------------------------------------ constant time

def secret(x):
    return any(l.op == 'app' and l.a[0] in ('TAG', 'presented') for l in t.leaves(x))


def ctime(mod, f, sizes):
    """no branch and no address depends on tag bytes, except branches on the accept decision itself"""
    cnt = 0
    for k in sizes:
        acc = accept(min(k, 16)) if k is not None else accept(16)
        full = acc if k == 16 else const(0, 1)
        bad = []
        ex, g, st, o, K, KN, V, VN = begin(mod, const(5, 64), const(7, 64), True)
        a = st.new('aa', 5, base=AADB, writable=False)
        s_ = st.new('src', 7, base=IN, writable=False)
        d = st.new('dst', 7)
        sts = hashth.paths(ex, [st], '@h_init', [o, K, KN, V, VN])
        sts = hashth.paths(ex, sts, '@h_aad', [o, a, const(5, 64)])
        sts = hashth.paths(ex, sts, '@h_dec', [o, s_, const(7, 64), d])
        kt = const(k, 64) if k is not None else t.var('m', 64, 17, 1 << 56)
        n = [0]

        def branch(ex_, s, c):
            n[0] += 1
            if not secret(c):
                return
            for w in (acc, t.not_(acc), full):
                if prover.valid(t.eq(c, w), s.pc, timeout=20000, force='bv') is True:
                    return
            raise Refuted('a branch depends on tag bytes before the decision: %s' % t.show(c)[:300])

        def address(ex_, s, p):
            n[0] += 1
            if secret(p.off):
                raise Refuted('an address depends on tag bytes: %s' % t.show(p.off)[:300])
        ex.on_branch = branch
        ex.on_access = address
        for nm in ('memcmp', 'bcmp', 'strncmp', 'strcmp'):
            ex.hooks['@' + nm] = lambda ex_, s, a_, nm=nm: _vartime(nm)
        for s in sts:
            p = s.new('pres', kt, base=PRES, writable=False)
            args = [o, p, kt] + ([t.var('e0', 32, 0, 6)] if f == '@v_err' else [])
            for x in ex.run_function(s, f, args):
                cnt += 1
        if n[0] < 8:
            raise NotProved('vacuous')
        cnt += n[0]
    return {'obligations': cnt}


def _vartime(nm):
    raise Refuted('tag bytes are compared with %s, whose running time depends on them' % nm)


# ------------------------------------------------------------------ concrete

NSRC = '''
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/detail/alias.h>
#include <new>
#include <vector>
using namespace milo; using namespace milo::primitive;
typedef std::vector<uint8_t> V;
#define DEF(N, T) \\
extern "C" size_t N##_sizeof(){ return sizeof(aead::apie<T>); } \\
extern "C" void N##_init(aead::apie<T>* o,const uint8_t*k,size_t n,const uint8_t*v,size_t vn){ o->initialize(k,n,v,vn); } \\
extern "C" void N##_aad(aead::apie<T>* o,const uint8_t*p,size_t n){ o->aad(p,n); } \\
extern "C" size_t N##_enc(aead::apie<T>* o,const uint8_t*p,size_t n,uint8_t*d){ return o->encrypt(p,n,d); } \\
extern "C" size_t N##_dec(aead::apie<T>* o,const uint8_t*p,size_t n,uint8_t*d){ return o->decrypt(p,n,d); } \\
extern "C" size_t N##_dig(aead::apie<T>* o,uint8_t*p,size_t n){ return o->digest(p,n); } \\
extern "C" int N##_ver(aead::apie<T>* o,const uint8_t*p,size_t n){ error e; o->verify(p,n,e); return e ? 1 : 0; } \\
extern "C" int N##_vert(aead::apie<T>* o,const uint8_t*p,size_t n){ try { o->verify(p,n); } catch (error& e) { return 1; } return 0; } \\
extern "C" int N##_one(const uint8_t*k,size_t kn,const uint8_t*v,size_t vn,const uint8_t*a,size_t an,const uint8_t*p,size_t n,const uint8_t*tg,size_t tn,int form,uint8_t*d){ \\
  V K(k,k+kn), I(v,v+vn), A(a,a+an), P(p,p+n), G(tg,tg+tn); error e; int r = 0; \\
  switch (form) { \\
  case 0: { auto x = aead::encrypt<T>(K,I,A,P); for (size_t i=0;i<n;i++) d[i]=x.item_0[i]; for (size_t i=0;i<16;i++) d[n+i]=x.item_1[i]; return 0; } \\
  case 1: { V q(n); aead::decrypt<T>(k,kn,v,vn,a,an,p,n,tg,tn,q.data(),e); for (size_t i=0;i<n;i++) d[i]=q[i]; return e?1:0; } \\
  case 2: { V q; aead::decrypt<T>(K,I,A,P,G,q,e); for (size_t i=0;i<n;i++) d[i]=q[i]; return e?1:0; } \\
  case 3: { auto q = aead::decrypt<T>(K,I,A,P,G,e); for (size_t i=0;i<n;i++) d[i]=q[i]; return e?1:0; } \\
  case 4: try { auto q = aead::decrypt<T>(K,I,A,P,G); for (size_t i=0;i<n;i++) d[i]=q[i]; return 0; } catch (error& x) { return 1; } \\
  case 5: try { V q; aead::decrypt<T>(K,I,A,P,G,q); for (size_t i=0;i<n;i++) d[i]=q[i]; return 0; } catch (error& x) { return 1; } \\
  case 6: try { V q(n); aead::decrypt<T>(k,kn,v,vn,a,an,p,n,tg,tn,q.data()); for (size_t i=0;i<n;i++) d[i]=q[i]; return 0; } catch (error& x) { return 1; } } return 9; }
using TSW = aead::chacha_20_poly_1305<>;
DEF(a_default, TSW)
'''


def reference(key, iv, aad, text, dec):
    k32, v12 = (key + bytes(32))[:32], (iv + bytes(12))[:12]
    ks = c_ciphers.keystream(k32, bytes(4) + v12, 64 + len(text))
    out = c_ciphers.xor(text, ks[64:])
    ct = text if dec else out
    m = aad + bytes(-len(aad) % 16) + ct + bytes(-len(ct) % 16) + len(aad).to_bytes(8, 'little') + len(ct).to_bytes(8, 'little')
    return out, c_poly.poly1305(ks[:32], m)


def diff(chk, pid):
    Z = ctypes.c_size_t
    lib = ctypes.CDLL(build.native(NSRC, 'aead_' + pid))
    rnd = random.Random(core.SEED + 11)
    fails = []
    n = 0
    nm = 'a_default'
    g = lambda f: getattr(lib, nm + '_' + f)
    for f in ('sizeof', 'enc', 'dec', 'dig'):
        g(f).restype = Z
    size = g('sizeof')()

    def pieces(x):
        out = []
        k = rnd.choice([0, 1, 1, 2, 3, 5])
        if k == 0 and x:
            k = 1
        for j in range(k):
            p = len(x) if j == k - 1 else rnd.randrange(len(x) + 1)
            out.append(x[:p])
            x = x[p:]
        return out
    for it in range(1500 if core.TIER == 'quick' else 15000):
        key, iv = rnd.randbytes(rnd.choice([32] * 6 + [0, 16, 31, 40])), rnd.randbytes(rnd.choice([12] * 6 + [0, 8, 11, 16]))
        aad = rnd.randbytes(rnd.choice([0, 0, 1, 15, 16, 17, rnd.randrange(200)]))
        text = rnd.randbytes(rnd.choice([0, 0, 1, 15, 16, 17, 63, 64, 65, 511, 512, 513, rnd.randrange(1500)]))
        dec = rnd.random() < 0.5
        want, tag = reference(key, iv, aad, text, dec)
        o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
        g('init')(o, key, Z(len(key)), iv, Z(len(iv)))
        ap, tp = pieces(aad), pieces(text)
        for p in ap:
            g('aad')(o, p, Z(len(p)))
        got = b''
        for p in tp:
            inplace = rnd.random() < 0.4
            buf = ctypes.create_string_buffer((p if inplace else bytes([0xc3]) * len(p)) + bytes(16), len(p) + 16)
            r = g('dec' if dec else 'enc')(o, buf if inplace else p, Z(len(p)), buf)
            got += buf.raw[:len(p)]
            if r != len(p) or buf.raw[len(p):] != bytes(16):
                fails.append({'what': 'size or frame of a text call', 'size': len(p), 'returned': r})
        case = {'key': key.hex(), 'iv': iv.hex(), 'aad_calls': [len(p) for p in ap], 'aad': aad.hex()[:200], 'text_calls': [len(p) for p in tp], 'text': text.hex()[:200], 'decrypt': dec}
        kind = rnd.choice([0, 0, 2]) if pid == 'A01' else rnd.choice([1, 1, 2])
        n += 1
        bad = bytearray(tag)
        how = rnd.choice(['right', 'right', 'flip', 'flip', 'pair', 'short', 'long', 'empty'])
        if how == 'flip':
            bad[rnd.randrange(16)] ^= 1 << rnd.randrange(8)
        if how == 'pair':
            x, y = rnd.sample(range(16), 2)
            v = rnd.choice([0x80, rnd.randrange(1, 256)])
            bad[x] ^= v
            bad[y] = (bad[y] ^ v) if rnd.random() < 0.7 else (bad[y] - v) & 255
        pres = {'short': bytes(bad[:rnd.randrange(16)]), 'long': bytes(bad) + rnd.randbytes(rnd.randrange(1, 20)), 'empty': b''}.get(how, bytes(bad))
        if kind == 0:
            buf = ctypes.create_string_buffer(64)
            r = g('dig')(o, buf, Z(16))
            if got != want or r != 16 or buf.raw[:16] != tag:
                fails.append(dict(case, tag=buf.raw[:16].hex(), expected=tag.hex(), text_ok=got == want))
        elif kind == 1:
            r = g('ver' if rnd.random() < 0.5 else 'vert')(o, pres, Z(len(pres)))
            if r != (0 if how == 'right' else 1):
                fails.append(dict(case, presented=pres.hex(), tag=tag.hex(), rejected=r))
        if kind == 2:
            form = 0 if pid == 'A01' else rnd.randrange(1, 7)
            if form == 0:
                want, tag2 = reference(key, iv, aad, text, False)
            else:
                want, tag2 = reference(key, iv, aad, text, True)
                pres = tag2 if how == 'right' else bytes(x ^ y for x, y in zip(tag2, b'\x00' * 15 + b'\x80')) if how == 'flip' else pres if len(pres) != 16 else tag2[:15]
            buf = ctypes.create_string_buffer(len(text) + 64)
            r = g('one')(key, Z(len(key)), iv, Z(len(iv)), aad, Z(len(aad)), text, Z(len(text)), pres, Z(len(pres)), form, buf)
            ok = r == 0 and buf.raw[:len(text) + 16] == want + tag2 if form == 0 else (r == (0 if how == 'right' else 1) and (r == 1 and form >= 4 or buf.raw[:len(text)] == want))
            if not ok:
                fails.append(dict(case, one_shot_form=form, presented=pres.hex(), expected_tag=tag2.hex(), returned=r))
        if len(fails) > 3:
            break
    n, fails = guarded.merge(n, fails, guarded.aead(lib, nm))
    return n, fails, 'real library (g++ -O2, dispatched backends) against a python ChaCha20-Poly1305: random splits, forms, tags; buffers between unreadable pages'


def replay(chk, hist):
    """call sizes (associated data twice, text twice) with continuations: against the python model where that is feasible, and against the same data in small calls"""
    Z = ctypes.c_size_t
    lib = ctypes.CDLL(build.native(NSRC, 'aead_' + chk.pid))
    g = lambda f: getattr(lib, 'a_default_' + f)
    for f in ('sizeof', 'enc', 'dec', 'dig'):
        g(f).restype = Z
    size = g('sizeof')()
    rnd = random.Random(core.SEED)
    cases = 0

    def run(key, iv, ac, tc, aad, text, dec):
        o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
        g('init')(o, key, Z(32), iv, Z(12))
        p = 0
        for c in ac:
            g('aad')(o, aad[p:p + c], Z(c))
            p += c
        p, out = 0, []
        for c in tc:
            b = ctypes.create_string_buffer(c + 1)
            g('dec' if dec else 'enc')(o, text[p:p + c], Z(c), b)
            out.append(b.raw[:c])
            p += c
        tags = []
        for rep in (1, 2):
            b = ctypes.create_string_buffer(16)
            g('dig')(o, b, Z(16))
            tags.append(b.raw)
        return b''.join(out), tags[0], tags[1]

    def small(n):
        s = 61 if n < 100000 else 4093
        return [s] * (n // s) + [n % s]
    for name, (a1, a2, c1, c2) in hist:
        for dec in (False, True):
            for at, tt in [([], [])] + [([k], []) for k in (1, 5, 15, 16, 17)] + [([], [k]) for k in list(range(1, 18)) + [63, 64, 65, 511, 513, 1100]] + [([3], [600, 5])]:
                ac, tc = [a1, a2] + at, [c1, c2] + tt
                key, iv, aad, text = rnd.randbytes(32), rnd.randbytes(12), rnd.randbytes(sum(ac)), rnd.randbytes(sum(tc))
                r = run(key, iv, ac, tc, aad, text, dec)
                q = run(key, iv, small(len(aad)), small(len(text)), aad, text, dec)
                cases += 1
                want = None
                if len(aad) + len(text) < 6000:
                    w = reference(key, iv, aad, text, dec)
                    want = (w[0], w[1], w[1])
                if r != q or want and r != want:
                    return cases, [{'key': key.hex(), 'iv': iv.hex(), 'aad_calls': ac, 'text_calls': tc, 'decrypt': dec, 'aad': aad.hex()[:300], 'text': text.hex()[:300],
                                    'tags': [r[1].hex(), r[2].hex()], 'expected': (want or q)[1].hex()}], 'python model'
    return cases, [], 'real library against a python ChaCha20-Poly1305 and independence of the chunking'


def deep(chk):
    """amounts of associated data and text beyond 2^16, 2^24 and 2^32: zero data, decrypted, so that the tag has a closed form"""
    import bigmem
    Z = ctypes.c_size_t
    lib = ctypes.CDLL(build.native(NSRC, 'aead_' + chk.pid))
    g = lambda f: getattr(lib, 'a_default_' + f)
    for f in ('sizeof', 'enc', 'dec', 'dig'):
        g(f).restype = Z
    size = g('sizeof')()
    rnd = random.Random(core.SEED + 8)
    CH = 1 << 26
    dst = ctypes.create_string_buffer(CH)
    src = bigmem.Big(CH, rnd, 0)
    n = 0
    for an, cn in ((65536 + 5, 21), (21, 65536 + 5), ((1 << 24) + 5, 3), (3, (1 << 24) + 5), ((1 << 29) + 5, 3), (3, (1 << 29) + 5), ((1 << 32) + 21, 40), (40, (1 << 32) + 21)):
        key, iv = rnd.randbytes(32), rnd.randbytes(12)
        o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
        g('init')(o, key, Z(32), iv, Z(12))
        aad = bigmem.Big(an, rnd)
        g('aad')(o, aad.at(), Z(an))
        p = 0
        while p < cn:
            k = min(CH, cn - p)
            g('dec')(o, src.at(), Z(k), dst)
            p += k
        buf = ctypes.create_string_buffer(16)
        g('dig')(o, buf, Z(16))
        ks = c_ciphers.keystream(key, bytes(4) + iv, 64)
        want = bigmem.poly(ks[:32], [aad.head, ('z', aad.zeros), aad.tail, bytes(-an % 16), ('z', cn + -cn % 16), an.to_bytes(8, 'little') + cn.to_bytes(8, 'little')])
        n += 1
        if buf.raw != want:
            return n, [{'key': key.hex(), 'iv': iv.hex(), 'aad_size': an, 'aad': aad.head[:32].hex() + '... then zeros, then ...' + aad.tail[-32:].hex(), 'ciphertext': '%d zero bytes' % cn, 'tag': buf.raw.hex(), 'expected': want.hex()}], ''
    return n, [], 'real library against a python ChaCha20-Poly1305 in closed form, 2^32 + 21 bytes of associated data or text'


TSRC = """
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/detail/alias.h>
#include <cstdio>
using namespace milo; using namespace milo::primitive;
using C = aead::apie<aead::chacha_20_poly_1305<>>;
extern "C" __attribute__((noinline)) int v_call(C* o, const uint8_t* p){ error e; o->verify(p, 16, e); return e ? 1 : 0; }
int main(){
  uint8_t k[32], v[12], a[20], m[70], c[70], tag[16]; unsigned x = %d;
  auto rnd = [&]{ x = x * 1664525u + 1013904223u; return uint8_t(x >> 24); };
  for (auto& y : k) y = rnd(); for (auto& y : v) y = rnd(); for (auto& y : a) y = rnd(); for (auto& y : m) y = rnd();
  for (int i = -1; i < 40; i++) {
    C e, d; e.initialize(k, 32, v, 12); e.aad(a, 20); e.encrypt(m, 70, c); e.digest(tag, 16);
    d.initialize(k, 32, v, 12); d.aad(a, 20); d.decrypt(c, 70, m);
    int f = i < 0 ? 15 : i < 16 ? i : i < 32 ? i - 16 : 0;
    if (i >= 0) { tag[f] ^= i < 16 ? 1 : 0x80; if (i >= 32) for (int j = 0; j < 16; j++) tag[j] = rnd(); else for (int j = f + 1; j < 16; j++) tag[j] = rnd(); }
    if (i < 0) tag[15] ^= 2;
    int r = v_call(&d, tag);
    std::printf("%%d %%d\\n", f, r);
  }
}
"""


def timing(chk):
    """instructions executed by verify (g++ code under callgrind) for wrong tags that first differ in byte j"""
    import glob
    import os
    import re
    import subprocess
    n = 0
    fails = []
    for flags in (('-O2',), ('-O0',)) if core.TIER == 'quick' else (('-O2',), ('-O3',), ('-Os',), ('-O0',)):
        exe = build.native(TSRC % (core.SEED + 5), 'timing' + flags[0][1:], shared=False, flags=flags)
        base = exe + '.cg'
        r = subprocess.run(['valgrind', '--tool=callgrind', '--callgrind-out-file=' + base, '--dump-after=v_call', '--toggle-collect=v_call', exe], capture_output=True, text=True, timeout=200)
        rows = [[int(y) for y in l.split()] for l in r.stdout.split('\n') if l.strip()]
        cost = []
        for i in range(len(rows)):
            p = '%s.%d' % (base, i + 1)
            mt = re.search(r'^totals: (\d+)', open(p).read(), re.M)
            cost.append(int(mt.group(1)))
        for p in glob.glob(base + '*'):
            os.unlink(p)
        n += len(rows)
        if len(rows) != 41 or not any(cost):
            raise Exception('callgrind gave %d rows' % len(rows))
        if len(set(cost)) != 1:
            fails.append({'what': 'instructions executed by verify of a wrong tag depend on where it differs', 'flags': flags, 'first wrong byte : instructions': [[a[0], c] for a, c in zip(rows, cost)]})
    return n, fails, 'instruction counts of verify under callgrind for wrong tags by position of the first wrong byte, g++ ' + ('-O2 -O0' if core.TIER == 'quick' else '-O0 -Os -O2 -O3')


ASSUME = ['associated data and text below 2^57 bytes; input and output identical or disjoint; buffers disjoint from the object',
          'all associated data is given before the first text call and before digest or verify, as the interface says']
TRUST = ['irvc IR semantics', 'irvc term normaliser (fuzzed)', 'z3', 'clang++-18 / opt-18', 'the ghost cipher and mac contracts (proved for the real ones by S01, M02, M03)']


def module(chk, consteval=False, tag='', **kw):
    for one in (ONE, ''):
        try:
            return irparse.parse(build.ir(SRC.replace('%(one)s', one), consteval=consteval, **kw)), bool(one)
        except Exception as e:
            chk.fail_early('ir %s%s' % ('with one-shot forms' if one else '', tag), repr(e)[:600])
    return None, False


def add_a01(chk, m, one, tag=''):
    chk.ob('wiring of the public alias' + tag, wiring, m)
    for f1, f2 in (('@h_aad', '@h_aad'), ('@h_aadc', '@h_aadb')):
        chk.ob('associated data in pieces %s %s%s' % (f1, f2, tag), aad_split, m, f1, f2)
    for x in ('enc', 'dec'):
        for ip in (False, True):
            chk.ob('%s in pieces%s%s' % (x, ' in place' if ip else '', tag), enc_split, m, '@h_' + x, '@h_' + x, ip)
    for a in (True, False):
        for x in (None, '@h_enc', '@h_dec', '@h_encb', '@h_decb', '@h_encr', '@h_decr'):
            chk.ob('tag%s after %s%s' % ('' if a else ' without aad', x, tag), seal, m, a, x)
    for d in ('@h_dig', '@h_digc', '@h_digl', '@h_digb', '@h_digr', '@h_digs'):
        chk.ob('tag form %s%s' % (d, tag), seal, m, True, '@h_enc', 32, 12, '@h_init', d, [16] if d == '@h_digs' else [None] + list(range(17)))
    chk.ob('key and iv material' + tag, material, m)
    if one:
        for f in ('o_enc', 'o_encb', 'o_encr'):
            chk.ob('one-shot %s%s' % (f, tag), oneshot, m, f)


def add_a02(chk, m, one, tag=''):
    for f in ('@v_err', '@v_thr', '@v_berr', '@v_bthr'):
        for after in ('text', 'digest', 'init', 'aad'):
            for sz in ([16], list(range(16)), [None]):
                chk.ob('%s after %s, %s bytes%s' % (f, after, '16' if sz == [16] else 'fewer' if sz[0] == 0 else 'more', tag), verify, m, f, sz, after)
    for f in ('o_dec', 'o_dect', 'o_decb', 'o_decbt', 'o_decr', 'o_decrt', 'o_decs', 'o_decst') if one else ():
        chk.ob('one-shot %s%s' % (f, tag), oneshot, m, f)


def main(pid):
    chk = core.Check(pid, assumptions=ASSUME, trusted=TRUST)
    m, one = module(chk)
    if m is not None:
        if pid == 'A01':
            add_a01(chk, m, one)
        elif pid == 'A02':
            add_a02(chk, m, one)
        else:
            for nm, kw in (('front end', {}), ('-O2', dict(prepass=False, optlevel='-O2', defs=['-fno-vectorize', '-fno-slp-vectorize', '-mllvm', '-vectorize-loops=false', '-mllvm', '-vectorize-slp=false'])), ('-Os', dict(prepass=False, optlevel='-Os', defs=['-fno-vectorize', '-fno-slp-vectorize', '-mllvm', '-disable-vector-combine']))):
                mm = m
                if kw:
                    try:
                        mm = irparse.parse(build.ir(SRC.replace('%(one)s', ''), **kw))
                    except Exception as e:
                        chk.fail_early('ir ' + nm, repr(e)[:600])
                        continue
                for f in ('@v_err', '@v_thr'):
                    chk.ob('%s %s' % (nm, f), ctime, mm, f, list(range(17)) + [None])
    if pid != 'A03':
        chk.differential('aead', diff, pid)
        chk.replay = replay
        chk.deep.append(deep)
    else:
        chk.differential('instruction counts', timing)
    return chk.finish()
