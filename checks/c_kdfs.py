"""K01, K02: HKDF and PBKDF2 over an abstract HMAC"""
import ctypes
import hashlib
import hmac as pyhmac
import random

import build
import c_ciphers
import core
import execu
import ghost
import guarded
import hashth
import irparse
import terms as t
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from hashth import must_equal
from terms import const

SIZES = [20, 28, 32, 48, 64]
SRC = '''
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/detail/alias.h>
#include <new>
using namespace milo; using namespace milo::primitive;
''' + ghost.GBOX + '''
extern "C" { void g_init(void*, const uint8_t*, size_t); void g_upd(void*, const uint8_t*, size_t); void g_fin(void*); size_t g_dig(const void*, uint8_t*, size_t); }
struct gmac {
  struct properties { using mac = int; using mac_hmac = int; using prf = int; };
  static constexpr size_t key_size = 0, digest_size = %(hs)d;
  uint64_t s[4];
  template<meta::byte K> constexpr auto initialize(const K* k, size_t n) noexcept(true) -> void { g_init(this, (const uint8_t*)k, n); }
  template<meta::byte M> constexpr auto update(const M* p, size_t n) noexcept(true) -> void { g_upd(this, (const uint8_t*)p, n); }
  constexpr auto finalize() noexcept(true) -> void { g_fin(this); }
  template<meta::byte D> constexpr auto digest(D* p, size_t n = digest_size) const noexcept(true) -> size_t { return g_dig(this, (uint8_t*)p, n); }
};
using T = %(kdf)s<gmac>;
using C = kdf::apie<T>;
using B = gbox<uint8_t>;
#if HK
#define PA(C) const C* k, size_t kn, const C* s, size_t sn, const C* x, size_t xn
#define AA k, kn, s, sn, x, xn
#define PB const B* k, const B* s, const B* x
#define AB *k, *s, *x
#else
#define PA(C) const C* k, size_t kn, const C* s, size_t sn, uint32_t x
#define AA k, kn, s, sn, x
#define PB const B* k, const B* s, uint32_t x
#define AB *k, *s, x
#endif
extern "C" {
size_t h_sizeof(){ return sizeof(C); }
void h_def(C* o){ new (o) C(); }
void h_init(C* o, PA(uint8_t)){ o->initialize(AA); }
void h_initc(C* o, PA(char)){ o->initialize(AA); }
void h_initb(C* o, PB){ o->initialize(AB); }
void h_ctor(C* o, PA(uint8_t)){ new (o) C(AA); }
void h_ctorb(C* o, PB){ new (o) C(AB); }
size_t h_der(C* o, uint8_t* p, size_t n){ return o->derive(p, n); }
size_t h_derc(C* o, char* p, size_t n){ return o->derive(p, n); }
size_t h_dera(C* o, std::array<uint8_t,100>* a, size_t n){ return o->derive(*a, n); }
size_t h_derb(C* o, B* a, size_t n){ return o->derive(*a, n); }
size_t h_derr(C* o, B* a, size_t n){ *a = o->template derive<B>(n); return a->n; }
size_t h_ders(C* o, uint8_t* p){ auto r = o->template derive<std::array<uint8_t,70>>(); __builtin_memcpy(p, r.data(), r.size()); return r.size(); }
size_t o_ptr(PA(uint8_t), uint8_t* d, size_t n){ return kdf::derive<T>(AA, d, n); }
size_t o_box(PB, B* d, size_t n){ return kdf::derive<T>(AB, *d, n); }
size_t o_ret(PB, B* d, size_t n){ *d = kdf::derive<T, B>(AB, n); return d->n; }
size_t o_std(PB, uint8_t* d){ auto r = kdf::derive<T, std::array<uint8_t,70>>(AB); __builtin_memcpy(d, r.data(), r.size()); return r.size(); }
}'''

WIRE = '''
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/detail/alias.h>
#include <type_traits>
using namespace milo; using namespace milo::primitive;
extern "C" bool h_wiring(){ return true
%s; }'''

HASHES = [('sha_1_160', 20), ('sha_2_224', 28), ('sha_2_256', 32), ('sha_2_384', 48), ('sha_2_512', 64), ('sha_2_512_224', 28), ('sha_2_512_256', 32)]
PY = {'sha_1_160': 'sha1', 'sha_2_224': 'sha224', 'sha_2_256': 'sha256', 'sha_2_384': 'sha384', 'sha_2_512': 'sha512', 'sha_2_512_224': 'sha512_224', 'sha_2_512_256': 'sha512_256'}
MAXN = 1 << 40
IKM = lambda o: t.app('ikm', 8, (o,))
SALT = lambda o: t.app('salt', 8, (o,))
INFO = lambda o: t.app('info', 8, (o,))
PRK = lambda o: t.app('PRK', 8, (o,))
OKM = lambda p: t.app('OKM', 8, (p,))
XS = lambda u, p: t.app('X', 8, (u, p))
c64 = lambda v: const(v, 64)
NONE, EXTR, EXP0, EXPP, EXPI, DONE, FINX, FINP = range(8)


def unwrap(c):
    """the 64 bit linear term whose low bits are the linear term c"""
    if c.op == 'c':
        return c64(c.a[0])
    if c.op == '+':
        r = c64(c.a[0])
        for x, k in c.a[1]:
            r = t.add(r, t.mulc(unwrap(x), t.sgn(k, c.w) & ((1 << 64) - 1)))
        return r
    if c.op == 'x' and c.a[1] == 0 and c.a[0].w == 64:
        return c.a[0]
    return t.zext(c, 64)


class Mac:
    """what both contracts share"""

    def __init__(self, hs, kn, sn, xn):
        self.hs, self.kn, self.sn, self.xn = hs, kn, sn, xn

    def install(self, ex):
        for f in ('init', 'upd', 'fin', 'dig'):
            ex.hooks['@g_' + f] = getattr(self, 'h_' + f)
        ex.hooks['@ghost_resize'] = ghost.resize_hook

    def ld(self, ex, st, p, i):
        return ex.load(st, Ptr(p.obj, t.add(p.off, c64(8 * i))), 8)

    def sv(self, ex, st, p, *vs):
        for i, v in enumerate(vs):
            ex.store(st, Ptr(p.obj, t.add(p.off, c64(8 * i))), v if not isinstance(v, int) else c64(v), 8)

    def stage(self, ex, st, o, ok, what):
        k = self.ld(ex, st, o, 0)
        if k.op != 'c' or k.a[0] not in ok:
            raise Refuted('%s in state %s' % (what, t.show(k)))
        return k.a[0]

    def src(self, ex, st, p, n, what):
        """pointer checked readable; None when there is nothing to read"""
        if ex.decide(st, t.eq(n, c64(0))) is True:
            return None
        if not isinstance(p, Ptr) or p.obj not in st.objs:
            if ex.decide(st, t.eq(n, c64(0))) is not False and not isinstance(p, Ptr):
                raise NotProved('%s: pointer %r' % (what, p))
            raise Refuted('%s: dead or null memory' % what)
        ex.range_in(st, st.objs[p.obj], p.off, n, False)
        return p

    def at(self, ex, st, p, i):
        return ex.byte(st, Ptr(p.obj, t.add(p.off, i)))

    def whole(self, ex, st, p, n, f, start, what):
        """all n bytes at p are f(start + i)"""
        ex.oblig += 1
        i = t.fresh('i', 64, 0, 1 << 60)
        s2 = st.fork()
        if s2.assume(t.ult(i, n)):
            old, ex.cur = ex.cur, s2
            v = self.at(ex, s2, p, i)
            ex.cur = old
            c_ciphers.split_equal(ex, s2, v, f(t.add(start, i)), what)

    def put(self, ex, st, p, n, f):
        """the digest bytes: f(0..hs)"""
        if n.op != 'c' or n.a[0] > self.hs:
            raise NotProved('digest size ' + t.show(n))
        k = n.a[0]
        ob = st.objs.get(p.obj)
        if ob is None:
            raise Refuted('digest written to dead memory')
        ex.range_in(st, ob, p.off, n, True)
        if p.off.op == 'c' or st.log is not None:
            for x in range(k):
                ex.store(st, Ptr(p.obj, t.add(p.off, c64(x))), f(c64(x)), 1)
        else:
            c_ciphers.put_range(ex, st, p, n, lambda i: (f(i), 0))
        return n


class Hkdf(Mac):
    def h_init(self, ex, st, a):
        o, p, n = a
        if n.op == 'c' and n.a[0] == self.hs:
            for x in range(self.hs):
                must_equal(ex, st, self.at(ex, st, p, c64(x)), PRK(c64(x)), 'byte %d of the expansion key' % x)
            self.sv(ex, st, o, EXP0, 0, 0, 0)
            return None
        must_equal(ex, st, n, self.sn, 'size of the extraction key')
        q = self.src(ex, st, p, n, 'extraction key')
        if q is not None:
            self.whole(ex, st, q, n, SALT, c64(0), 'extraction key byte i')
        self.sv(ex, st, o, EXTR, 0, 0, 0)
        return None

    def h_upd(self, ex, st, a):
        o, p, n = a
        k = self.stage(ex, st, o, (EXTR, EXP0, EXPP, EXPI), 'HMAC update')
        if n.op == 'ite' and ex.decide(st, n.a[0]) is not None:
            n = n.a[1] if ex.decide(st, n.a[0]) else n.a[2]
        q = self.src(ex, st, p, n, 'HMAC input')
        if q is None:
            return None
        ln, prev, j = self.ld(ex, st, o, 1), self.ld(ex, st, o, 2), self.ld(ex, st, o, 3)
        if k == EXTR:
            self.whole(ex, st, q, n, IKM, ln, 'extraction input byte')
            self.sv(ex, st, o, EXTR, t.add(ln, n), 0, 0)
            return None
        if n.op == 'c' and n.a[0] == self.hs and k == EXP0:
            v = self.at(ex, st, q, c64(0))
            if v.op == 'app' and v.a[0] == 'OKM':
                b = v.a[2]
                for x in range(1, self.hs):
                    must_equal(ex, st, self.at(ex, st, q, c64(x)), OKM(t.add(b, c64(x))), 'byte %d of the previous block' % x)
                ex.oblig += 1
                self.sv(ex, st, o, EXPP, 0, b, 0)
                return None
            raise Refuted('previous block starts with %s' % t.show(v))
        if n.op == 'c' and n.a[0] == 1:
            if not ex.decide(st, t.eq(ln, self.xn)):
                must_equal(ex, st, ln, self.xn, 'info bytes before the counter')
            jj = unwrap(self.at(ex, st, q, c64(0)))
            if ex.decide(st, t.and_(t.ule(c64(1), jj), t.ule(jj, c64(256)))) is not True:
                raise NotProved('counter byte %s' % t.show(jj))
            if k in (EXP0, EXPI) and prev.op == 'c' and prev.a[0] == (1 << 64) - 1 or k == EXP0:
                must_equal(ex, st, jj, c64(1), 'counter of a block without previous block')
            else:
                must_equal(ex, st, prev, t.mulc(t.sub(jj, c64(2)), self.hs), 'position of the previous block')
            self.sv(ex, st, o, DONE, 0, 0, jj)
            return None
        # info
        self.whole(ex, st, q, n, INFO, ln, 'info byte')
        self.sv(ex, st, o, EXPI, t.add(ln, n), (1 << 64) - 1 if k == EXP0 else prev, 0)
        return None

    def h_fin(self, ex, st, a):
        k = self.stage(ex, st, a[0], (EXTR, DONE), 'HMAC finalized')
        if k == EXTR:
            must_equal(ex, st, self.ld(ex, st, a[0], 1), self.kn, 'number of extraction input bytes')
            self.sv(ex, st, a[0], FINX)
        else:
            self.sv(ex, st, a[0], FINP)

    def h_dig(self, ex, st, a):
        k = self.stage(ex, st, a[0], (FINX, FINP), 'HMAC digest')
        if k == FINX:
            return self.put(ex, st, a[1], a[2], PRK)
        b = t.mulc(t.sub(self.ld(ex, st, a[0], 3), c64(1)), self.hs)
        return self.put(ex, st, a[1], a[2], lambda x: OKM(t.add(b, x)))


class Pbkdf2(Mac):
    """X(u, p) is byte p of U_1 ^ ... ^ U_u, offset by an arbitrary X(0, p)"""

    def U(self, u, p):
        return t.xor(XS(u, p), XS(t.sub(u, c64(1)), p))

    def h_init(self, ex, st, a):
        o, p, n = a
        must_equal(ex, st, n, self.kn, 'size of the PRF key')
        q = self.src(ex, st, p, n, 'PRF key')
        if q is not None:
            self.whole(ex, st, q, n, IKM, c64(0), 'PRF key byte i')
        self.sv(ex, st, o, EXP0, 0, 0, 0)

    def h_upd(self, ex, st, a):
        o, p, n = a
        k = self.stage(ex, st, o, (EXP0, EXPI), 'PRF update')
        q = self.src(ex, st, p, n, 'PRF input')
        if q is None:
            return None
        ln = self.ld(ex, st, o, 1)
        if n.op == 'c' and n.a[0] == 4:
            if not ex.decide(st, t.eq(ln, self.sn)):
                must_equal(ex, st, ln, self.sn, 'salt bytes before the block number')
            w = t.cat([self.at(ex, st, q, c64(3 - x)) for x in range(4)])
            jj = unwrap(w)
            if ex.decide(st, t.and_(t.ule(c64(1), jj), t.ule(jj, c64((1 << 32) - 1)))) is not True:
                raise NotProved('block number %s' % t.show(jj))
            self.sv(ex, st, o, DONE, 0, 1, t.mulc(t.sub(jj, c64(1)), self.hs))
            return None
        if n.op == 'c' and n.a[0] == self.hs and k == EXP0:
            v = self.at(ex, st, q, c64(0))
            u, b = self.which(v)
            for x in range(self.hs):
                must_equal(ex, st, self.at(ex, st, q, c64(x)), self.U(u, t.add(b, c64(x))), 'byte %d of the previous PRF output' % x)
            self.sv(ex, st, o, DONE, 0, t.add(u, c64(1)), b)
            return None
        self.whole(ex, st, q, n, SALT, ln, 'salt byte')
        self.sv(ex, st, o, EXPI, t.add(ln, n), 0, 0)
        return None

    def which(self, v):
        if v.op == '^':
            for l in t.leaves(v):
                if l.op == 'app' and l.a[0] == 'X' and v is self.U(l.a[2], l.a[3]):
                    return l.a[2], l.a[3]
        raise Refuted('PRF input starts with %s' % t.show(v))

    def h_fin(self, ex, st, a):
        self.stage(ex, st, a[0], (DONE,), 'PRF finalized')
        self.sv(ex, st, a[0], FINP)

    def h_dig(self, ex, st, a):
        self.stage(ex, st, a[0], (FINP,), 'PRF digest')
        u, b = self.ld(ex, st, a[0], 2), self.ld(ex, st, a[0], 3)
        return self.put(ex, st, a[1], a[2], lambda x: self.U(u, t.add(b, x)))


class Kdf:
    """one property: IR module, ghost, object and inputs"""

    def __init__(self, mod, pid, hs):
        self.mod, self.pid, self.hs = mod, pid, hs
        # constant evaluation: initialize() releases the inputs the object owns, so it needs a constructed object
        self.owning = hasattr(mod, 'owning')
        self.kn, self.sn, self.xn = t.var('kn', 64, 0, MAXN), t.var('sn', 64, 0, MAXN), t.var('xn', 64, 0, MAXN)
        self.max = 255 if pid == 'K01' else (1 << 32) - 1

    def begin(self):
        g = (Hkdf if self.pid == 'K01' else Pbkdf2)(self.hs, self.kn, self.sn, self.xn)
        ex = Exec(self.mod)
        g.install(ex)
        st = State()
        self.size = hashth.const_ret(self.mod, '@h_sizeof')
        K = st.new('kk', self.kn, base=IKM, writable=False)
        S = st.new('ss', self.sn, base=SALT, writable=False)
        self.it = t.var('it', 32, 1, (1 << 32) - 1)
        self.args = [K, self.kn, S, self.sn]
        if self.pid == 'K01':
            self.args += [st.new('xx', self.xn, base=INFO, writable=False), self.xn]
        else:
            self.args += [self.it]
        return ex, st

    def byte(self, p):
        if self.pid == 'K01':
            return OKM(p)
        return t.xor(XS(t.zext(self.it, 64), p), XS(c64(0), p))

    def init(self, ex, sts, f, o, boxed=None):
        if self.owning and f.startswith('@h_init'):
            sts = hashth.paths(ex, sts, '@h_def', [o])
            for s in sts:
                # any other member may hold anything
                ex.cur = s
                for x in range(self.size):
                    p = Ptr(o.obj, c64(x))
                    if isinstance(ex.cell(s, s.objs[o.obj], s.mem[o.obj], p.off)[0], t.T):
                        ex.store(s, p, t.app('undef.' + o.obj, 8, (c64(x),)), 1)
        if f in ('@h_initb', '@h_ctorb'):
            return hashth.paths(ex, sts, f, [o] + self.boxes(ex, sts[0]))
        return hashth.paths(ex, sts, f, [o] + self.args)

    def boxes(self, ex, st):
        a = self.args
        r = [ghost.box(ex, st, 'kb', a[0], a[1]), ghost.box(ex, st, 'sb', a[2], a[3])]
        return r + ([ghost.box(ex, st, 'xb', a[4], a[5])] if self.pid == 'K01' else [a[4]])

    def derive(self, ex, sts, o, n, nm, f='@h_der'):
        out = []
        for s in sts:
            d = s.new(nm, n)
            for r in hashth.paths(ex, [s], f, [o, d, n]):
                must_equal(ex, r, r.out[1], n, 'derive return value')
                out.append(r)
        return out


def lin(q, hs, r):
    return t.add(t.mulc(q, hs), r)


def history(k, D, N):
    """(bytes derived before: q blocks + r, pieces of the request: within | m blocks + r2)"""
    hs = k.hs
    q = t.add(t.var('q', 64, 0, k.max - 1), c64(1)) if D in ('whole', 'both', 'drained') else c64(0)
    r = t.var('r', 64, 1, hs - 1) if D in ('part', 'both') else c64(0)
    m = t.add(t.var('m', 64, 0, k.max - 1), c64(1)) if N in ('blocks', 'blocks and part') else c64(0)
    r2 = t.var('r2', 64, 1, hs - 1) if N in ('within', 'part', 'blocks and part') else c64(0)
    pc = []
    if N == 'nothing':
        n, q2, r3 = c64(0), q, r
    elif N == 'within':
        n = t.sub(r2, r)
        pc.append(t.ult(r, r2))
        q2, r3 = q, r2
    else:
        lead = t.sub(c64(hs), r) if D in ('part', 'both') else c64(0)
        n = t.add(lead, lin(m, hs, r2))
        q2 = t.add(t.add(q, m), c64(1 if D in ('part', 'both') else 0))
        r3 = r2
    used = t.add(q2, c64(0 if r3.op == 'c' else 1))
    pc.append(t.ule(used, c64(k.max)))
    return q, r, m, r2, n, q2, r3, pc


def step(mod, pid, hs, D, N):
    """after any history of D bytes, derive(n) returns bytes D..D+n and leaves the state of a history of D+n bytes"""
    k = Kdf(mod, pid, hs)
    q, r, m, r2, n, q2, r3, pc = history(k, D, N)
    ex, st = k.begin()
    for c in pc:
        if not st.assume(c):
            return {'obligations': 1}
    o = st.new('obj', k.size)
    sts = k.init(ex, [st], '@h_init', o)
    tot = lin(q, hs, r)
    if D == 'drained':
        sts = k.derive(ex, sts, o, t.sub(tot, c64(1)), 'p1')
        sts = k.derive(ex, sts, o, c64(1), 'p2')
    elif D != 'fresh':
        sts = k.derive(ex, sts, o, tot, 'p1')
    sts = k.derive(ex, sts, o, n, 'out')
    if not sts:
        raise NotProved('vacuous')
    cnt = 0
    for s in sts:
        cnt += output(ex, k, s, 'out', q, r, m, r2, n, N)
        cnt += landed(ex, k, s, o, lin(q2, hs, r3), r3.op == 'c')
    return {'obligations': cnt}


def output(ex, k, s0, nm, q, r, m, r2, n, N):
    """every byte i < n of the output is byte q*hs + r + i of the key stream"""
    hs = k.hs
    cnt = 0

    def look(conds, i, p, what):
        h = s0.fork()
        if not all(h.assume(c) for c in conds + [t.ult(i, n)]) or hashth.infeasible_pc(h):
            return 0
        old, ex.cur = ex.cur, h
        v = ex.byte(h, Ptr(nm, i))
        c_ciphers.split_equal(ex, h, v, k.byte(p), what)
        ex.cur = old
        return 1
    lead = r.op != 'c'
    if lead:
        # rest of the started block
        for y in range(1, hs):
            cnt += look([t.ule(r, c64(y))], t.sub(c64(y), r), lin(q, hs, c64(y)), 'byte %d of the started block' % y)
    if N in ('nothing', 'within') and lead:
        return cnt
    b = t.sub(c64(hs), r) if lead else c64(0)
    qb = t.add(q, c64(1 if lead else 0))
    j = t.add(t.var('j', 64, 0, k.max), c64(1))
    for x in range(hs):
        if m.op != 'c':
            # first, general and last whole block
            cnt += look([], t.add(b, c64(x)), lin(qb, hs, c64(x)), 'byte %d of the first block' % x)
            cnt += look([t.ult(j, m)], t.add(b, lin(j, hs, c64(x))), lin(t.add(qb, j), hs, c64(x)), 'byte %d of block j' % x)
        cnt += look([t.ult(c64(x), r2)], t.add(b, lin(m, hs, c64(x))), lin(t.add(qb, m), hs, c64(x)), 'byte %d of the last block' % x)
    return cnt


def landed(ex, k, s, o, tot, even):
    """the object is in the state of one derive(tot) on a fresh object, or of derive(tot - 1), derive(1)"""
    if tot.op == 'c' and tot.a[0] == 0:
        variants = [()]
    else:
        variants = [(tot,)] + ([(t.sub(tot, c64(1)), c64(1))] if even else [])
    last = None
    for v in variants:
        h = s.fork()
        ref = h.new('ref', k.size)
        sts = k.init(ex, [h], '@h_init', ref)
        for i, x in enumerate(v):
            sts = k.derive(ex, sts, ref, x, 'v%d' % i)
        if not sts:
            continue
        try:
            n = 0
            for u in sts:
                ex.cur = u
                n += hashth.compare_objects(ex, u, 'ref', o.obj, k.size, 'state')
            if not n:
                raise NotProved('vacuous')
            return n
        except (Refuted, NotProved) as e:
            last = e
    raise NotProved('state after the call is not that of a single call: %s' % last)


def form(mod, pid, hs, init, der):
    """constructors, containers, one-shot functions: bytes 0..n"""
    k = Kdf(mod, pid, hs)
    n = 0
    fixed = {'@h_ders': 70, '@o_std': 70, '@h_dera': 100}.get(der)
    for N in ('nothing', 'part', 'blocks', 'blocks and part'):
        q, r, m, r2, ln, q2, r3, pc = history(k, 'fresh', N)
        if fixed:
            # static container: all lengths up to its size, or anything larger
            if N == 'nothing':
                m, r2 = c64(fixed // hs), c64(fixed % hs)
                ln, pc = c64(fixed), []
            elif der != '@h_dera':
                continue
            else:
                pc = pc + [t.ule(ln, c64(fixed))]
        ex, st = k.begin()
        if not all(st.assume(c) for c in pc):
            continue
        sts = [st]
        if der.startswith('@o_'):
            args = list(k.args) if der == '@o_ptr' else k.boxes(ex, st)
        else:
            o = st.new('obj', k.size)
            sts = k.init(ex, sts, init, o)
            args = [o]
        for s in sts:
            s.events = []
            nm = 'dd'
            if der in ('@h_derb', '@h_derr', '@o_box', '@o_ret'):
                a, nm = args + [ghost.box(ex, s, 'tb', None, c64(0)), ln], 'grown'
            elif der in ('@h_ders', '@o_std'):
                a = args + [s.new('dd', fixed)]
            elif der == '@h_dera':
                big = t.var('big', 64, fixed, (1 << 64) - 1) if N == 'nothing' else ln
                a = args + [s.new('dd', fixed), big]
            else:
                a = args + [s.new('dd', ln), ln]
            for u in hashth.paths(ex, [s], der, a):
                must_equal(ex, u, u.out[1], ln, 'return value')
                for e in [e[1] for e in u.events if e[0] == 'resize']:
                    must_equal(ex, u, e, ln, 'container size')
                if ln.op == 'c' and ln.a[0] == 0:
                    n += 1
                    continue
                if ln.op == 'c':
                    for i in range(ln.a[0]):
                        n += 1
                        c_ciphers.split_equal(ex, u, ex.byte(u, Ptr(nm, c64(i))), k.byte(c64(i)), 'byte %d' % i)
                    continue
                n += output(ex, k, u, nm, q, r, m, r2, ln, N)
    if not n:
        raise NotProved('vacuous')
    return {'obligations': n}


def alias(pid):
    rows = []
    for h, d in HASHES:
        if pid == 'K01':
            rows.append('&& std::is_same_v<typename kdf_hkdf_hmac_%s::hmac_type, mac_hmac_%s> && mac_hmac_%s::digest_size == %d' % (h, h, h, d))
        else:
            rows.append('&& std::is_same_v<typename kdf_pbkdf_2_hmac_%s::prf_type, mac_hmac_%s> && mac_hmac_%s::digest_size == %d' % (h, h, h, d))
    mod = irparse.parse(build.ir(WIRE % '\n'.join(rows)))
    ex = Exec(mod)
    for r in ex.run_function(State(), '@h_wiring', []):
        if r.out[1].op != 'c' or r.out[1].a[0] != 1:
            raise Refuted('a public alias does not use the HMAC it names')
    return {'obligations': 2 * len(HASHES)}


# ------------------------------------------------------------------ concrete

NSRC = '''
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/detail/alias.h>
using namespace milo; using namespace milo::primitive;
#define DEF(N) \\
extern "C" size_t x##N##_sizeof(){ return sizeof(kdf::apie<kdf_hkdf_hmac_##N>); } \\
extern "C" void x##N##_init(kdf::apie<kdf_hkdf_hmac_##N>* o,const uint8_t*k,size_t kn,const uint8_t*s,size_t sn,const uint8_t*x,size_t xn){ o->initialize(k,kn,s,sn,x,xn); } \\
extern "C" size_t x##N##_der(kdf::apie<kdf_hkdf_hmac_##N>* o,uint8_t*d,size_t n){ return o->derive(d,n); } \\
extern "C" size_t p##N##_sizeof(){ return sizeof(kdf::apie<kdf_pbkdf_2_hmac_##N>); } \\
extern "C" void p##N##_init(kdf::apie<kdf_pbkdf_2_hmac_##N>* o,const uint8_t*k,size_t kn,const uint8_t*s,size_t sn,uint32_t x){ o->initialize(k,kn,s,sn,x); } \\
extern "C" size_t p##N##_der(kdf::apie<kdf_pbkdf_2_hmac_##N>* o,uint8_t*d,size_t n){ return o->derive(d,n); }
%s
'''


def hkdf(h, ikm, salt, info, n):
    prk = pyhmac.new(salt, ikm, PY[h]).digest()
    out, b, i = b'', b'', 1
    while len(out) < n:
        b = pyhmac.new(prk, b + info + bytes([i]), PY[h]).digest()
        out += b
        i += 1
    return out[:n]


def diff(chk, pid):
    Z = ctypes.c_size_t
    names = [(h, d) for h, d in HASHES if PY[h] in hashlib.algorithms_available]
    lib = ctypes.CDLL(build.native(NSRC % '\n'.join('DEF(%s)' % h for h, d in names), 'kdf'))
    rnd = random.Random(core.SEED + 31)
    n = 0
    fails = []
    pre = 'x' if pid == 'K01' else 'p'
    reps = 60 if core.TIER == 'quick' else 400
    for h, hs in names:
        g = lambda f: getattr(lib, pre + h + '_' + f)
        g('sizeof').restype = Z
        g('der').restype = Z
        size = g('sizeof')()
        o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
        for rep in range(reps):
            ikm, salt, info = (rnd.randbytes(rnd.choice([0, 1, hs, 64, 65, 128, 129, rnd.randrange(300)])) for _ in range(3))
            it = rnd.choice([1, 1, 2, 3, 5, 17])
            if pid == 'K01':
                tot = 255 * hs if rep == 0 else rnd.choice([hs, 2 * hs, 3 * hs + 1, 254 * hs, rnd.randrange(10 * hs)])
                want = hkdf(h, ikm, salt, info, tot)
                g('init')(o, ikm, Z(len(ikm)), salt, Z(len(salt)), info, Z(len(info)))
            else:
                tot = rnd.choice([300 * hs] * (rep == 0) + [hs, 2 * hs, 3 * hs + 1, rnd.randrange(1, 10 * hs)])
                if rep in (1, 2):
                    it, tot = (66000, hs) if rep == 1 else (257, 2 * hs)
                if rep in (3, 4) and h == 'sha_2_256':
                    it, tot = ((1 << 20) + 3, hs - 1) if rep == 3 else (1, 66000 * hs + 5)
                want = hashlib.pbkdf2_hmac(PY[h], ikm, salt, it, tot)
                g('init')(o, ikm, Z(len(ikm)), salt, Z(len(salt)), it)
            left, cuts = tot, []
            while left and rnd.random() < 0.9:
                c = min(left, rnd.choice([0, 1, hs - 1, hs, hs + 1, 2 * hs, rnd.randrange(1, 4 * hs)]))
                cuts.append(c)
                left -= c
            cuts.append(left)
            got, rets = b'', True
            for c in cuts:
                out = ctypes.create_string_buffer(bytes([0xa5]) * (c + 8), c + 8)
                rets = g('der')(o, out, Z(c)) == c and out.raw[c:] == bytes([0xa5]) * 8 and rets
                got += out.raw[:c]
            n += 1
            if got != want or not rets:
                fails.append({'hmac': h, 'ikm': ikm.hex(), 'salt': salt.hex(), 'info' if pid == 'K01' else 'iterations': info.hex() if pid == 'K01' else it, 'derive_calls': cuts,
                              'first_wrong_byte': next((i for i in range(tot) if got[i] != want[i]), None), 'got': got[:64].hex(), 'expected': want[:64].hex()})
                if len(fails) > 3:
                    return n, fails, 'real KDF against python'
    n, fails = guarded.merge(n, fails, *[guarded.kdf(lib, pre + h, pid == 'K01') for h, hs in names])
    return n, fails, 'real KDF (all hashes) against python hmac / hashlib.pbkdf2_hmac over random sequences of derive calls; buffers between unreadable pages'


ASSUME = ['inputs below 2^40 bytes; buffers disjoint from the object and alive while it is used', 'K01: at most 255 blocks in all (RFC 5869); K02: at most 2^32-1 blocks, at least one iteration (RFC 8018)']
TRUST = ['irvc IR semantics', 'irvc term normaliser (fuzzed)', 'z3', 'clang++-18 / opt-18', 'the ghost HMAC contract (proved for the real HMAC by M01)']
CASES = [('fresh', ('nothing', 'part', 'blocks', 'blocks and part')),
         ('part', ('nothing', 'within', 'upto', 'part', 'blocks', 'blocks and part')),
         ('whole', ('nothing', 'part', 'blocks', 'blocks and part')),
         ('both', ('nothing', 'within', 'upto', 'part', 'blocks', 'blocks and part')),
         ('drained', ('nothing', 'part', 'blocks', 'blocks and part'))]


def add(chk, pid, consteval=False, tag='', sizes=SIZES):
    for hs in sizes:
        try:
            mod = irparse.parse(build.ir('#define HK %d\n' % (pid == 'K01') + SRC % {'hs': hs, 'kdf': 'kdf::hkdf' if pid == 'K01' else 'kdf::pbkdf_2'}, consteval=consteval))
        except Exception as e:
            chk.fail_early('ir digest size %d%s' % (hs, tag), repr(e)[:600])
            continue
        if consteval:
            mod.owning = True
        for D, Ns in CASES:
            for N in Ns:
                chk.ob('digest size %d%s: after %s: %s' % (hs, tag, D, N), step, mod, pid, hs, D, N)
        if hs == 32:
            for f in ('@h_initc', '@h_initb', '@h_ctor', '@h_ctorb'):
                chk.ob('%s%s' % (f, tag), form, mod, pid, hs, f, '@h_derc')
            for f in ('@h_derb', '@h_derr', '@h_ders', '@h_dera', '@o_ptr', '@o_box', '@o_ret', '@o_std'):
                chk.ob('%s%s' % (f, tag), form, mod, pid, hs, '@h_init', f)


def main(pid):
    chk = core.Check(pid, assumptions=ASSUME, trusted=TRUST)
    add(chk, pid)
    chk.ob('public aliases', alias, pid)
    chk.differential('kdf', diff, pid)
    return chk.finish()
