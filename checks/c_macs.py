"""M01: HMAC over an abstract hash"""
import ctypes
import hashlib
import hmac as pyhmac
import random

import build
import c_ciphers
import core
import execu
import ghost
import guarded
import hashth
import irparse
import terms as t
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from hashth import must_equal
from terms import const

SIZES = [(64, 20), (64, 28), (64, 32), (128, 48), (128, 64), (128, 28), (128, 32)]
HASHES = [('sha_1_160', 64, 20), ('sha_2_224', 64, 28), ('sha_2_256', 64, 32), ('sha_2_384', 128, 48), ('sha_2_512', 128, 64), ('sha_2_512_224', 128, 28), ('sha_2_512_256', 128, 32)]

SRC = '''
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/detail/alias.h>
#include <new>
#include <type_traits>
using namespace milo; using namespace milo::primitive;
''' + ghost.GBOX + '''
extern "C" { void g_init(void*); void g_upd(void*, const uint8_t*, size_t); void g_fin(void*); size_t g_dig(const void*, uint8_t*, size_t); }
struct ghash {
  struct properties { using hash = int; };
  static constexpr size_t block_size = %(block)d, digest_size = %(dig)d;
  uint64_t s[2];
  constexpr auto initialize() noexcept(true) -> void { g_init(this); }
  template<meta::byte M> constexpr auto update(const M* p, size_t n) noexcept(true) -> void { g_upd(this, (const uint8_t*)p, n); }
  constexpr auto finalize() noexcept(true) -> void { g_fin(this); }
  template<meta::byte D> constexpr auto digest(D* p, size_t n = digest_size) const noexcept(true) -> size_t { return g_dig(this, (uint8_t*)p, n); }
};
using T = mac::hmac<ghash>;
using C = mac::apie<T>;
using TT = mac::hmac<ghash, option::digest_size<12>>;
using CT = mac::apie<TT>;
using B = gbox<uint8_t>;
extern "C" {
size_t h_sizeof(){ return sizeof(C); }
size_t h_sizes(int i){ return i == 0 ? T::digest_size : i == 1 ? C::digest_size : i == 2 ? TT::digest_size : CT::digest_size; }
void h_init(C* o, const uint8_t* k, size_t n){ o->initialize(k, n); }
void h_initc(C* o, const char* k, size_t n){ o->initialize(k, n); }
void h_initb(C* o, const B* k){ o->initialize(*k); }
void h_ctor(C* o, const uint8_t* k, size_t n){ new (o) C(k, n); }
void h_ctorb(C* o, const B* k){ new (o) C(*k); }
void h_upd(C* o, const uint8_t* p, size_t n){ o->update(p, n); }
void h_updc(C* o, const char* p, size_t n){ o->update(p, n); }
void h_updb(C* o, const B* p){ o->update(*p); }
size_t h_dig(C* o, uint8_t* p, size_t n){ return o->digest(p, n); }
size_t h_digd(C* o, uint8_t* p){ return o->digest(p); }
size_t h_diga(C* o, std::array<uint8_t,8>* a, size_t n){ return o->digest(*a, n); }
size_t h_digl(C* o, std::array<uint8_t,100>* a, size_t n){ return o->digest(*a, n); }
size_t h_digb(C* o, B* a, size_t n){ return o->digest(*a, n); }
size_t h_digr(C* o, B* a, size_t n){ *a = o->template digest<B>(n); return a->n; }
size_t h_digs(C* o, uint8_t* p){ auto r = o->digest(); __builtin_memcpy(p, r.data(), r.size()); return r.size(); }
void t_init(CT* o, const uint8_t* k, size_t n){ o->initialize(k, n); }
void t_upd(CT* o, const uint8_t* p, size_t n){ o->update(p, n); }
size_t t_dig(CT* o, uint8_t* p, size_t n){ return o->digest(p, n); }
size_t o_ptr(const uint8_t* k, size_t kn, const uint8_t* m, size_t n, uint8_t* d, size_t dn){ return mac::digest<T>(k, kn, m, n, d, dn); }
size_t o_box(const B* k, const B* m, B* d, size_t dn){ return mac::digest<T>(*k, *m, *d, dn); }
size_t o_ret(const B* k, const B* m, B* d, size_t dn){ *d = mac::digest<T, B>(*k, *m, dn); return d->n; }
size_t o_std(const B* k, const B* m, uint8_t* d){ auto r = mac::digest<T>(*k, *m); __builtin_memcpy(d, r.data(), r.size()); return r.size(); }
}'''

WIRE = '''
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/detail/alias.h>
#include <type_traits>
using namespace milo; using namespace milo::primitive;
extern "C" bool h_wiring(){ return true
%s; }'''

MAXN = 1 << 56
KEYB = lambda o: t.app('key', 8, (o,))
MSG = lambda o: t.app('msg', 8, (o,))
HKEY = lambda i: t.app('H(key)', 8, (i,))
INNER = lambda i: t.app('H(ipad.msg)', 8, (i,))
MAC = lambda i: t.app('MAC', 8, (i,))
EMPTY, LONG, IN, OUT, FIN = 1, 2, 3, 4, 16


class Ghost:
    """contract of the hash: absorbs, and digests the three strings RFC 2104 hashes"""

    def __init__(self, block, dig, kn, mn):
        self.block, self.dig, self.kn, self.mn = block, dig, kn, mn
        self.long = kn.op != 'c' and t.iv(kn)[0] > block or kn.op == 'c' and kn.a[0] > block

    def install(self, ex):
        for f in ('init', 'upd', 'fin', 'dig'):
            ex.hooks['@g_' + f] = getattr(self, 'h_' + f)
        ex.hooks['@ghost_resize'] = ghost.resize_hook

    def ld(self, ex, st, p, off=0):
        return ex.load(st, Ptr(p.obj, t.add(p.off, const(off, 64))), 8)

    def sv(self, ex, st, p, v, off=0):
        ex.store(st, Ptr(p.obj, t.add(p.off, const(off, 64))), v, 8)

    def kpad(self, i):
        """byte i < block of the block-sized key"""
        if self.long:
            return HKEY(i) if i.a[0] < self.dig else const(0, 8)
        return t.ite(t.ult(i, self.kn), KEYB(i), const(0, 8))

    def region(self, kind):
        """[(length, content)]"""
        if kind == LONG:
            return [(self.kn, KEYB)]
        pad = 0x36 if kind == IN else 0x5c
        head = (const(self.block, 64), lambda i: t.xor(self.kpad(i), const(pad, 8)))
        return [head, (self.mn, MSG)] if kind == IN else [head, (const(self.dig, 64), INNER)]

    def h_init(self, ex, st, a):
        self.sv(ex, st, a[0], const(0, 64))
        self.sv(ex, st, a[0], const(EMPTY, 64), 8)

    def kind(self, ex, st, p):
        """which of the three strings starts with these bytes"""
        v = ex.byte(st, p)
        names = {l.a[0] for l in t.leaves(v) if l.op == 'app'}
        for k in ((LONG, IN, OUT) if self.long else (IN, OUT)):
            w = self.region(k)[0][1](const(0, 64))
            if v is w or ex.decide(st, t.eq(v, w)) is True:
                return k
        raise Refuted('the hash is given a string that starts with %s' % t.show(v))

    def h_upd(self, ex, st, a):
        o, p, n = a
        k = self.ld(ex, st, o, 8)
        if k.op != 'c' or k.a[0] not in (EMPTY, LONG, IN, OUT):
            raise Refuted('hash updated in state %s' % t.show(k))
        if n.op == 'c' and n.a[0] == 0:
            return None
        ob = st.objs.get(p.obj)
        if ob is None:
            raise Refuted('hash given dead memory')
        ex.range_in(st, ob, p.off, n, False)
        l = self.ld(ex, st, o)
        kd = k.a[0]
        if kd == EMPTY:
            kd = self.kind(ex, st, p)
            self.sv(ex, st, o, const(kd, 64), 8)
        done = const(0, 64)
        base = const(0, 64)
        regs = self.region(kd)
        # constant part, byte by byte
        if kd in (IN, OUT) and l.op == 'c' and l.a[0] < self.block:
            if n.op != 'c':
                raise NotProved('update of %s bytes inside the key block' % t.show(n))
            x = 0
            while x < n.a[0] and l.a[0] + x < self.block:
                must_equal(ex, st, ex.byte(st, Ptr(p.obj, t.add(p.off, const(x, 64)))), regs[0][1](const(l.a[0] + x, 64)), '%s key block byte %d' % ('inner' if kd == IN else 'outer', l.a[0] + x))
                x += 1
            done = const(x, 64)
        rest = t.sub(n, done)
        if not (rest.op == 'c' and rest.a[0] == 0):
            pos = t.add(l, done)
            if kd in (IN, OUT):
                pos = t.sub(pos, const(self.block, 64))
            f, ln = regs[-1][1], regs[-1][0]
            ex.oblig += 1
            q = Ptr(p.obj, t.add(p.off, done))
            if rest.op == 'c' and rest.a[0] <= 128:
                for x in range(rest.a[0]):
                    must_equal(ex, st, ex.byte(st, Ptr(q.obj, t.add(q.off, const(x, 64)))), f(t.add(pos, const(x, 64))), 'hash input byte %d' % x)
            else:
                i = t.fresh('i', 64, 0, 1 << 60)
                s2 = st.fork()
                if s2.assume(t.ult(i, rest)):
                    old, ex.cur = ex.cur, s2
                    v = ex.byte(s2, Ptr(q.obj, t.add(q.off, i)))
                    ex.cur = old
                    c_ciphers.split_equal(ex, s2, v, f(t.add(pos, i)), 'hash input byte i')
        self.sv(ex, st, o, t.add(l, n))
        return None

    def h_fin(self, ex, st, a):
        k = self.ld(ex, st, a[0], 8)
        l = self.ld(ex, st, a[0])
        if k.op != 'c' or k.a[0] not in (LONG, IN, OUT):
            raise Refuted('hash finalized in state %s' % t.show(k))
        want = const(0, 64)
        for n, _ in self.region(k.a[0]):
            want = t.add(want, n)
        must_equal(ex, st, l, want, 'length of the hashed string')
        self.sv(ex, st, a[0], const(k.a[0] + FIN, 64), 8)

    def h_dig(self, ex, st, a):
        o, p, n = a
        k = self.ld(ex, st, o, 8)
        if k.op != 'c' or k.a[0] < FIN:
            raise Refuted('hash digest read in state %s' % t.show(k))
        f = {LONG: HKEY, IN: INNER, OUT: MAC}[k.a[0] - FIN]
        if t.iv(n)[0] >= self.dig:
            m = self.dig
        elif n.op == 'c':
            m = n.a[0]
        elif ex.decide(st, t.ult(n, const(self.dig + 1, 64))) is True:
            ex.range_in(st, st.objs[p.obj], p.off, n, True)
            c_ciphers.put_range(ex, st, p, n, f)
            return n
        else:
            raise NotProved('digest size ' + t.show(n))
        for x in range(m):
            ex.store(st, Ptr(p.obj, t.add(p.off, const(x, 64))), f(const(x, 64)), 1)
        return const(m, 64)


def begin(mod, size, kn, mn):
    g = Ghost(size[0], size[1], kn, mn)
    ex = Exec(mod)
    g.install(ex)
    st = State()
    o = st.new('obj', hashth.const_ret(mod, '@h_sizeof'))
    K = st.new('kk', kn, base=KEYB, writable=False)
    return ex, g, st, o, K


def keys(block):
    return [('key up to a block', t.var('kn', 64, 0, block)), ('longer key', t.var('kn', 64, block + 1, MAXN))]


def initc(ex, sts, init, o, K, kn):
    if init in ('@h_initb', '@h_ctorb'):
        for s in sts:
            b = ghost.box(ex, s, 'kb', K, kn)
        return hashth.paths(ex, sts, init, [o, b])
    return hashth.paths(ex, sts, init, [o, K, kn])


def split(mod, size, kn, init, f1, f2):
    """init; update(x); update(y) leaves the state of update(x|y)"""
    L, n = t.var('L', 64, 0, MAXN), t.var('n', 64, 0, MAXN)
    tot = t.add(L, n)
    ex, g, st, o, K = begin(mod, size, kn, tot)
    sz = st.objs['obj'].size.a[0]
    o2 = st.new('ref', sz)
    m1 = st.new('m1', L, base=MSG, writable=False)
    m2 = st.new('m2', n, base=lambda i: MSG(t.add(L, i)), writable=False)
    m3 = st.new('m3', tot, base=MSG, writable=False)
    sts = initc(ex, [st], init, o, K, kn)
    sts = hashth.paths(ex, sts, '@h_init', [o2, K, kn])
    for f, m, ln, nm in ((f1, m1, L, 'b1'), (f2, m2, n, 'b2')):
        if f == '@h_updb':
            for s in sts:
                b = ghost.box(ex, s, nm, m, ln)
            sts = hashth.paths(ex, sts, f, [o, b])
        else:
            sts = hashth.paths(ex, sts, f, [o, m, ln])
    sts = hashth.paths(ex, sts, '@h_upd', [o2, m3, tot])
    if not sts:
        raise NotProved('vacuous')
    c = 0
    for s in sts:
        ex.cur = s
        c += hashth.soft((kn, L, n), hashth.compare_objects, ex, s, 'ref', 'obj', sz, 'message in two calls')
    if c < size[0] * len(sts):
        raise NotProved('vacuous: nothing determined')
    return {'obligations': c}


def digest(mod, size, kn, init, upd, dig, ks, pre='h'):
    """init; [update]; digest; digest"""
    n = 0
    for k in ks:
        mn = t.var('L', 64, 0, MAXN) if upd else const(0, 64)
        ex, g, st, o, K = begin(mod, size, kn, mn)
        m = st.new('mm', mn, base=MSG, writable=False)
        sts = initc(ex, [st], init, o, K, kn)
        if upd:
            sts = hashth.paths(ex, sts, upd, [o, m, mn])
        full = 12 if pre == 't' else size[1]
        cap = {'@h_diga': 8, '@h_digl': 100}.get(dig)
        lim = min(cap or full, full)
        got, kt = wanted(k, lim, full if dig in ('@h_digs', '@h_digd') else None)
        for rep in (1, 2):
            nm = 'out%d' % rep
            if dig in ('@h_digb', '@h_digr'):
                if rep == 2:
                    break
                for s in sts:
                    s.events = []
                    b = ghost.box(ex, s, 'tb', None, const(0, 64))
                sts = hashth.paths(ex, sts, dig, [o, b, kt])
                nm = 'grown'
                sz = lim
            else:
                sz = cap or full + 24
                for s in sts:
                    out = s.new(nm, sz)
                sts = hashth.paths(ex, sts, dig, [o, out] if dig in ('@h_digs', '@h_digd') else [o, out, kt])
            if not sts:
                raise NotProved('vacuous')
            for s in sts:
                n += check(ex, s, nm, got, sz)
    return {'obligations': n}


def wanted(k, lim, fixed=None):
    """(tag bytes expected, digest size asked for): k 'all' lim or more, 'less' any smaller"""
    if fixed is not None:
        return const(fixed, 64), const(fixed, 64)
    if k == 'all':
        return const(lim, 64), t.var('m', 64, lim, (1 << 64) - 1)
    m = t.var('m', 64, 0, lim - 1)
    return m, m


def check(ex, s, nm, got, sz):
    must_equal(ex, s, s.out[1], got, 'digest return value')
    if nm == 'grown':
        for r in [e[1] for e in s.events if e[0] == 'resize']:
            must_equal(ex, s, r, got, 'container size')
    for i in range(sz):
        if nm == 'grown':
            s2 = s.fork()
            if not s2.assume(t.ult(const(i, 64), got)):
                continue
            old, ex.cur = ex.cur, s2
            must_equal(ex, s2, ex.byte(s2, Ptr(nm, const(i, 64))), MAC(const(i, 64)), 'digest byte %d' % i)
            ex.cur = old
            continue
        w = t.ite(t.ult(const(i, 64), got), MAC(const(i, 64)), s.objs[nm].base(const(i, 64)))
        must_equal(ex, s, ex.byte(s, Ptr(nm, const(i, 64))), w, 'digest byte %d' % i)
    return 1


def oneshot(mod, size, kn, f, ks):
    n = 0
    for k in ks:
        mn = t.var('L', 64, 0, MAXN)
        ex, g, st, o, K = begin(mod, size, kn, mn)
        m = st.new('mm', mn, base=MSG, writable=False)
        got, kt = wanted(k, size[1], size[1] if f == 'o_std' else None)
        if f == 'o_ptr':
            d = st.new('dd', size[1] + 24)
            args, nm, sz = [K, kn, m, mn, d, kt], 'dd', size[1] + 24
        else:
            args = [ghost.box(ex, st, 'kb', K, kn), ghost.box(ex, st, 'mb', m, mn)]
            if f == 'o_std':
                args.append(st.new('dd', size[1] + 24))
                nm, sz = 'dd', size[1] + 24
            else:
                args += [ghost.box(ex, st, 'db', None, const(0, 64)), kt]
                nm, sz = 'grown', size[1]
        sts = hashth.paths(ex, [st], '@' + f, args)
        if not sts:
            raise NotProved('vacuous')
        for s in sts:
            n += check(ex, s, nm, got, sz)
    return {'obligations': n}


def wiring(mod, size):
    for i, w in enumerate((size[1], size[1], 12, 12)):
        ex = Exec(mod)
        for r in ex.run_function(State(), '@h_sizes', [const(i, 32)]):
            if r.out[1].op != 'c' or r.out[1].a[0] != w:
                raise Refuted('digest size %d is %s, not %d' % (i, t.show(r.out[1]), w))
    return {'obligations': 4}


def alias():
    rows = []
    for h, b, d in HASHES:
        al = {'sha_1_160': 'sha_1_160'}.get(h, h)
        rows.append('&& std::is_same_v<typename mac_hmac_%s::hash_type, hash_%s> && hash_%s::block_size == %d && hash_%s::digest_size == %d && mac::apie<mac_hmac_%s>::digest_size == %d' % (al, al, al, b, al, d, al, d))
    mod = irparse.parse(build.ir(WIRE % '\n'.join(rows)))
    ex = Exec(mod)
    for r in ex.run_function(State(), '@h_wiring', []):
        if r.out[1].op != 'c' or r.out[1].a[0] != 1:
            raise Refuted('the public HMAC aliases do not use their hash, or the hash has other block or digest sizes')
    return {'obligations': 2 * len(HASHES)}


# ------------------------------------------------------------------ concrete

NSRC = '''
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/detail/alias.h>
#include <vector>
using namespace milo; using namespace milo::primitive;
#define DEF(N, T) \\
extern "C" size_t N##_sizeof(){ return sizeof(mac::apie<T>); } \\
extern "C" void N##_init(mac::apie<T>* o,const uint8_t*k,size_t n){ o->initialize(k,n); } \\
extern "C" void N##_upd(mac::apie<T>* o,const uint8_t*p,size_t n){ o->update(p,n); } \\
extern "C" size_t N##_dig(mac::apie<T>* o,uint8_t*d,size_t n){ return o->digest(d,n); } \\
extern "C" size_t N##_one(const uint8_t*k,size_t kn,const uint8_t*p,size_t n,uint8_t*d,size_t dn){ return mac::digest<T>(k,kn,p,n,d,dn); }
%s
'''
PY = {'sha_1_160': 'sha1', 'sha_2_224': 'sha224', 'sha_2_256': 'sha256', 'sha_2_384': 'sha384', 'sha_2_512': 'sha512', 'sha_2_512_224': 'sha512_224', 'sha_2_512_256': 'sha512_256'}


def reference(h, key, msg):
    return pyhmac.new(key, msg, PY[h]).digest()


def native_lib():
    names = [(h, b, d) for h, b, d in HASHES if PY[h] in hashlib.algorithms_available]
    return names, ctypes.CDLL(build.native(NSRC % '\n'.join('DEF(%s, mac_hmac_%s)\nusing T_%s = mac::hmac<hash_%s, option::digest_size<13>>;\nDEF(%s_t, T_%s)' % (h, h, h, h, h, h) for h, b, d in names), 'hmac'))


def diff(chk):
    Z = ctypes.c_size_t
    names, lib = native_lib()
    rnd = random.Random(core.SEED + 21)
    n = 0
    fails = []
    for h, B, D, tr in [(h, B, D, 0) for h, B, D in names] + [(h, B, 13, 1) for h, B, D in names]:
        g = lambda f: getattr(lib, h + ('_t_' if tr else '_') + f)
        for f in ('sizeof', 'dig', 'one'):
            g(f).restype = Z
        size = g('sizeof')()
        klens = list(range(0, B + 70, 9 if tr else 1)) + [2 * B, 2 * B + 1, 500] if core.TIER == 'quick' else list(range(0, 4 * B))
        o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
        for kn in klens:
            for rep in range(2):
                key = rnd.randbytes(kn)
                msg = rnd.randbytes(rnd.choice([0, 1, B - 1, B, B + 1, rnd.randrange(300)]))
                g('init')(o, key, Z(kn))
                parts, m = [], msg
                while m and rnd.random() < 0.7:
                    c = rnd.randrange(len(m) + 1)
                    parts.append(m[:c])
                    m = m[c:]
                parts.append(m)
                for p in parts:
                    g('upd')(o, p, Z(len(p)))
                want = reference(h, key, msg)[:D]
                dn = rnd.choice([D, D, D, D + 9, rnd.randrange(D + 1)])
                for form in ('dig', 'dig', 'one'):
                    out = ctypes.create_string_buffer(bytes([0xa5]) * (D + 16), D + 16)
                    r = g('dig')(o, out, Z(dn)) if form == 'dig' else g('one')(key, Z(kn), msg, Z(len(msg)), out, Z(dn))
                    e = min(dn, D)
                    n += 1
                    if r != e or out.raw != want[:e] + bytes([0xa5]) * (D + 16 - e):
                        fails.append({'hash': h + ' truncated to 13' * tr, 'key': key.hex(), 'message_parts': [p.hex() for p in parts], 'digest_size': dn, 'form': form, 'got': out.raw[:D].hex(), 'expected': want.hex()})
                        if len(fails) > 3:
                            return n, fails, 'real HMAC against python hmac'
    n, fails = guarded.merge(n, fails, *[guarded.keyed(lib, h, (0, 1, B - 1, B, B + 1, 3 * B), ([], [1], [B], [3, B + 1], [2 * B, 0, B - 1])) for h, B, D in names])
    return n, fails, 'real HMAC (all hashes) against python hmac: every key length around the block size, random splits; buffers between unreadable pages'


def replay(chk, hist):
    """[key size, L, n] with continuations against python's hmac"""
    Z = ctypes.c_size_t
    names, lib = native_lib()
    rnd = random.Random(core.SEED)
    cases = 0
    for nm, (kn, L, n) in hist:
        for h, B, D in names:
            if ('block %d ' % B) not in nm:
                continue
            g = lambda f: getattr(lib, h + '_' + f)
            for f in ('sizeof', 'dig'):
                g(f).restype = Z
            size = g('sizeof')()
            for tail in [[]] + [[k] for k in (1, 2, B - 1, B, B + 1)] + [[1, B - 1], [B, B]]:
                key = rnd.randbytes(kn)
                data = [rnd.randbytes(x) for x in [L, n] + tail]
                o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
                g('init')(o, key, Z(kn))
                for d in data:
                    g('upd')(o, d, Z(len(d)))
                want = reference(h, key, b''.join(data))
                for rep in (1, 2):
                    out = ctypes.create_string_buffer(D)
                    r = g('dig')(o, out, Z(D))
                    cases += 1
                    if r != D or out.raw != want:
                        return cases, [{'hash': h, 'key': key.hex()[:600], 'update_sizes': [L, n] + tail, 'message': b''.join(data).hex()[:600], 'digest_call': rep, 'got': out.raw.hex(), 'expected': want.hex()}], 'python hmac'
    return cases, [], 'real HMAC against python hmac'


def deep(chk):
    """key and message lengths around 2^16, 2^24 and 2^32"""
    import time
    import bigmem
    Z = ctypes.c_size_t
    names, lib = native_lib()
    rnd = random.Random(core.SEED + 6)
    cases, t0 = 0, time.time()
    for kn, mn in ((65536 + 5, 300), (300, 65536 + 5), ((1 << 24) + 7, 5), (20, (1 << 24) + 7), ((1 << 32) + 9, 5), (20, (1 << 32) + 9)):
        for h, B, D in names:
            if kn + mn > 1 << 30 and h not in ('sha_2_256', 'sha_1_160') or time.time() - t0 > 70:
                continue
            g = lambda f: getattr(lib, h + '_' + f)
            for f in ('sizeof', 'dig'):
                g(f).restype = Z
            size = g('sizeof')()
            K, M = bigmem.Big(kn, rnd), bigmem.Big(mn, rnd)
            o = ctypes.create_string_buffer(bytes([rnd.randrange(256)]) * size, size)
            g('init')(o, K.at(), Z(kn))
            g('upd')(o, M.at(), Z(mn // 3))
            g('upd')(o, M.at(mn // 3), Z(mn - mn // 3))
            out = ctypes.create_string_buffer(D)
            g('dig')(o, out, Z(D))
            kk = hashlib.new(PY[h])
            K.feed(kk)
            ref = pyhmac.new(kk.digest() if kn > B else K.head + K.tail, b'', PY[h])
            M.feed(ref)
            cases += 1
            if out.raw != ref.digest():
                return cases, [{'hash': h, 'key_size': kn, 'message_size': mn, 'key': K.head[:32].hex() + '... then zeros, then ...' + K.tail[-32:].hex(), 'message': M.head[:32].hex() + '... then zeros, then ...' + M.tail[-32:].hex(), 'got': out.raw.hex(), 'expected': ref.digest().hex()}], ''
    return cases, [], 'real HMAC against python hmac, lengths to 2^32 + 9'


ASSUME = ['messages and keys below 2^56 bytes; buffers disjoint from the object']
TRUST = ['irvc IR semantics', 'irvc term normaliser (fuzzed)', 'z3', 'clang++-18 / opt-18', 'the ghost hash contract (proved for the real hashes by H01-H03, H05)']


def add_m01(chk, consteval=False, tag='', sizes=SIZES):
    for size in sizes:
        b, d = size
        nm = 'block %d digest %d%s' % (b, d, tag)
        try:
            mod = irparse.parse(build.ir(SRC % {'block': b, 'dig': d}, consteval=consteval))
        except Exception as e:
            chk.fail_early('ir ' + nm, repr(e)[:600])
            continue
        chk.ob('%s: sizes' % nm, wiring, mod, size)
        for kt, kn in keys(b):
            chk.ob('%s: %s: message in pieces' % (nm, kt), split, mod, size, kn, '@h_init', '@h_upd', '@h_upd')
            chk.ob('%s: %s: digest' % (nm, kt), digest, mod, size, kn, '@h_init', '@h_upd', '@h_dig', ['all', 'less'])
            chk.ob('%s: %s: truncated tag' % (nm, kt), digest, mod, size, kn, '@t_init', '@t_upd', '@t_dig', ['all', 'less'], 't')
            chk.ob('%s: %s: no message' % (nm, kt), digest, mod, size, kn, '@h_init', None, '@h_dig', ['all', 'less'])
        if size not in ((64, 32), (128, 48)):
            continue
        for kt, kn in keys(b):
            for init in ('@h_initc', '@h_initb', '@h_ctor', '@h_ctorb'):
                chk.ob('%s: %s: %s' % (nm, kt, init), split, mod, size, kn, init, '@h_updc', '@h_updb')
            for dg in ('@h_digd', '@h_diga', '@h_digl', '@h_digb', '@h_digr', '@h_digs'):
                chk.ob('%s: %s: %s' % (nm, kt, dg), digest, mod, size, kn, '@h_init', '@h_upd', dg, ['all', 'less'] if dg not in ('@h_digd', '@h_digs') else ['all'])
            for f in ('o_ptr', 'o_box', 'o_ret', 'o_std'):
                chk.ob('%s: %s: %s' % (nm, kt, f), oneshot, mod, size, kn, f, ['all', 'less'] if f != 'o_std' else ['all'])


def main(pid):
    chk = core.Check(pid, assumptions=ASSUME, trusted=TRUST)
    add_m01(chk)
    chk.ob('public aliases', alias)
    chk.differential('hmac', diff)
    chk.replay = replay
    chk.deep.append(deep)
    return chk.finish()
