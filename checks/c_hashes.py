"""H01 H02 H03 (digest = FIPS 180-4) and H05 (digest truncation, repetition, frame)"""
import ctypes
import hashlib
import random

import build
import core
import ghost
import guarded
import hashth
import irparse
import spec
import terms as t
from terms import const
from execu import Ptr

SRC = '''
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/detail/alias.h>
#include <new>
using namespace milo; using namespace milo::primitive;
''' + ghost.GBOX + '''
using T = hash::%(alias)s<>;
using H = hash::apie<T>;
using B = gbox<uint8_t>; using BC = gbox<char>;
extern "C" {
void h_updc(H* o,const char*p,size_t n){ o->update(p,n); }
void h_updb(H* o,const B* p){ o->update(*p); }
void h_updbc(H* o,const BC* p){ o->update(*p); }
void h_upda(H* o,const std::array<uint8_t,100>* p){ o->update(*p); }
size_t h_digch(H* o,char*p,size_t n){ return o->digest(p,n); }
size_t h_digdef(H* o,uint8_t*p){ return o->digest(p); }
size_t h_digb(H* o, B* a, size_t n){ return o->digest(*a, n); }
size_t h_digbd(H* o, B* a){ return o->digest(*a); }
size_t h_digr(H* o, B* a, size_t n){ *a = o->template digest<B>(n); return a->n; }
size_t h_digst(H* o, uint8_t* p){ auto r = o->template digest<std::array<uint8_t,9>>(); __builtin_memcpy(p, r.data(), r.size()); return r.size(); }
size_t o_ptr(const char* p, size_t n, char* d, size_t m){ return hash::digest<T>(p, n, d, m); }
size_t o_def(const uint8_t* p, size_t n, uint8_t* d){ return hash::digest<T>(p, n, d); }
size_t o_box(const B* p, B* d, size_t m){ return hash::digest<T>(*p, *d, m); }
size_t o_arr(const BC* p, std::array<uint8_t,8>* d, size_t m){ return hash::digest<T>(*p, *d, m); }
size_t o_ret(const B* p, B* d, size_t m){ *d = hash::digest<T, B>(*p, m); return d->n; }
size_t o_std(const B* p, uint8_t* d){ auto r = hash::digest<T>(*p); __builtin_memcpy(d, r.data(), r.size()); return r.size(); }
size_t h_sizeof(){ return sizeof(H); }
void h_init(H* o){ o->initialize(); }
void h_ctor(H* o){ new (o) H(); }
void h_upd(H* o,const uint8_t*p,size_t n){ o->update(p,n); }
size_t h_dig(H* o,uint8_t*p,size_t n){ return o->digest(p,n); }
void h_del(H* o){ o->~H(); }
void h_blocks(size_t n, %(word)s* s, const uint8_t* p){ detail::hash_%(impl)s_impl_sw::blocks(n, s, p); }
size_t h_digc(H* o, std::array<uint8_t,8>& a, size_t n){ return o->digest(a,n); }
size_t h_digl(H* o, std::array<uint8_t,100>& a, size_t n){ return o->digest(a,n); }
void h_digs(H* o, uint8_t* p){ auto r = o->digest(); __builtin_memcpy(p, r.data(), r.size()); }
size_t h_oneshot(const uint8_t* p, size_t n, uint8_t* d, size_t m){ return hash::digest<hash::%(alias)s<>>(p, n, d, m); }
}'''

NSRC = '''
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/detail/alias.h>
#include <new>
#include <string>
#include <vector>
using namespace milo; using namespace milo::primitive;
#define DEF(N, T) \\
extern "C" size_t N##_sizeof(){ return sizeof(hash::apie<T>); } \\
extern "C" void N##_ctor(hash::apie<T>* o){ new (o) hash::apie<T>(); } \\
extern "C" void N##_init(hash::apie<T>* o){ o->initialize(); } \\
extern "C" void N##_upd(hash::apie<T>* o,const uint8_t*p,size_t n){ o->update(p,n); } \\
extern "C" void N##_updc(hash::apie<T>* o,const char*p,size_t n){ o->update(p,n); } \\
extern "C" void N##_updv(hash::apie<T>* o,const uint8_t*p,size_t n){ o->update(std::vector<uint8_t>(p, p + n)); } \\
extern "C" void N##_updt(hash::apie<T>* o,const char*p,size_t n){ o->update(std::string(p, n)); } \\
extern "C" size_t N##_onev(const uint8_t*q, size_t l, uint8_t*p,size_t n){ std::vector<uint8_t> m(q, q + l), d; size_t r = hash::digest<T>(m, d, n); \\
   for (size_t i=0;i<d.size();i++) p[i]=d[i]; return r == d.size() ? r : (size_t)-1; } \\
extern "C" size_t N##_oner(const char*q, size_t l, uint8_t*p,size_t n){ auto d = hash::digest<T, std::vector<uint8_t>>(std::string(q, l), n); for (size_t i=0;i<d.size();i++) p[i]=d[i]; return d.size(); } \\
extern "C" size_t N##_onec(const char*q, size_t l, char*p,size_t n){ return hash::digest<T>(q,l,p,n); } \\
extern "C" size_t N##_digc(hash::apie<T>* o,char*p,size_t n){ return o->digest(p,n); } \\
extern "C" size_t N##_dig(hash::apie<T>* o,uint8_t*p,size_t n){ return o->digest(p,n); } \\
extern "C" size_t N##_digv(hash::apie<T>* o,uint8_t*p,size_t pre,size_t n){ std::vector<uint8_t> v(pre, 0x5a); size_t r = o->digest(v,n); \\
   if (v.size() != r) return (size_t)-1; for (size_t i=0;i<r;i++) p[i]=v[i]; return r; } \\
extern "C" size_t N##_diga(hash::apie<T>* o,uint8_t*p,size_t n){ struct { std::array<uint8_t,10> a; uint8_t g[90]; } x; for (auto& c: x.g) c=0x77; size_t r = o->digest(x.a,n); \\
   for (auto c: x.g) if (c!=0x77) return (size_t)-1; for (size_t i=0;i<r && i<10;i++) p[i]=x.a[i]; return r; } \\
extern "C" size_t N##_one(const uint8_t*q, size_t l, uint8_t*p,size_t n){ return hash::digest<T>(q,l,p,n); } \\
extern "C" size_t N##_digd(hash::apie<T>* o,uint8_t*p,size_t n){ auto v = o->digest(n); for (size_t i=0;i<v.size();i++) p[i]=v[i]; return v.size(); } \\
extern "C" size_t N##_digs(hash::apie<T>* o,uint8_t*p){ auto v = o->digest(); for (size_t i=0;i<v.size();i++) p[i]=v[i]; return v.size(); }
%s
'''

SETS = {'H01': [spec.SHA1], 'H02': [spec.SHA224, spec.SHA256],
        'H03': [spec.SHA384, spec.SHA512, spec.SHA512_224, spec.SHA512_256], 'H05': spec.HASHES}

ASSUME = [
    'total message length below 2^60 bytes; every buffer below 2^57 bytes and no two arguments overlap the object',
    'the C++ is compiled as clang 18 -O1 front-end IR (inlined, mem2reg, simplified) reads it; gcc and clang agree on the language semantics',
    'unsigned machine arithmetic is exact (bit vectors); pointer arithmetic in-bounds of one object (checked as an obligation)',
]
TRUST = ['irvc IR semantics (irvc/execu.py, loops.py)', 'irvc term normaliser (irvc/terms.py, fuzzed against evaluation)', 'z3 4.x python binding',
         'clang++-18 and opt-18 (sroa, early-cse, instcombine, simplifycfg, inliner)', 'irvc/spec.py (tested against hashlib on every run)']


def harness(s):
    impl = {'sha1': 'sha_1_160', 'sha256': 'sha_2_256', 'sha512': 'sha_2_512'}[s.fam]
    return SRC % dict(alias=s.alias, word='uint%d_t' % s.w, impl=impl)


def leaf(mod, s):
    f = hashth.find(mod, r'hash_sha_\w*_impl_sw\w*blocks|hash_sha_\w*impl_sw\d+blocks', 'software block function') if False else '@h_blocks'
    return hashth.leaf_block(mod, f, s)


def digest_trunc(mod, s, b, big, nc=None):
    """H05: symbolic requested size"""
    B = s.block
    q = t.var('q', 64, 1, hashth.QMAX)
    L = t.add(t.mulc(q, B), const(b, 64))
    fn, blocks = hashth.pad_fn(s, q, b, L)
    ex = hashth.base_exec(mod, s, hashth.BlockContract(s, fn))
    from execu import State
    st = State()
    sz = hashth.const_ret(mod, '@h_sizeof')
    o1 = st.new('obj', sz)
    d1 = st.new('msg', L, base=hashth.P, writable=False)
    D = s.digest
    if big:
        n = t.var('n', 64, D + 1, (1 << 64) - 1)
        out = st.new('out', D)
        want_n = const(D, 64)
    else:
        n = const(nc, 64)
        out = st.new('out', nc)
        want_n = n
    out2 = st.new('out2', D)
    sts = hashth.paths(ex, [st], '@h_init', [o1])
    sts = hashth.paths(ex, sts, '@h_upd', [o1, d1, L])
    sts = hashth.paths(ex, sts, '@h_dig', [o1, out, n])
    for x in sts:
        hashth.must_equal(ex, x, x.out[1], want_n, 'digest return value')
    sts = hashth.paths(ex, sts, '@h_dig', [o1, out2, const(D, 64)])
    if not sts:
        raise core.NotProved('vacuous')
    fin = t.add(q, const(blocks, 64))
    full = []
    for i in range(s.nw):
        full += hashth.be_b(hashth.F(s, i, fin))
    for x in sts:
        hashth.must_equal(ex, x, x.out[1], const(D, 64), 'second digest return value')
        for i in range(D):
            hashth.must_equal(ex, x, ex.byte(x, Ptr('out2', const(i, 64))), full[i], 'byte %d of the second digest' % i)
            y = x.fork()
            if not big:
                if not y.assume(t.ult(const(i, 64), n)):
                    continue
                if hashth.infeasible_pc(y):
                    continue
            ex.cur = y
            hashth.must_equal(ex, y, ex.byte(y, Ptr('out', const(i, 64))), full[i], 'byte %d of a digest of n bytes' % i)
    return {}


def static_forms(mod, s):
    """digest into a static container, the returning form and the one-shot function agree with the pointer form"""
    from execu import State
    B = s.block
    b = 5
    q = t.var('q', 64, 1, hashth.QMAX)
    L = t.add(t.mulc(q, B), const(b, 64))
    fn, blocks = hashth.pad_fn(s, q, b, L)
    fin = t.add(q, const(blocks, 64))
    full = []
    for i in range(s.nw):
        full += hashth.be_b(hashth.F(s, i, fin))
    D = s.digest
    for f, cap in (('@h_digc', 8), ('@h_digl', 100), ('@h_digs', None), ('@h_oneshot', None)):
        lim = min(cap or s.digest, s.digest)
        for sym in ((None,) if f == '@h_digs' else [None] + list(range(lim))):
            ex = hashth.base_exec(mod, s, hashth.BlockContract(s, fn))
            st = State()
            o1 = st.new('obj', hashth.const_ret(mod, '@h_sizeof'))
            d1 = st.new('msg', L, base=hashth.P, writable=False)
            out = st.new('out', cap or (D if sym is None else sym))
            n = const(sym, 64) if sym is not None else t.var('m', 64, lim, (1 << 64) - 1)
            lm = lim if sym is None else sym
            sts = [st]
            if f != '@h_oneshot':
                sts = hashth.paths(ex, sts, '@h_init', [o1])
                sts = hashth.paths(ex, sts, '@h_upd', [o1, d1, L])
            args = {'@h_digs': [o1, out], '@h_oneshot': [d1, L, out, n]}.get(f, [o1, out, n])
            sts = hashth.paths(ex, sts, f, args)
            if not sts:
                raise core.NotProved('vacuous')
            for x in sts:
                if f != '@h_digs':
                    hashth.must_equal(ex, x, x.out[1], const(lm, 64), f + ' return value')
                for i in range(cap or D):
                    w = full[i] if i < lm else x.objs['out'].base(const(i, 64))
                    hashth.must_equal(ex, x, ex.byte(x, Ptr('out', const(i, 64))), w, '%s byte %d of %d' % (f, i, lm))
    return {}


def digest_forms(mod, s, f):
    """every public digest form and one-shot function: the first min(n, digest_size) digest bytes, the size returned, nothing else written"""
    from execu import State
    B, D = s.block, s.digest
    b = 5
    q = t.var('q', 64, 1, hashth.QMAX)
    L = t.add(t.mulc(q, B), const(b, 64))
    fn, blocks = hashth.pad_fn(s, q, b, L)
    fin = t.add(q, const(blocks, 64))
    full = []
    for i in range(s.nw):
        full += hashth.be_b(hashth.F(s, i, fin))
    fixed = {'@h_digdef': D, '@h_digbd': D, '@o_def': D, '@o_std': D, '@h_digst': 9}.get(f)
    cap = 8 if f == '@o_arr' else None
    lim = min(cap or D, D)
    dyn = f in ('@h_digb', '@h_digbd', '@h_digr', '@o_box', '@o_ret')
    cnt = 0
    for k in ((None,) if fixed is not None else ['all'] + list(range(lim))):
        if fixed is not None:
            got, kt = const(fixed, 64), None
        elif k == 'all':
            got, kt = const(lim, 64), t.var('m', 64, lim, (1 << 64) - 1)
        else:
            got = kt = const(k, 64)
        ex = hashth.base_exec(mod, s, hashth.BlockContract(s, fn))
        ex.hooks['@ghost_resize'] = ghost.resize_hook
        st = State()
        d1 = st.new('msg', L, base=hashth.P, writable=False)
        sts = [st]
        if f.startswith('@o_'):
            args = [d1, L] if f in ('@o_ptr', '@o_def') else [ghost.box(ex, st, 'mb', d1, L)]
        else:
            o1 = st.new('obj', hashth.const_ret(mod, '@h_sizeof'))
            sts = hashth.paths(ex, sts, '@h_init', [o1])
            sts = hashth.paths(ex, sts, '@h_upd', [o1, d1, L])
            args = [o1]
        sz = cap or D + 24
        for x in sts:
            x.events = []
            p = ghost.box(ex, x, 'tb', None, const(0, 64)) if dyn else x.new('out', sz)
        sts = hashth.paths(ex, sts, f, args + [p] + ([kt] if kt is not None else []))
        if not sts:
            raise core.NotProved('vacuous')
        for x in sts:
            ex.cur = x
            hashth.must_equal(ex, x, x.out[1], got, f + ' return value')
            if dyn:
                for r in [e[1] for e in x.events if e[0] == 'resize']:
                    hashth.must_equal(ex, x, r, got, f + ' container size')
            for i in range(D if dyn else sz):
                y = x.fork()
                if dyn:
                    if not y.assume(t.ult(const(i, 64), got)) or hashth.infeasible_pc(y):
                        continue
                    w, nm = full[i], 'grown'
                else:
                    nm = 'out'
                    base = y.objs['out'].base(const(i, 64))
                    w = t.ite(t.ult(const(i, 64), got), full[i], base) if i < D else base
                ex.cur = y
                hashth.must_equal(ex, y, ex.byte(y, Ptr(nm, const(i, 64))), w, '%s byte %d' % (f, i))
                cnt += 1
    if not cnt:
        raise core.NotProved('vacuous')
    return {'obligations': cnt}


class Native:
    def __init__(self, lib, nm):
        self.l = lib
        self.nm = nm
        for f in ('sizeof', 'dig', 'digc', 'digv', 'diga', 'one', 'onev', 'oner', 'onec', 'digd', 'digs'):
            getattr(lib, nm + '_' + f).restype = ctypes.c_size_t
        self.size = getattr(lib, nm + '_sizeof')()

    def new(self, fill=0xa5, ctor=True):
        o = ctypes.create_string_buffer(bytes([fill]) * (self.size + 64), self.size + 64)
        getattr(self.l, self.nm + ('_ctor' if ctor else '_init'))(o)
        return o

    def upd(self, o, data, f='upd'):
        getattr(self.l, self.nm + '_' + f)(o, data, ctypes.c_size_t(len(data)))

    def dig(self, o, n, f='dig', *extra):
        buf = ctypes.create_string_buffer(bytes([0x5c]) * 256, 256)
        a = [o, buf] + [ctypes.c_size_t(x) for x in extra]
        if f != 'digs':
            a.append(ctypes.c_size_t(n))
        r = getattr(self.l, self.nm + '_' + f)(*a)
        return r, buf.raw


def native_lib(pid):
    defs = []
    for s in SETS[pid]:
        for suf in ('', '_sw'):
            defs.append('DEF(n_%s%s, hash_%s%s)' % (s.alias, suf, s.alias, suf))
    p = build.native(NSRC % '\n'.join(defs), 'hash_' + pid)
    return ctypes.CDLL(p)


def diff(chk, pid):
    lib = native_lib(pid)
    rnd = random.Random(core.SEED)
    n = 0
    fails = []
    thorough = core.TIER == 'thorough'
    for s in SETS[pid]:
        for suf in ('', '_sw'):
            N = Native(lib, 'n_%s%s' % (s.alias, suf))
            B = s.block
            cases = [[x] for x in range(0, 3 * B + 3)]
            cases += [[a, c] for a in (0, 1, B - 9, B - 1, B, B + 1) for c in (0, 1, B - 1, B, B + 1, 3 * B)]
            cases += [[a] * 7 for a in (1, B // 2, B - 1, B + 1)]
            for _ in range(2000 if thorough else 250):
                cases.append([rnd.choice([0, 1, rnd.randrange(B), B, rnd.randrange(4 * B), rnd.randrange(B - 4, B + 4)]) for _ in range(rnd.randrange(1, 8))])
            for x in (1000, 4096, 5000, 65535, 1 << 20) if not thorough else (1000, 4096, 65535, 1 << 20, (1 << 29) + 5):
                cases.append([x])
            for parts in cases:
                data = [rnd.randbytes(k) for k in parts]
                o = N.new(ctor=n % 2 == 0, fill=rnd.randrange(256))
                uf = [rnd.choice(['upd', 'upd', 'updc', 'updv', 'updt']) for d in data]
                for d, f in zip(data, uf):
                    N.upd(o, d, f)
                want = hashlib.new(s.name, b''.join(data)).digest()
                if pid == 'H05':
                    k = rnd.choice([0, 1, s.digest - 1, s.digest, s.digest + 1, rnd.randrange(s.digest), 200])
                    seq = rnd.choice(['dig', 'digc', 'digv', 'diga', 'digd', 'digs'])
                    for f in (seq, 'dig', rnd.choice(['dig', 'digc', 'digv', 'diga', 'digd', 'digs'])):
                        ex = [rnd.choice([0, 5, 40, 100])] if f == 'digv' else []
                        r, buf = N.dig(o, k, f, *ex)
                        w = min(k, s.digest)
                        if f == 'digs':
                            w = s.digest
                        if f == 'diga':
                            w = min(w, 10)
                        if r != w or buf[:w] != want[:w] or buf[w:] != bytes([0x5c]) * (256 - w):
                            fails.append({'hash': s.alias + suf, 'form': f, 'requested': k, 'update_sizes': parts, 'update_forms': uf, 'message': b''.join(data).hex()[:400],
                                          'returned': r, 'bytes': buf[:80].hex(), 'expected': want[:w].hex()})
                        n += 1
                    f = rnd.choice(['one', 'onev', 'oner', 'onec'])
                    buf = ctypes.create_string_buffer(bytes([0x5c]) * 256, 256)
                    r = getattr(N.l, N.nm + '_' + f)(b''.join(data), ctypes.c_size_t(sum(parts)), buf, ctypes.c_size_t(k))
                    w = min(k, s.digest)
                    if r != w or buf.raw[:w] != want[:w] or buf.raw[w:] != bytes([0x5c]) * (256 - w):
                        fails.append({'hash': s.alias + suf, 'form': 'one-shot ' + f, 'requested': k, 'message': b''.join(data).hex()[:400], 'returned': r, 'bytes': buf.raw[:80].hex(), 'expected': want[:w].hex()})
                    n += 1
                else:
                    r, buf = N.dig(o, s.digest)
                    if r != s.digest or buf[:s.digest] != want or buf[s.digest:] != bytes([0x5c]) * (256 - s.digest):
                        fails.append({'hash': s.alias + suf, 'update_sizes': parts, 'update_forms': uf, 'message': b''.join(data).hex()[:400], 'digest': buf[:s.digest].hex(), 'expected': want.hex()})
                    if o.raw[N.size:] != bytes([o.raw[-1]]) * 64:
                        fails.append({'hash': s.alias + suf, 'update_sizes': parts, 'what': 'write beyond the object'})
                    n += 1
                if len(fails) > 3:
                    return n, fails, 'hashlib'
    n, fails = guarded.merge(n, fails, *[guarded.hashes(lib, ['n_%s%s' % (s.alias, suf) for suf in ('', '_sw')], s.block) for s in SETS[pid]])
    return n, fails, 'real library (g++ -O2, default and software backends) against hashlib: all lengths to 3 blocks, random splits; buffers between unreadable pages'


def replay(chk, hist):
    """histories [L, n] with continuations, against hashlib"""
    lib = native_lib(chk.pid)
    fails, n = [], 0
    rnd = random.Random(core.SEED)
    for key, sizes in hist:
        for s in SETS[chk.pid]:
            if not key.startswith(s.name + ' '):
                continue
            B = s.block
            for suf in ('', '_sw'):
                N = Native(lib, 'n_%s%s' % (s.alias, suf))
                for tail in [[]] + [[k] for k in list(range(0, B + 2)) + [2 * B, 3 * B + 5]] + [[1, B - 1], [B, B], [B - 1, 1, 1], [5, 2 * B]]:
                    data = [rnd.randbytes(k) for k in sizes + tail]
                    o = N.new(fill=rnd.randrange(256))
                    for d in data:
                        N.upd(o, d)
                    r, buf = N.dig(o, s.digest)
                    n += 1
                    if buf[:s.digest] != hashlib.new(s.name, b''.join(data)).digest():
                        fails.append({'hash': s.alias + suf, 'update_sizes': sizes + tail, 'message': b''.join(data).hex()[:400], 'digest': buf[:s.digest].hex()})
                        return n, fails, 'hashlib'
    return n, fails, 'real library against hashlib'


def deep(chk):
    """lengths around 2^16, 2^24, 2^29 (2^32 bits) and 2^32 bytes"""
    import time
    import bigmem
    lib = native_lib(chk.pid)
    rnd = random.Random(core.SEED + 5)
    n, t0 = 0, time.time()
    for s in SETS[chk.pid]:
        for suf in ('', '_sw'):
            N = Native(lib, 'n_%s%s' % (s.alias, suf))
            for size in (65535 - s.block, 65536 + 3, (1 << 24) + 70, (1 << 29) + 57) + (((1 << 32) + 9,) if not suf else ()):
                if time.time() - t0 > 60:
                    return n, [], 'real library against hashlib (stopped for time)'
                m = bigmem.Big(size, rnd)
                h = hashlib.new(s.name)
                m.feed(h)
                want = h.digest()
                for parts in ([size],) if size >= 1 << 32 else ([size], [7, size - 7], [size - 5, 5]):
                    o = N.new(fill=rnd.randrange(256))
                    p = 0
                    for k in parts:
                        getattr(lib, N.nm + '_upd')(o, m.at(p), ctypes.c_size_t(k))
                        p += k
                    r, buf = N.dig(o, s.digest)
                    n += 1
                    if buf[:s.digest] != want:
                        return n, [{'hash': s.alias + suf, 'update_sizes': parts, 'message': 'head %s, %d zero bytes, tail %s' % (m.head[:32].hex() + '...', m.zeros, m.tail[-32:].hex()), 'digest': buf[:s.digest].hex(), 'expected': want.hex(), 'seed': core.SEED + 5}], ''
    return n, [], 'real library against hashlib, lengths to 2^32 + 9'


def mods_for(chk, pid, consteval=False, tag=''):
    out = {}
    for s in SETS[pid]:
        try:
            out[s.name] = irparse.parse(build.ir(harness(s), noinline=hashth.BLOCKFN.pattern, consteval=consteval))
        except Exception as e:
            chk.fail_early('ir ' + s.name + tag, repr(e)[:500])
    return out


def main(pid):
    chk = core.Check(pid, assumptions=ASSUME, trusted=TRUST)
    chk.extra['spec_selftest_cases'] = spec.selftest()
    add(chk, pid)
    if pid in ('H01', 'H02'):
        import c_asmsha
        c_asmsha.add(chk, ['sha1'] if pid == 'H01' else ['sha256'])
    chk.differential('digest', diff, pid)
    if pid != 'H05':
        chk.replay = replay
        chk.deep.append(deep)
    return chk.finish()


def add(chk, pid, consteval=False, tag=''):
    mods = mods_for(chk, pid, consteval, tag)
    for s in SETS[pid]:
        m = mods.get(s.name)
        if m is None:
            continue
        B = s.block
        if pid != 'H05':
            if s.name in ('sha1', 'sha256', 'sha512'):
                chk.ob('%s software block function%s' % (s.fam, tag), leaf, m, s)
            for case in ('same', 'cross'):
                for z in (True, False):
                    chk.ob('%s update %s-block %s%s' % (s.name, case, 'first' if z else 'later', tag), hashth.hash_update, m, s, case, z, timeout=400)
            for f in () if consteval and s.name not in ('sha1', 'sha256', 'sha512') else ('@h_updc', '@h_updb', '@h_updbc', '@h_upda'):
                for case in ('same', 'cross') if f != '@h_upda' else ('fixed',):
                    chk.ob('%s %s %s-block%s' % (s.name, f, case, tag), hashth.hash_update, m, s, case, False, f, timeout=400)
            for i in range(0, B, 16):
                chk.ob('%s digest fill %d..%d%s' % (s.name, i, i + 15, tag), hashth.hash_range, m, s, list(range(i, min(B, i + 16))))
        else:
            for big in (True, False):
                chk.ob('%s digest of n %s digest_size bytes%s' % (s.name, '>' if big else '<=', tag), trunc_range, m, s, [0, 1, B - s.lenbytes - 1, B - s.lenbytes, B - 1], big)
            chk.ob('%s container and one-shot forms%s' % (s.name, tag), static_forms, m, s)
            for f in ('@h_digch', '@h_digdef', '@h_digb', '@h_digbd', '@h_digr', '@h_digst', '@o_ptr', '@o_def', '@o_box', '@o_arr', '@o_ret', '@o_std'):
                chk.ob('%s %s%s' % (s.name, f, tag), digest_forms, m, s, f)


def trunc_range(mod, s, bs, big):
    for b in bs:
        for n in ([None] if big else range(s.digest + 1)):
            digest_trunc(mod, s, b, big, n)
