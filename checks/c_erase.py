"""X01: destroyed objects leave no secret bytes behind

Part 1: for every public class the set Z of object bytes that the destructor leaves zero whatever the object held is computed
from the IR; in -O2 and -O3 code (explicit call, end of scope, delete) the same bytes are zero when the storage is released.
Part 2: the bytes outside Z (padding, flags, lengths, views of the caller's buffers) never depend on the content of keys,
messages or derived data: information-flow postcondition of the member functions, checked on the states of the contracts of
H01-H03, M01, M02, S01, A01, K01 and K02."""
import ctypes
import random

import build
import core
import execu
import hashth
import irparse
import terms as t
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from terms import const

HEAD = '''
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/detail/alias.h>
#include <new>
using namespace milo; using namespace milo::primitive;
extern "C" { void ghost_use(void*); void ghost_throw(); }
'''
ONE = '''
using T%(n)s = %(c)s;
extern "C" {
size_t s_%(n)s(){ return sizeof(T%(n)s); }
void d_%(n)s(T%(n)s* o){ o->~T%(n)s(); }
void l_%(n)s(){ T%(n)s o; ghost_use(&o); }
void p_%(n)s(){ auto p = new T%(n)s(); ghost_use(p); delete p; }
void m_%(n)s(){ T%(n)s a; { T%(n)s o(a); ghost_use(&o); a = o; } ghost_use(&a); }
void x_%(n)s(){ T%(n)s o; ghost_use(&o); ghost_throw(); }
}
'''
SHA = ['sha_1_160', 'sha_2_224', 'sha_2_256', 'sha_2_384', 'sha_2_512', 'sha_2_512_224', 'sha_2_512_256']
CLASSES = {}
for _h in SHA:
    CLASSES[_h] = 'hash::apie<hash_%s>' % _h
    CLASSES['hmac_' + _h] = 'mac::apie<mac_hmac_%s>' % _h
    CLASSES['hkdf_' + _h] = 'kdf::apie<kdf_hkdf_hmac_%s>' % _h
    CLASSES['pbkdf2_' + _h] = 'kdf::apie<kdf_pbkdf_2_hmac_%s>' % _h
CLASSES['poly'] = 'mac::apie<mac_poly_1305>'
CLASSES['chacha'] = 'cipher::apie<cipher_chacha_20>'
CLASSES['chacha_sw'] = 'cipher::apie<cipher_chacha_20_sw>'
CLASSES['chacha_ssse3'] = 'cipher::apie<cipher_chacha_20_hw_x86_64_ssse_3>'
CLASSES['chacha_avx2'] = 'cipher::apie<cipher_chacha_20_hw_x86_64_avx_2>'
CLASSES['aead'] = 'aead::apie<aead_chacha_20_poly_1305>'
LEVELS = {'-O1': {}, '-O2': dict(prepass=False, optlevel='-O2'), '-O3': dict(prepass=False, optlevel='-O3')}
SEC = lambda o: t.app('secret', 8, (o,))


def zero_set(ex, st, obj, size):
    """offsets whose content is zero in st"""
    z = set()
    ex.cur = st
    for i in range(size):
        v = ex.byte(st, Ptr(obj, const(i, 64)))
        if v.op == 'c' and v.a[0] == 0:
            z.add(i)
    return z


def dtor(mod, n):
    """bytes the destructor zeroes unconditionally"""
    ex = Exec(mod)
    size = hashth.const_ret(mod, '@s_' + n)
    st = State()
    o = st.new('obj', size, base=SEC)
    z = None
    for s in hashth.paths(ex, [st], '@d_' + n, [o]):
        y = zero_set(ex, s, 'obj', size)
        z = y if z is None else z & y
    if not z:
        raise Refuted('the destructor of %s zeroes nothing' % CLASSES.get(n, n))
    return z, size


def release(mod, n, f, z, size):
    """storage released by f holds zero in every byte of z"""
    ex = Exec(mod)
    used = []
    seen = []

    def use(ex, st, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.off.op != 'c':
            raise NotProved('object at a symbolic address')
        for i in range(size):
            ex.store(st, Ptr(p.obj, t.add(p.off, const(i, 64))), SEC(const(i, 64)), 1)
        used.append((p.obj, p.off.a[0]))

    def gone(ex, st, obj):
        for (o, off) in used:
            if o == obj and obj in st.objs:
                h = st.fork()
                ex.cur = h
                for i in sorted(z):
                    v = ex.byte(h, Ptr(obj, const(off + i, 64)))
                    ex.oblig += 1
                    if not (v.op == 'c' and v.a[0] == 0):
                        raise Refuted('byte %d of a destroyed %s object still holds %s when its storage is released (%s)' % (i, CLASSES.get(n, n), t.show(v), {'l': 'end of scope', 'p': 'delete', 'm': 'copies, end of scope', 'x': 'exception'}[f]))
                seen.append(o)
    ex.hooks['@ghost_use'] = use
    ex.hooks['@ghost_throw'] = lambda ex, st, a: (st.data.__setitem__('exc', None), 'throw')[1]
    ex.on_release = gone
    st = State()
    outs = ex.run_function(st, '@%s_%s' % (f, n), [])
    if not outs:
        raise NotProved('vacuous')
    if len(seen) < len(set(used)) or not used:
        raise NotProved('vacuous: release of the object not seen (%d of %d)' % (len(seen), len(used)))


def part1(mods, n):
    z, size = dtor(mods['-O1'], n)
    c = len(z)
    for lv, mod in mods.items():
        if lv != '-O1':
            zz, ss = dtor(mod, n)
            if not z <= zz:
                raise Refuted('explicit destructor call at %s leaves bytes %s of %s' % (lv, sorted(z - zz)[:8], CLASSES.get(n, n)))
        for f in 'lpmx':
            release(mod, n, f, z, size)
            c += len(z)
    return {'obligations': c}


# ------------------------------------------------------- information flow into the bytes that are not erased

class Leak(Refuted):
    pass


_z = {}


def kept(mod):
    """offsets the destructor of the harness class does not zero"""
    k = id(mod)
    if k not in _z:
        ex = Exec(mod)
        size = hashth.const_ret(mod, '@h_sizeof')

        def gdel(ex, st, a):
            n = a[1].a[0]
            for i in range(n):
                ex.store(st, Ptr(a[0].obj, t.add(a[0].off, const(i, 64))), const(0, 8), 1)
        ex.hooks['@g_del'] = gdel
        st = State()
        o = st.new('obj', size, base=SEC)
        z = set()
        sts = [s for s in ex.run_function(st, '@h_del', [o])]
        if not sts:
            raise NotProved('vacuous')
        z = set(range(size))
        for s in sts:
            if s.out[0] != 'ret':
                raise NotProved('destructor ends in %s' % (s.out,))
            z &= zero_set(ex, s, 'obj', size)
        _z[k] = (sorted(set(range(size)) - z), size)
    return _z[k]


def leaves(v, out, seen):
    stk = [v]
    while stk:
        x = stk.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'app':
            out.add(x)
            continue
        stk.extend(hashth.kids(x))
    return out


def content(v):
    """does the value depend on bytes read from memory (other than the object's own storage before it was written)?"""
    if isinstance(v, t.T):
        return sorted(set(x.a[0] for x in leaves(v, set(), set())))
    return []


def watch(mod, count):
    u, size = kept(mod)
    seen = {}

    def cb(ex, st, f):
        save = ex.cur
        ex.cur = st
        for nm in ('obj', 'ref'):
            ob = st.objs.get(nm)
            if ob is None or ob.size.op != 'c' if isinstance(ob.size if ob else None, t.T) else ob is None:
                continue
            for i in u:
                v = st.mem[nm] and peek(ex, st, nm, i)
                count[0] += 1
                if isinstance(v, t.T):
                    bad = [x for x in content(v) if not x.startswith('undef.' + nm)]
                    if bad:
                        raise Leak('byte %d of the object is not erased by the destructor and depends on data after %s: %s' % (i, f, t.show(v)[:200]))
        ex.cur = save
    return cb


def peek(ex, st, nm, i):
    c = ex.cell(st, st.objs[nm], st.mem[nm], const(i, 64))
    return execu.tbyte(*c) if isinstance(c[0], t.T) else None


def flow(fn, *args):
    """run the contract script fn for its states only"""
    mod = next(a for a in args if isinstance(a, irparse.Module))
    count = [0]
    import c_aeads, c_ciphers, c_hashes, c_kdfs, c_macs, c_poly
    hashth.ON_STATE = watch(mod, count)
    for m in (hashth, c_aeads, c_ciphers, c_hashes, c_kdfs, c_macs, c_poly):
        if hasattr(m, 'must_equal'):
            m.must_equal = lambda *a, **k: None
        for nm in ('compare', 'compare_objects'):
            if hasattr(m, nm):
                setattr(m, nm, lambda *a, **k: 1000)
    try:
        fn(*args)
    except Leak:
        raise
    except Refuted as e:
        raise NotProved('not an information flow problem: %s' % e)
    if not count[0] and kept(mod)[0]:
        raise NotProved('vacuous')
    return {'obligations': count[0]}


class Select:
    """collects the contracts of another check that match a pattern"""

    def __init__(self, chk, tag, rx):
        self.chk, self.tag, self.rx = chk, tag, rx
        self.extra = {}

    def ob(self, name, fn, *args, timeout=240):
        if self.rx.search(name):
            self.chk.ob('%s: %s' % (self.tag, name), flow, fn, *args, timeout=timeout)

    def fail_early(self, name, msg):
        self.chk.fail_early('%s: %s' % (self.tag, name), msg)


def part2(chk):
    import re
    import c_aeads, c_ciphers, c_hashes, c_kdfs, c_macs, c_poly
    for pid in ('H01', 'H02', 'H03'):
        s = Select(chk, pid, re.compile('update cross-block|digest fill 48|digest fill 112'))
        c_hashes.add(s, pid)
    ghost_del(c_macs, 'ghash')
    c_macs.add_m01(Select(chk, 'M01', re.compile('key: message in pieces|key up to a block: message|: digest$|: truncated tag')))
    ghost_del(c_kdfs, 'gmac')
    for pid in ('K01', 'K02'):
        c_kdfs.add(Select(chk, pid, re.compile('(part|both|fresh|whole): (blocks and part|within|part)$')), pid, sizes=[20, 32])
    s = Select(chk, 'M02', re.compile('update cross-block|tag fill 0|tag fill 8'))
    c_poly.add(s, c_poly.load(s))
    s = Select(chk, 'S01', re.compile('blocks and a part$'))
    c_ciphers.add_ratio(s, 4)
    c_aeads.SRC = c_aeads.SRC.replace('size_t h_sizeof()', 'void h_del(C* o){ o->~C(); }\nsize_t h_sizeof()', 1)
    s = Select(chk, 'A01', re.compile('in pieces|tag.* after @h_(enc|dec)$|tag form @h_dig$'))
    m, one = c_aeads.module(s)
    if m is not None:
        c_aeads.add_a01(s, m, False)


def ghost_del(m, cls):
    m.SRC = re_sub(m.SRC, cls)


def re_sub(src, cls):
    src = src.replace('struct %s {' % cls, 'extern "C" void g_del(void*, size_t);\nstruct %s {\n  constexpr ~%s() { g_del(this, sizeof(*this)); }' % (cls, cls), 1)
    return src.replace('size_t h_sizeof()', 'void h_del(C* o){ o->~C(); }\nsize_t h_sizeof()', 1)


# ------------------------------------------------------- concrete

NSRC = HEAD + """
#include <ucontext.h>
#include <cstring>
#include <string>
struct Script { const uint8_t* key; const uint8_t* msg; size_t kn, n; };
static Script S;
static void* where; static size_t how;
static uint8_t* copy;              // content at the end of the script
extern "C" void ghost_throw(){ throw 1; }
extern "C" void ghost_use(void*){}
static uint8_t outb[4096];
template<class T> void play(T& o) {
  const uint8_t *k = S.key, *m = S.msg; size_t kn = S.kn, n = S.n;
  constexpr bool enc = requires { o.encrypt(m, n, outb); }, dig = requires { o.digest(outb, size_t(8)); };
  if constexpr (enc && !dig) { o.initialize(k, kn, k + kn, size_t(16)); o.encrypt(m, n / 2, outb); o.decrypt(m, n - n / 2, outb); }
  else if constexpr (enc) { o.initialize(k, kn, k + kn, size_t(12)); o.aad(m, n / 3); o.encrypt(m, n / 2, outb); if (n & 1) o.digest(outb, size_t(16)); }
  else if constexpr (requires { o.derive(outb, size_t(1)); }) {
    if constexpr (requires { o.initialize(k, kn, m, n, uint32_t(2)); }) o.initialize(k, kn, m, n, uint32_t(2)); else o.initialize(k, kn, m, n / 2, m, n);
    o.derive(outb, n + 7); }
  else if constexpr (requires { o.initialize(k, kn); }) { o.initialize(k, kn); o.update(m, n / 2); o.update(m, n - n / 2); if (n & 1) o.digest(outb, size_t(8)); }
  else { o.initialize(); o.update(m, n / 2); o.update(m, n - n / 2); if (n & 1) o.digest(outb, size_t(8)); }
}
template<class T> __attribute__((noinline)) void local_(){ T o; play(o); where = &o; memcpy(copy, (void*)&o, sizeof o); asm volatile("" :: "r"(&o) : "memory"); }
template<class T> __attribute__((noinline)) void thrown(){ try { T o; play(o); where = &o; memcpy(copy, (void*)&o, sizeof o); asm volatile("" :: "r"(&o) : "memory"); throw 1; } catch (int) {} }
template<class T> __attribute__((noinline)) void placed(){ static unsigned char buf[4096]; auto p = new (buf) T; play(*p); where = p; memcpy(copy, (void*)p, sizeof *p); p->~T(); }
template<class T> __attribute__((noinline)) void copied(){ T o; { T a; play(a); o = a; T b(a); where = &b; memcpy(copy, (void*)&b, sizeof b); asm volatile("" :: "r"(&b), "r"(&a) : "memory"); } where = &o; asm volatile("" :: "r"(&o) : "memory"); }
static ucontext_t mainc, fibc;
alignas(64) static unsigned char stackmem[1 << 18];
static void (*entry)();
static void run_entry(){ entry(); }
static void on_stack(void (*f)()){
  getcontext(&fibc); fibc.uc_stack.ss_sp = stackmem; fibc.uc_stack.ss_size = sizeof stackmem; fibc.uc_link = &mainc; entry = f;
  makecontext(&fibc, run_entry, 0); swapcontext(&mainc, &fibc);
}
template<class T> size_t go(int form, const uint8_t* key, size_t kn, const uint8_t* msg, size_t n, uint8_t fill, uint8_t* live, uint8_t* dead){
  S = Script{key, msg, kn, n}; copy = live; memset(stackmem, fill, sizeof stackmem);
  switch (form) { case 0: on_stack(local_<T>); break; case 1: on_stack(thrown<T>); break; case 2: on_stack(placed<T>); break; default: on_stack(copied<T>); }
  memcpy(dead, where, sizeof(T)); return sizeof(T);
}
extern "C" {
@@
}
"""


def diff(chk, opt):
    src = NSRC.replace('@@', '\n'.join('size_t go_%s(int f, const uint8_t* k, size_t kn, const uint8_t* m, size_t n, uint8_t x, uint8_t* a, uint8_t* b){ return go<%s>(f, k, kn, m, n, x, a, b); }' % x for x in CLASSES.items()))
    lib = ctypes.CDLL(build.native(src, 'erase' + opt, flags=(opt,)))
    rnd = random.Random(core.SEED + 3)
    flags = open('/proc/cpuinfo').read()
    n, fails = 0, []
    for nm in CLASSES:
        if 'avx2' in nm and ' avx2' not in flags or 'ssse3' in nm and ' ssse3' not in flags:
            continue
        f = getattr(lib, 'go_' + nm)
        f.restype = ctypes.c_size_t
        for rep in range(12 if core.TIER == 'quick' else 60):
            form = rep % 4
            kn = 32 if 'chacha' in nm or nm in ('aead', 'poly') else rnd.choice([0, 16, 64, 100, 200])
            ln = rnd.choice([0, 1, 2, 63, 64, 127, 300, rnd.randrange(400)])
            fill = rnd.randrange(256)
            res = []
            for v in range(2):
                a, b = ctypes.create_string_buffer(4096), ctypes.create_string_buffer(4096)
                key, msg = rnd.randbytes(kn + 16), rnd.randbytes(max(ln, 1))
                kb, mb = KEEP('k', key), KEEP('m', msg)
                sz = f(form, kb, ctypes.c_size_t(kn), mb, ctypes.c_size_t(ln), ctypes.c_uint8(fill), a, b)
                res.append((a.raw[:sz], b.raw[:sz], key, msg))
            n += 1
            # later calls may reuse the released stack: a leftover is a byte that differed between the runs and still does, unchanged
            bad = [i for i in range(sz) if res[0][0][i] != res[1][0][i] and all(r[0][i] == r[1][i] for r in res)]
            if bad:
                fails.append({'class': CLASSES[nm], 'compiled': 'g++ ' + opt, 'form': ['end of scope', 'exception', 'placement', 'copies'][form], 'key': res[0][2].hex(), 'message': res[0][3].hex(), 'fill': fill,
                              'offsets': bad[:16], 'left': bytes(res[0][1][i] for i in bad[:64]).hex()})
                if len(fails) > 3:
                    return n, fails, ''
    return n, fails, 'g++ %s: objects of every class compared byte by byte after destruction, two runs with different data of the same lengths' % opt


_bufs = {}


def KEEP(k, data):
    """same address for the same length, so that stored views do not differ"""
    if (k, len(data)) not in _bufs:
        _bufs[k, len(data)] = ctypes.create_string_buffer(max(len(data), 1))
    b = _bufs[k, len(data)]
    ctypes.memmove(b, data, len(data))
    return b


def main(pid):
    chk = core.Check(pid, assumptions=['the bytes outside the erased set hold lengths, flags, padding and views of the caller\'s buffers; lengths and addresses are not secret',
                                       'temporaries on the stack and copies made by the caller are not objects of the library'],
                     trusted=['irvc IR semantics', 'irvc term normaliser (fuzzed)', 'z3', 'clang++-18 / opt-18 (volatile stores are kept by the code generator)'])
    names = list(CLASSES)
    for i in range(0, len(names), 6):
        grp = names[i:i + 6]
        try:
            mods = {lv: irparse.parse(build.ir(HEAD + ''.join(ONE % dict(n=n, c=CLASSES[n]) for n in grp), **kw)) for lv, kw in LEVELS.items()}
        except Exception as e:
            chk.fail_early('ir destructors %d' % i, repr(e)[:600])
            continue
        for n in grp:
            chk.ob('destructor of %s' % CLASSES[n], part1, mods, n)
    part2(chk)
    for opt in ('-O2', '-O3'):
        chk.differential('leftovers ' + opt, diff, opt)
    return chk.finish()
