"""X02: re-initialization and copies

Part 1: the member function contracts of H01-H03, M01, M02, S01, A01, K01 and K02 start from initialize() on an object with
arbitrary contents; every byte those functions return or write for the caller, and every object byte a later call may use, is
shown not to depend on those previous contents (directly or through a branch).  A freshly constructed object is one such object,
so both behave alike.  No member function writes memory other than the object, its results and locals.
Part 2: copy/move construction and assignment of every public class reproduce every non-padding byte and leave the source alone."""
import ctypes

import build
import c_erase
import core
import execu
import hashth
import irparse
import terms as t
from c_erase import CLASSES, HEAD
from core import Refuted, NotProved
from execu import Exec, State, Ptr, tbyte
from terms import const


class Junk(Refuted):
    pass


JUNK = ('undef.obj', 'undef.ref', 'undef.two', 'undef.one')


def junk(v):
    return isinstance(v, t.T) and any(l.op == 'app' and l.a[0] in JUNK for l in t.leaves(v))


def flow(fn, *args):
    import c_aeads, c_ciphers, c_hashes, c_kdfs, c_macs, c_poly
    count = [0]
    orig, ocmp = hashth.must_equal, hashth.compare_objects
    inside = [0]

    def must(ex, st, a, b, what):
        count[0] += 1
        if junk(a) or any(junk(c) for c in st.pc):
            try:
                return orig(ex, st, a, b, what)
            except Refuted as e:
                raise Junk('depends on the contents of the object before initialize(): %s' % e)
        if inside[0]:
            return orig(ex, st, a, b, what)

    def compare(*a, **k):
        inside[0] += 1
        try:
            return ocmp(*a, **k)
        finally:
            inside[0] -= 1

    def observe(ex, st, f):
        for nm, o in st.objs.items():
            if o.kind == 'global' and o.writable and any(st.mem[nm].layers):
                raise NotProved('%s writes the global %s' % (f, nm))
            if nm in ('obj', 'ref') and o.csize:
                for i in range(0, o.csize, 8):
                    c = ex.cell(st, o, st.mem[nm], const(i, 64))
                    if isinstance(c[0], Ptr) and c[0].obj in ('obj', 'ref'):
                        raise Junk('%s leaves a pointer into the object itself at byte %d: a copy would share state' % (f, i))
                    count[0] += 1
    hashth.ON_STATE = observe
    for m in (hashth, c_aeads, c_ciphers, c_hashes, c_kdfs, c_macs, c_poly):
        if hasattr(m, 'must_equal'):
            m.must_equal = must
        if hasattr(m, 'compare_objects'):
            m.compare_objects = compare
    try:
        fn(*args)
    except Junk:
        raise
    except Refuted as e:
        raise NotProved('not about previous contents: %s' % e)
    if not count[0]:
        raise NotProved('vacuous')
    return {'obligations': count[0]}


class Select:
    def __init__(self, chk, tag, rx=None):
        import re
        self.chk, self.tag, self.rx = chk, tag, re.compile(rx or '')
        self.extra = {}

    def ob(self, name, fn, *args, timeout=240):
        if core.TIER == 'thorough' or self.rx.search(name):
            if not fn.__name__.startswith('leaf'):
                self.chk.ob('%s: %s' % (self.tag, name), flow, fn, *args, timeout=timeout)

    def fail_early(self, name, msg):
        self.chk.fail_early('%s: %s' % (self.tag, name), msg)


def part1(chk):
    import c_aeads, c_ciphers, c_hashes, c_kdfs, c_macs, c_poly
    for pid in ('H01', 'H02', 'H03'):
        c_hashes.add(Select(chk, pid, r'^(sha1|sha256|sha512) digest fill|update'), pid)
    c_macs.add_m01(Select(chk, 'M01', 'key: message in pieces|: digest$|truncated tag|no message'))
    for pid in ('K01', 'K02'):
        c_kdfs.add(Select(chk, pid, '(part|both|fresh|whole|none): |^h_|@h_'), pid, sizes=[20, 32])
    s = Select(chk, 'M02', 'update|tag fill')
    c_poly.add(s, c_poly.load(s))
    c_ciphers.add_ratio(Select(chk, 'S01', 'part|block'), 4)
    s = Select(chk, 'A01', '@h_(enc|dec)|in pieces|tag')
    m, one = c_aeads.module(s)
    if m is not None:
        c_aeads.add_a01(s, m, False)


# ------------------------------------------------------- copies

ONE = '''
using T%(n)s = %(c)s;
extern "C" {
size_t s_%(n)s(){ return sizeof(T%(n)s); }
void cc_%(n)s(T%(n)s* o, const T%(n)s* s){ new (o) T%(n)s(*s); }
void mc_%(n)s(T%(n)s* o, T%(n)s* s){ new (o) T%(n)s(static_cast<T%(n)s&&>(*s)); }
void ca_%(n)s(T%(n)s* o, const T%(n)s* s){ *o = *s; }
void ma_%(n)s(T%(n)s* o, T%(n)s* s){ *o = static_cast<T%(n)s&&>(*s); }
}
'''
FORM = {'cc': 'copy construction', 'mc': 'move construction', 'ca': 'copy assignment', 'ma': 'move assignment'}


def padding():
    """{class: set of padding offsets} by g++"""
    src = HEAD + '#include <cstring>\nextern "C" {\n' + '\n'.join(
        'size_t pad_%s(unsigned char* m){ %s o; memset((void*)&o, 255, sizeof o); __builtin_clear_padding(&o); memcpy(m, (void*)&o, sizeof o); return sizeof o; }' % (n, c) for n, c in CLASSES.items()) + '}\n'
    src = src.replace('extern "C" { void ghost_use(void*); void ghost_throw(); }', '')
    lib = ctypes.CDLL(build.native(src, 'padding', flags=('-O0',)))
    out = {}
    for n in CLASSES:
        b = ctypes.create_string_buffer(8192)
        k = getattr(lib, 'pad_' + n)(b)
        out[n] = ({i for i in range(k) if b.raw[i] == 0}, k)
    return out


def copies(mod, n, pad, gsize):
    size = hashth.const_ret(mod, '@s_' + n)
    if gsize != size:
        raise NotProved('g++ and clang lay the class out differently')
    S = lambda o: t.app('src', 8, (o,))
    c = 0
    for f in FORM:
        for same in (False, True) if f in ('ca',) else (False,):
            ex = Exec(mod)
            st = State()
            s = st.new('src', size, base=S)
            o = s if same else st.new('obj', size)
            try:
                outs = hashth.paths(ex, [st], '@%s_%s' % (f, n), [o, s])
            except execu.Violation as e:                        # the source is arbitrary, not a reachable object
                raise NotProved('reads depend on the state of the source: %s' % e)
            if not outs:
                raise NotProved('vacuous')
            for x in outs:
                ex.cur = x
                for nm in ('src',) + (() if same else ('obj',)):
                    if nm == 'src' and f[0] == 'm':
                        continue
                    for i in range(size):
                        if i in pad:
                            continue
                        v, k = ex.cell(x, x.objs[nm], x.mem[nm], const(i, 64))
                        if isinstance(v, Ptr) and v.obj == 'int':
                            v = v.off
                        v = tbyte(v, k)
                        want = S(const(i, 64))
                        c += 1
                        if v is want or v is t.zext(t.slc(want, 0, 1), 8):      # a bool holds 0 or 1
                            continue
                        try:
                            hashth.must_equal(ex, x, v, want, '%s of %s%s: byte %d of the %s' % (FORM[f], CLASSES[n], ' to itself' if same else '', i, 'source' if nm == 'src' else 'copy'))
                        except Refuted as e:
                            if x.pc or v.op == 'ite':          # copied in some states only, perhaps because it is not used in the others
                                raise NotProved(str(e))
                            raise
                for nm, g in x.objs.items():
                    if g.kind == 'global' and g.writable and any(x.mem[nm].layers):
                        raise NotProved('%s writes the global %s' % (FORM[f], nm))
    return {'obligations': c}


# ------------------------------------------------------- concrete

NSRC = HEAD.replace('extern "C" { void ghost_use(void*); void ghost_throw(); }', '') + r'''
#include <cstring>
#include <string>
#include <vector>
#include <utility>
using Bytes = std::vector<uint8_t>;
static uint64_t rs;
static uint64_t rnd(){ rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull >> 11; }
static uint8_t data[1 << 14];
struct Op { int kind; size_t at, n, k; };
static size_t len(){ switch (rnd() % 6) { case 0: return 0; case 1: return 1 + rnd() % 3; case 2: return 60 + rnd() % 10; case 3: return 124 + rnd() % 10; case 4: return rnd() % 64; default: return rnd() % 700; } }
static Op op(){ return Op{int(rnd() % 4), rnd() % 4096, len(), rnd() % 70}; }
template<class T> constexpr bool is_enc = requires (T& o, uint8_t* p) { o.encrypt(p, size_t(1), p); };
template<class T> constexpr bool is_dig = requires (T& o, uint8_t* p) { o.digest(p, size_t(1)); };
template<class T> constexpr bool is_kdf = requires (T& o, uint8_t* p) { o.derive(p, size_t(1)); };
template<class T> void init(T& o, const Op& q){
  const uint8_t* d = data + q.at; size_t kn = q.n % 300;
  if constexpr (is_enc<T>) o.initialize(d, size_t(q.k % 3 ? 32 : 31), d + 40, size_t(is_dig<T> ? 12 : 16));
  else if constexpr (is_kdf<T>) { if constexpr (requires { o.initialize(d, kn, d, kn, uint32_t(2)); }) o.initialize(d, kn, d + 300, q.k, uint32_t(1 + q.at % 3)); else o.initialize(d, kn, d + 300, q.k, d + 500, q.at % 90); }
  else if constexpr (requires { o.initialize(d, kn); }) o.initialize(d, kn);
  else o.initialize();
}
template<class T> void step(T& o, const Op& q, Bytes& out){
  const uint8_t* d = data + q.at; static uint8_t b[2048]; memset(b, 0, sizeof b); size_t w = 0;
  if constexpr (is_enc<T> && is_dig<T>) switch (q.kind) { case 0: o.aad(d, q.n); break; case 1: w = o.digest(b, q.k % 20); break; case 2: w = o.encrypt(d, q.n, b); break; default: w = o.decrypt(d, q.n, b); }
  else if constexpr (is_enc<T>) { if (q.kind & 1) o.encrypt(d, q.n, b); else o.decrypt(d, q.n, b); w = q.n; }
  else if constexpr (is_kdf<T>) { o.derive(b, q.n % 150); w = q.n % 150; }
  else if (q.kind == 3) w = o.digest(b, q.k); else o.update(d, q.n);
  out.insert(out.end(), b, b + w); out.push_back(uint8_t(q.kind));
}
static std::string last;
static std::string show(const std::vector<Op>& v){ std::string s; for (auto& o : v) s += "(" + std::to_string(o.kind) + "," + std::to_string(o.at) + "," + std::to_string(o.n) + "," + std::to_string(o.k) + ")"; return s; }
template<class T> int one(uint64_t seed){
  rs = seed * 0x9E3779B97F4A7C15ull + 1; for (auto& c : data) c = uint8_t(rnd());
  std::vector<Op> hist, first, later, noise; Op i0 = op(), i1 = op();
  size_t a = rnd() % 6, b = rnd() % 4, c = 1 + rnd() % 5;
  while (a--) hist.push_back(op()); while (b--) first.push_back(op()); while (c--) later.push_back(op()); for (int i = 0; i < 3; ++i) noise.push_back(op());
  if (rnd() & 1) later.push_back(Op{is_enc<T> && is_dig<T> ? 1 : 3, 0, 40, 64});
  int how = int(rnd() % 5); bool tail = rnd() & 1;
  alignas(64) static unsigned char mem[3][8192]; memset(mem, int(rnd() & 255), sizeof mem);
  Bytes want, x, got, junk, src;
  { alignas(64) static unsigned char fresh[8192]; memset(fresh, 0, sizeof fresh); asm volatile("" ::: "memory"); auto& o = *new (fresh) T; init(o, i1); for (auto& q : first) step(o, q, want); x = want; for (auto& q : later) step(o, q, want); o.~T(); }
  auto& o = *new (mem[0]) T; init(o, i0); for (auto& q : hist) step(o, q, junk);
  init(o, i1); for (auto& q : first) step(o, q, got);
  last = "history " + show({i0}) + show(hist) + " then initialize " + show({i1}) + show(first) + " then " + std::to_string(how) + " then " + show(later) + " (operations: kind,offset,length,digest length; 0 new history, 1 copy construction, 2 copy assignment, 3 move construction, 4 self assignment)";
  if (got != x) { o.~T(); last += ": results before the copy differ"; return 1; }
  T* p = &o; T* third = nullptr;
  if (how == 1) p = new (mem[1]) T(static_cast<const T&>(o));
  if (how == 2) { p = new (mem[1]) T; init(*p, noise[0]); step(*p, noise[1], junk); *p = static_cast<const T&>(o); }
  if (how == 3) p = new (mem[1]) T(T(o));
  if (how == 4) o = static_cast<const T&>(o);
  if (how && tail) { third = new (mem[2]) T(*p); }
  src = got;
  int bad = 0;
  for (size_t k = 0; k < later.size(); ++k) {
    step(*p, later[k], got);
    if (p != &o && (k & 1) && how != 4) for (auto& q : noise) step(third ? *third : *p == *p ? *p : *p, third ? q : Op{0, 0, 0, 0}, junk);
    if (third && k == 0) { init(*third, noise[2]); step(*third, noise[1], junk); }
  }
  if (got != want) { bad = 1; last += ": results differ from a new object"; }
  if (p != &o && !bad) { for (auto& q : later) step(o, q, src); if (src != want) { bad = 1; last += ": the original's results changed"; } }
  if (third) third->~T(); if (p != &o) p->~T(); o.~T();
  return bad;
}
extern "C" { const char* what(){ return last.c_str(); }
@@
}
'''


def diff(chk, opt):
    src = NSRC.replace('step(third ? *third : *p == *p ? *p : *p, third ? q : Op{0, 0, 0, 0}, junk)', 'if (third) step(*third, q, junk)')
    src = src.replace('@@', '\n'.join('int run_%s(uint64_t s){ return one<%s>(s); }' % x for x in CLASSES.items()))
    lib = ctypes.CDLL(build.native(src, 'reuse' + opt, flags=(opt,)))
    lib.what.restype = ctypes.c_char_p
    flags = open('/proc/cpuinfo').read()
    n, fails = 0, []
    for nm in CLASSES:
        if 'avx2' in nm and ' avx2' not in flags or 'ssse3' in nm and ' ssse3' not in flags:
            continue
        for i in range(1500 if core.TIER == 'quick' else 50000):
            n += 1
            seed = core.SEED * 1000003 + i
            if getattr(lib, 'run_' + nm)(ctypes.c_uint64(seed)):
                fails.append({'class': CLASSES[nm], 'compiled': 'g++ ' + opt, 'seed': seed, 'sequence': lib.what().decode()})
                if len(fails) > 3:
                    return n, fails, ''
                break
    return n, fails, 'g++ %s: random histories on every class: used object initialized again, copies in every form, interleaved with calls on other copies' % opt


def main(pid):
    chk = core.Check(pid, assumptions=['buffers the caller lends to the object (key derivation salt and info) stay unchanged', 'a bool member holds 0 or 1',
                                       'objects are not used by two threads at once'],
                     trusted=['irvc IR semantics', 'irvc term normaliser (fuzzed)', 'z3', 'clang++-18 / opt-18', 'g++ __builtin_clear_padding for the padding bytes'])
    part1(chk)
    try:
        pad = padding()
    except Exception as e:
        chk.fail_early('padding', repr(e)[:500])
        pad = None
    names = list(CLASSES)
    for i in range(0, len(names), 9):
        grp = names[i:i + 9]
        try:
            mod = irparse.parse(build.ir(HEAD + ''.join(ONE % dict(n=n, c=CLASSES[n]) for n in grp)))
        except Exception as e:
            chk.fail_early('ir copies %d' % i, repr(e)[:600])
            continue
        if pad:
            for n in grp:
                chk.ob('copies of %s' % CLASSES[n], copies, mod, n, *pad[n])
    for opt in ('-O2',):
        chk.differential('histories ' + opt, diff, opt)
    return chk.finish()
