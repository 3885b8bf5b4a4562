"""X03: runtime dispatch

The static initializers of the real headers are executed with a CPUID whose answers are arbitrary, then the member functions;
on every path the implementations called are those of the first entry of the declared preference list whose declared
requirements are all reported, for every CPUID answer.  cpuid.asm itself is under contract.  Every instruction reachable in an
assembly backend is attributed to an instruction set by the GNU assembler and must be baseline or declared; C++ is compiled for
the baseline."""
import os
import re
import subprocess

import build
import core
import execu
import irparse
import prover
import random
import terms as t
import x86
from core import Refuted, NotProved
from execu import Exec, State, Ptr, Fn
from terms import const

ISE = ['sse_1', 'sse_2', 'sse_3', 'ssse_3', 'sse_4_1', 'sse_4_2', 'sse_4', 'avx_1', 'avx_2', 'sha_1', 'sha_2']
# Intel SDM volume 2, CPUID: leaf, register, bit
BIT = {'sse_1': (1, 3, 25), 'sse_2': (1, 3, 26), 'sse_3': (1, 2, 0), 'ssse_3': (1, 2, 9), 'sse_4_1': (1, 2, 19), 'sse_4_2': (1, 2, 20),
       'avx_1': (1, 2, 28), 'avx_2': (7, 1, 5), 'sha_1': (7, 1, 29), 'sha_2': (7, 1, 29)}

HEAD = '''
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/detail/alias.h>
#include <tuple>
#include <type_traits>
using namespace milo; using namespace milo::primitive;
template<class T> struct L;
using PREF = @PREF;
template<class C, class I, class P, class... R, class... O> struct L<internal::impl_proxy<C, I, P, internal::impl_runtime<R...>, O...>>
{ static constexpr unsigned n = sizeof...(R) + 1; template<unsigned i> using at = std::tuple_element_t<i, std::tuple<std::type_identity<PREF>, std::type_identity<R>...>>; };
template<class... X> L<internal::impl_proxy<X...>> lf(const internal::impl_proxy<X...>*);
template<class T> constexpr unsigned mask(){
  if constexpr (!std::is_class_v<T>) return 1u << 31;
  else {
    if constexpr (!requires { typename T::requirements::arch; }) return 0;
    else if constexpr (!requires { typename T::requirements::arch::x86_64; }) return 1u << 30;
    else { unsigned m = 1u << 29;
@M
      return m; } } }
'''.replace('@M', '\n'.join('      if constexpr (requires { typename T::requirements::arch::x86_64::ise::%s; }) m |= 1u << %d;' % (n, i) for i, n in enumerate(ISE)))
DIRECT = {
    'hash': '''template<class T> void direct(size_t n, %(w)s* s, uint8_t* d, const uint8_t* p){ if constexpr (std::is_class_v<T>) T::template blocks<uint8_t>(n, s, p); }
void op(size_t n, %(w)s* s, uint8_t* d, const uint8_t* p){ auto& o = *reinterpret_cast<hash::apie<D>*>(s); o.initialize(); o.update(p, size_t(300)); o.update(p, size_t(7)); o.digest(d, size_t(8)); }''',
    'mac': '''template<class T> void direct(size_t n, %(w)s* s, uint8_t* d, const uint8_t* p){ if constexpr (std::is_class_v<T>) T::template process<uint8_t>(n, s, s, 1, p); }
void op(size_t n, %(w)s* s, uint8_t* d, const uint8_t* p){ auto& o = *reinterpret_cast<mac::apie<D>*>(s); o.initialize(p, size_t(32)); o.update(p, size_t(300)); o.update(p, size_t(7)); o.digest(d, size_t(8)); }''',
    'cipher': '''template<class T> void direct(size_t n, %(w)s* s, uint8_t* d, const uint8_t* p){ if constexpr (std::is_class_v<T>) { T::template transform<uint8_t, uint8_t>(n, s, d, p); T::template generate<uint8_t>(n, s, d); } }
void op(size_t n, %(w)s* s, uint8_t* d, const uint8_t* p){ auto& o = *reinterpret_cast<cipher::apie<D>*>(s); o.initialize(p, size_t(32), p, size_t(16)); o.encrypt(p, size_t(1100), d); o.decrypt(p, size_t(7), d); }''',
}
TAIL = '''
using Q = decltype(lf(static_cast<D::impl_type*>(nullptr)));
template<unsigned i> struct entry { using T = typename Q::template at<(i < Q::n ? i : 0)>::type; };
extern "C" {
unsigned h_n(){ return Q::n; }
size_t h_size(){ return sizeof(%(apie)s); }
void h_op(%(w)s* s, uint8_t* d, const uint8_t* p){ op(0, s, d, p); }
@E
}
'''.replace('@E', '\n'.join('unsigned h_mask_%d(){ return mask<entry<%d>::T>(); } void h_direct_%d(size_t n, %%(w)s* s, uint8_t* d, const uint8_t* p){ direct<entry<%d>::T>(n, s, d, p); }' % ((i,) * 4) for i in range(6)))

HASHES = {'sha_1_160': ('hash_sha_1_160', '160', 'uint32_t'), 'sha_2_224': ('hash_sha_2_256', '224', 'uint32_t'), 'sha_2_256': ('hash_sha_2_256', '256', 'uint32_t'), 'sha_2_512': ('hash_sha_2_512', '512', 'uint64_t')}


def algs():
    """name: (kind, detail type, word)"""
    r = {}
    for n, (c, b, w) in HASHES.items():
        r[n] = ('hash', 'detail::%s<%s>' % (c, b), w)
    for be in ('detail::hash_sha_2_256_impl_sw', 'detail::hash_sha_2_256_impl_hw_x86_64_ni'):
        r['sha_2_256 preferring ' + be.split('_')[-1]] = ('hash', 'detail::hash_sha_2_256<256, option::impl_runtime<%s>>' % be, 'uint32_t')
    r['sha_1_160 preferring sw'] = ('hash', 'detail::hash_sha_1_160<160, option::impl_runtime<detail::hash_sha_1_160_impl_sw>>', 'uint32_t')
    r['chacha_20'] = ('cipher', 'detail::cipher_chacha<>', 'uint32_t')
    for be in ('sw_ietf', 'hw_x86_64_ssse_3_ietf', 'hw_x86_64_avx_2_ietf'):
        r['chacha_20 preferring ' + be] = ('cipher', 'detail::cipher_chacha<option::impl_runtime<detail::cipher_chacha_impl_%s>>' % be, 'uint32_t')
    r['poly_1305'] = ('mac', 'detail::mac_poly_1305<>', 'uint32_t')
    return r


def source(kind, ty, w):
    d = dict(w=w, apie='%s::apie<D>' % kind)
    m = re.search(r'option::impl_runtime<([^<>]*)>', ty)
    return HEAD.replace('@PREF', m.group(1) if m else 'void') + 'using D = %s;\n' % ty + DIRECT[kind] % d + TAIL % d


LEAF = re.compile(r'_impl_(sw|hw)\w*(blocks|transform|generate|process)')
NOINL = r'_impl_(sw|hw)\w*(6blocks|9transform|8generate|7process)'


def ctors(txt):
    m = re.search(r'^@llvm\.global_ctors = .*$', txt, re.M)
    if not m:
        return []
    es = re.findall(r'\{ i32 (\d+), ptr (@[-\w$.]+|@"[^"]*"), ptr', m.group(0))
    return [f for _, f in sorted(((int(p), i), f) for i, (p, f) in enumerate(es)) for f in [f]]


def base(mod, calls):
    """Exec with an arbitrary CPUID; calls: list of implementation functions entered"""
    ex = Exec(mod)
    ex.init_globals = lambda name: True

    def cpuid(ex, st, a):
        p, leaf, sub = a
        if leaf.op != 'c' or sub.op != 'c':
            raise NotProved('CPUID with a symbolic leaf')
        for i in range(4):
            ex.store(st, Ptr(p.obj, t.add(p.off, const(4 * i, 64))), t.app('cpuid%d' % i, 32, (leaf, sub)), 4)

    def rec(n):
        def h(ex, st, a):
            st.data['calls'] = st.data.get('calls', ()) + (n,)
            ty = mod.funcs[n].ret if n in mod.funcs else None
            return const(0, 64)
        return h
    ex.hooks['@milo_internal_arch_x86_64_cpuid'] = cpuid
    ex.hooks['@__cxa_guard_acquire'] = lambda ex, st, a: const(1, 32)

    def release(ex, st, a):
        ex.store(st, a[0], const(1, 8), 1)
    ex.hooks['@__cxa_guard_release'] = release
    for f in list(mod.funcs) + list(mod.decls):
        if LEAF.search(f) and not f.startswith('@h_'):
            ex.hooks[f] = rec(f)
    return ex


def reported(ise):
    if ise == 'sse_4':
        return t.and_(reported('sse_4_1'), reported('sse_4_2'))
    leaf, reg, bit = BIT[ise]
    z = const(0, 32)
    top = t.app('cpuid0', 32, (z, z))
    v = t.app('cpuid%d' % reg, 32, (const(leaf, 32), z))
    return t.and_(t.ule(const(leaf, 32), top), t.eq(t.slc(v, bit, 1), const(1, 1)))


def const_of(mod, f):
    outs = base(mod, None).run_function(State(), f, [])
    v = outs[0].out[1]
    if len(outs) != 1 or not isinstance(v, t.T) or v.op != 'c':
        raise NotProved('%s is not constant' % f)
    return v.a[0]


def entries(mod):
    """[(requirements or None if unusable, functions, unit)] in order of preference"""
    out = []
    for i in range(const_of(mod, '@h_n')):
        m = const_of(mod, '@h_mask_%d' % i)
        if m >> 31:
            continue
        if m >> 30 & 1:
            out.append((None, set()))
            continue
        ex = base(mod, None)
        st = State()
        s, d, p = st.new('s', 1 << 20), st.new('d', 1 << 20), st.new('p', 1 << 20, writable=False)
        fs = set()
        for x in ex.run_function(st, '@h_direct_%d' % i, [const(1, 64), s, d, p]):
            fs |= set(x.data.get('calls', ()))
        if not fs:
            raise NotProved('entry %d calls nothing recognisable' % i)
        out.append(([n for k, n in enumerate(ISE) if m >> k & 1], fs))
    return out


def selected(es, k):
    """condition under which entry k is the one to use"""
    def ok(i):
        if es[i][0] is None:
            return const(0, 1)
        c = const(1, 1)
        for n in es[i][0]:
            c = t.and_(c, reported(n))
        return c
    c = ok(k)
    for i in range(k):
        c = t.and_(c, t.not_(ok(i)))
    return c


def dispatch(mod, init):
    es = entries(mod)
    st = State()
    ex = base(mod, None)
    sts = [st]
    for f in init:
        nxt = []
        for s in sts:
            for x in ex.run_function(s, f, []):
                if x.out[0] != 'ret':
                    raise Refuted('static initializer ends in %s' % (x.out,), pc=x.pc)
                nxt.append(x)
        sts = nxt
    n = 0
    seen = set()
    for s in sts:
        s.data.pop('calls', None)
        o, d, p = s.new('s', const_of(mod, '@h_size')), s.new('d', 1 << 20), s.new('p', 1 << 20, writable=False)
        for x in ex.run_function(s, '@h_op', [o, d, p]):
            if prover.valid(const(0, 1), x.pc) is True:
                continue
            fs = set(x.data.get('calls', ()))
            if x.out[0] != 'ret' or not fs:
                raise Refuted('a call ends in %s after running %s' % (x.out, sorted(fs)), pc=x.pc)
            n += 1
            ks = [k for k, e in enumerate(es) if fs <= e[1]]
            if not ks:
                raise Refuted('functions of more than one implementation are mixed: %s' % sorted(fs))
            cond = const(0, 1)
            for k in ks:
                cond = t.or_(cond, selected(es, k))
                seen.add(k)
            must(x, cond, 'the implementation %s is used although the CPU does not report what it requires, or an earlier one is usable' % sorted(fs)[:2])
    if not n:
        raise NotProved('vacuous')
    # every entry is reachable unless a previous one is always usable
    for k, e in enumerate(es):
        if e[0] is not None and k not in seen and not any(x[0] == [] for x in es[:k]):
            if prover.valid(t.not_(selected(es, k)), []) is not True and not any(x[1] == e[1] for x in es[:k]):
                raise Refuted('the implementation %s is never used' % sorted(e[1])[:1])
    return {'paths': n, 'obligations': n}


def must(st, c, what):
    r = prover.valid(c, st.pc)
    if r is True:
        return
    if r is False:
        raise Refuted(what)
    raise NotProved(what)


# ------------------------------------------------------- cpuid.asm

def cpuid_asm():
    ex = Exec(irparse.Module())
    leaf, sub = t.var('leaf', 32), t.var('sub', 32)
    hi = t.var('hi', 32), t.var('hi2', 32)
    st = State()
    info = st.new('info', 16)
    n = 0
    for al in (8,):
        outs = x86.run(ex, st, 'milo_internal_arch_x86_64_cpuid', [info, t.cat(leaf, hi[0]) if False else t.zext(leaf, 64), t.zext(sub, 64)], al)
        for x in outs:
            if x.out[0] != 'ret':
                raise Refuted('ends in %s' % (x.out,), pc=x.pc)
            for i in range(16):
                v = ex.byte(x, Ptr('info', const(i, 64)))
                w = t.slc(t.app('cpuid%d' % (i // 4), 32, (leaf, sub)), 8 * (i % 4), 8)
                n += 1
                if v is not w:
                    must(x, t.eq(v, w), 'byte %d of the result of CPUID' % i)
    if not n:
        raise NotProved('vacuous')
    return {'obligations': n}


# ------------------------------------------------------- instruction sets

LEVELS = [('', None), ('sse3', 'sse_3'), ('ssse3', 'ssse_3'), ('sse4.1', 'sse_4_1'), ('sse4.2', 'sse_4_2'), ('avx', 'avx_1'), ('avx2', 'avx_2'), ('sha', 'sha')]


def classify(insns):
    """{text: instruction set} by the GNU assembler"""
    left = list(insns)
    out = {}
    for lv, name in LEVELS:
        if not left:
            break
        f = os.path.join(build.scratch(), 'isa.%d.s' % os.getpid())
        open(f, 'w').write('.arch generic64\n' + ('.arch .%s\n' % lv if lv else '\n') + '\n'.join(left) + '\n')
        r = subprocess.run(['as', f, '-o', '/dev/null'], capture_output=True, text=True)
        bad = {int(x) - 3 for x in re.findall(r'\.s:(\d+): Error', r.stderr)}
        for i, x in enumerate(left):
            if i not in bad:
                out[x] = name
        left = [x for i, x in enumerate(left) if i in bad]
    for x in left:
        out[x] = 'other'
    return out


def att(obj):
    """{address: text} of the linked object"""
    txt = subprocess.run(['objdump', '-d', '-w', '-M', 'suffix', '--no-show-raw-insn', obj], capture_output=True, text=True, check=True).stdout
    out = {}
    for l in txt.splitlines():
        m = re.match(r'^\s+([0-9a-f]+):\s+(\S+)\s*(.*)$', l)
        if m:
            r = re.sub(r'<[^>]*>|#.*', '', m.group(3)).strip()
            op = m.group(2)
            out[int(m.group(1), 16)] = 'jmp .' if op[0] == 'j' else op + ' ' + r
    return out


def asm_functions(mod, fs):
    """external functions the implementation functions end in"""
    ext = set()
    for f in fs:
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            if g in mod.decls and g not in mod.funcs:
                if g.startswith('@milo_'):
                    ext.add(g[1:])
                continue
            body = mod.text.get(g, '')
            todo += [x for x in re.findall(r'@[\w$.]+', body) if x in mod.funcs or x in mod.decls]
    return ext


def bodies(txt):
    out = {}
    for m in re.finditer(r'^define [^\n]*?(@[\w$.]+)\([^\n]*\n(.*?)^\}', txt, re.M | re.S):
        out[m.group(1)] = m.group(2)
    return out


def isa(mod, addr):
    n = 0
    for req, fs in entries(mod):
        if req is None:
            continue
        allowed = {None, 'sse_1', 'sse_2'} | set(req)
        if 'sse_4' in req:
            allowed |= {'sse_4_1', 'sse_4_2'}
        if allowed & {'sha_1', 'sha_2'}:
            allowed.add('sha')
        syms = asm_functions(mod, fs)
        if req and not syms:
            raise NotProved('no assembly behind %s' % sorted(fs)[:1])
        for s in syms:
            p = x86.program(s)
            text = att(p.path)
            code = p.reach(s)
            cl = classify(sorted({text[a] for a in code}))
            n += len(code)
            for a in code:
                if cl[text[a]] not in allowed:
                    raise Refuted('%s executes "%s" (%s), which is neither baseline nor among the declared %s' % (s, text[a], cl[text[a]], req))
    return {'obligations': n}


def target(txts):
    """no function is compiled for more than the baseline"""
    n = 0
    for name, txt in txts.items():
        for m in re.finditer(r'^attributes #\d+ = \{([^\n]*)\}', txt, re.M):
            f = re.search(r'"target-features"="([^"]*)"', m.group(1))
            c = re.search(r'"target-cpu"="([^"]*)"', m.group(1))
            n += 1
            if c and c.group(1) != 'x86-64' or f and set(f.group(1).split(',')) - {'+cmov', '+cx8', '+fxsr', '+mmx', '+sse', '+sse2', '+x87'}:
                raise Refuted('a function is compiled for %s %s' % (c and c.group(1), f and f.group(1)))
        if re.search(r'\basm (sideeffect )?"[^"]', txt):
            raise NotProved('inline assembly')
    return {'obligations': n}


# ------------------------------------------------------- concrete: the real initializers with every CPUID answer

MAIN = '''
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" { unsigned long long rec_set; 
void milo_internal_arch_x86_64_cpuid(unsigned* r, unsigned a, unsigned c){
  static unsigned v[5]; static bool done; if (!done) { const char* e = getenv("FAKE_CPUID"); sscanf(e ? e : "0 0 0 0 0", "%x %x %x %x %x", v, v + 1, v + 2, v + 3, v + 4); done = true; }
  r[0] = r[1] = r[2] = r[3] = v[4];
  if (a == 0) r[0] = v[0];
  if (a > v[0]) return;                      // beyond the highest leaf: junk
  if (a == 1) { r[2] = v[1]; r[3] = v[2]; }
  if (a == 7) { r[1] = c == 0 ? v[3] : ~v[3]; }
}
@S
}
int main(){ static uint64_t s[4096]; static uint8_t d[8192], p[8192]; printf("%u", h_n());
  unsigned m[6] = {h_mask_0(), h_mask_1(), h_mask_2(), h_mask_3(), h_mask_4(), h_mask_5()};
  for (unsigned i = 0; i < h_n(); ++i) { unsigned long long set = 0; if (!(m[i] >> 30)) { rec_set = 0; 
     switch (i) { @D } set = rec_set; } printf(" %x %llx", m[i], set); }
  rec_set = 0; h_op((W*)s, d, p); printf(" : %llx\\n", rec_set); }
'''.replace('@D', ' '.join('case %d: h_direct_%d(1, (W*)s, d, p); break;' % (i, i) for i in range(6)))
ASMSYMS = ['milo_primitive_detail_hash_sha_1_160_impl_hw_x86_64_ni_blocks', 'milo_primitive_detail_hash_sha_2_256_impl_hw_x86_64_ni_blocks'] + \
    ['milo_primitive_detail_cipher_chacha_impl_hw_x86_64_%s_ietf_%s' % (a, b) for a in ('ssse_3', 'avx_2') for b in ('transform', 'generate')]


def want(rep, ents):
    """entry to use for the set of reported features"""
    for k, (m, s) in enumerate(ents):
        if m >> 31 or m >> 30 & 1:
            continue
        need = [n for i, n in enumerate(ISE) if m >> i & 1]
        if all(r in rep or r == 'sse_4' and {'sse_4_1', 'sse_4_2'} <= rep for r in need):
            return k
    return None


def used_sets(sym):
    """{instruction set: an instruction of it} in the assembled function"""
    p = x86.program(sym)
    text = att(p.path)
    code = p.reach(sym)
    cl = classify(sorted({text[a] for a in code}))
    return {cl[text[a]]: text[a] for a in code}


def diff(chk):
    sets = {}
    for y in ASMSYMS:
        try:
            sets[y] = used_sets(y)
        except Exception:
            sets[y] = {}
    rnd = random.Random(core.SEED + 11)
    n, fails = 0, []
    exes = {}
    for name, (kind, ty, w) in algs().items():
        stubs = '\n'.join('size_t %s(){ rec_set |= 1ull << %d; return 0; }' % (s, i) for i, s in enumerate(ASMSYMS))
        src = source(kind, ty, w)
        # declared in the headers: define the stand-ins in a unit of their own
        head, tail = MAIN.split('int main()')
        stub = '#include <cstddef>\n#include <cstdint>\n' + head.replace('@S', stubs)
        so = build.native(stub, 'stub', shared=False, asm=False, flags=('-O1', '-c'))
        main = 'using W = %s;\nextern "C" unsigned long long rec_set;\n#include <cstdio>\nint main()' % w + tail
        exes[name] = (build.native(src + main, 'dispatch_' + re.sub(r'\W', '_', name), shared=False, asm=False, flags=('-O2', '-fno-access-control'), libs=(so,)))
    feats = ['sse_1', 'sse_2', 'sse_3', 'ssse_3', 'avx_1', 'avx_2', 'sha_2']
    confs = []
    for top in (0, 1, 6, 7, 0x16):
        for m in range(128):
            for noise in (0, 0xffffffff) if core.TIER == 'quick' else (0, 0xffffffff, rnd.getrandbits(32), rnd.getrandbits(32)):
                confs.append((top, m, noise))
    for name, exe in exes.items():
        cs = confs if not ('preferring' in name or name == 'poly_1305') else rnd.sample(confs, 160)
        for top, m, noise in cs:
            regs = {(1, 2): noise, (1, 3): noise, (7, 1): noise}
            for f in ISE:
                if f == 'sse_4':
                    continue
                leaf, r, b = BIT[f]
                if f in feats:
                    on = m >> feats.index(f) & 1
                elif f == 'sha_1':
                    on = m >> feats.index('sha_2') & 1
                else:
                    on = noise >> b & 1
                regs[leaf, r] = regs[leaf, r] & ~(1 << b) | on << b
            rep = {f for f in BIT if top >= BIT[f][0] and regs[BIT[f][:2]] >> BIT[f][2] & 1}
            env = dict(os.environ, FAKE_CPUID='%x %x %x %x %x' % (top, regs[1, 2], regs[1, 3], regs[7, 1], noise))
            r = subprocess.run([exe], capture_output=True, text=True, env=env)
            n += 1
            conf = {'algorithm': name, 'highest leaf': top, 'leaf 1 ecx': '%08x' % regs[1, 2], 'leaf 1 edx': '%08x' % regs[1, 3], 'leaf 7 ebx': '%08x' % regs[7, 1]}
            f = r.stdout.split()
            if r.returncode or ':' not in f:
                fails.append(dict(conf, what='ends with status %s' % r.returncode))
            else:
                k = int(f[0])
                ents = [(int(f[1 + 2 * i], 16), int(f[2 + 2 * i], 16)) for i in range(k)]
                w = want(rep, ents)
                have = rep | {None, 'sse_1', 'sse_2'} | ({'sha'} if 'sha_1' in rep else set())
                alien = [(y, ins) for i, y in enumerate(ASMSYMS) if int(f[-1], 16) >> i & 1 for z, ins in sets[y].items() if z not in have]
                if alien:
                    fails.append(dict(conf, reported=sorted(rep), executes='%s in %s' % (alien[0][1], alien[0][0])))
                got = int(f[-1], 16)
                if w is None or got & ~ents[w][1] or (ents[w][1] and not got):
                    fails.append(dict(conf, reported=sorted(rep), called=[s for i, s in enumerate(ASMSYMS) if got >> i & 1] or ['portable'],
                                      expected=[s for i, s in enumerate(ASMSYMS) if w is not None and ents[w][1] >> i & 1] or ['portable']))
            if len(fails) > 3:
                return n, fails, ''
    return n, fails, 'g++ build with a stand-in CPUID and recording stand-ins for the assembly functions: every combination of the feature bits, highest leaves 0, 1, 6, 7, 22'


CPUIDSRC = r"""
#include <cpuid.h>
#include <cstdint>
#include <cstddef>
extern "C" {
void milo_internal_arch_x86_64_cpuid(uint32_t*, uint32_t, uint32_t);
uint64_t abi_call(void* f, uint64_t a, uint64_t b, uint64_t c, uint64_t* keep);
asm(R"(
abi_call: push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15; push %r8; mov %rdi, %rax; mov %rsi, %rdi; mov %rdx, %rsi; mov %rcx, %rdx
 mov $0x1111111111111111, %rbx; mov $0x2222222222222222, %rbp; mov $0x3333333333333333, %r12; mov $0x4444444444444444, %r13; mov $0x5555555555555555, %r14; mov $0x6666666666666666, %r15
 mov $0xeeeeeeee, %rcx; call *%rax
 pop %r8; mov %rbx, (%r8); mov %rbp, 8(%r8); mov %r12, 16(%r8); mov %r13, 24(%r8); mov %r14, 32(%r8); mov %r15, 40(%r8)
 pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret
)");
int check(uint32_t leaf, uint32_t sub, uint32_t* got, uint32_t* want, uint64_t* keep){
  for (int i = 0; i < 6; ++i) got[i] = want[i] = 0xabababab;
  abi_call((void*)milo_internal_arch_x86_64_cpuid, (uint64_t)(got + 1), leaf, sub, keep);
  __cpuid_count(leaf, sub, want[1], want[2], want[3], want[4]);
  int bad = 0;
  for (int i = 0; i < 6; ++i) { uint32_t m = i == 2 && leaf == 1 ? 0xffffff : 0xffffffff; if ((got[i] ^ want[i]) & m) bad |= 1; }
  for (int i = 0; i < 6; ++i) if (keep[i] != (i + 1) * 0x1111111111111111ull) bad |= 2;
  return bad; }
}
"""


def diff_cpuid(chk):
    import ctypes
    lib = ctypes.CDLL(build.native(CPUIDSRC, 'cpuid'))
    n, fails = 0, []
    for leaf, sub in [(0, 0), (1, 0), (7, 0), (7, 1), (7, 2), (0x80000000, 0), (0x80000001, 0), (2, 0), (4, 0), (4, 1), (4, 2), (4, 3)]:
        a, b, k = (ctypes.c_uint32 * 6)(), (ctypes.c_uint32 * 6)(), (ctypes.c_uint64 * 6)()
        n += 1
        r = lib.check(ctypes.c_uint32(leaf), ctypes.c_uint32(sub), a, b, k)
        if r:
            fails.append({'leaf': leaf, 'subleaf': sub, 'returned': [hex(x) for x in a], 'cpuid instruction': [hex(x) for x in b], 'rbx rbp r12-r15 after the call': [hex(x) for x in k]})
    return n, fails, 'milo_internal_arch_x86_64_cpuid against the cpuid instruction on this machine, callee-saved registers'


def main(pid):
    chk = core.Check(pid, assumptions=['the operating system saves the vector registers (OSXSAVE and XCR0 are not part of the declared requirements)',
                                       'a CPU that reports an instruction set implements it; the baseline is x86-64 (SSE2)'],
                     trusted=['irvc IR and x86 semantics', 'irvc term normaliser (fuzzed)', 'z3', 'clang++-18 / opt-18', 'GNU as (which instruction belongs to which set)', 'objdump'])
    mods, txts = {}, {}
    for name, (kind, ty, w) in algs().items():
        try:
            txt = build.ir(source(kind, ty, w), noinline=NOINL, defs=('-fno-access-control',))
            txts[name] = txt
            m = mods[name] = irparse.parse(txt)
            m.text = bodies(txt)
            init = ctors(txt)
        except Exception as e:
            chk.fail_early('ir ' + name, repr(e)[:600])
            continue
        chk.ob('selection of %s' % name, dispatch, m, init)
    try:
        x86.program('milo_internal_arch_x86_64_cpuid')
        for name in ('sha_1_160', 'sha_2_256', 'chacha_20'):
            if name in mods:
                chk.ob('instructions of %s' % name, isa, mods[name], 0)
        chk.ob('cpuid.asm', cpuid_asm)
    except Exception as e:
        chk.fail_early('assembly', repr(e)[:600])
    chk.ob('C++ code is compiled for the baseline', target, txts)
    chk.differential('dispatch', diff)
    chk.differential('cpuid', diff_cpuid)
    return chk.finish()
