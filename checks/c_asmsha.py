"""H04: SHA-NI block functions (machine code) against FIPS 180-4"""
import ctypes
import os
import random
import subprocess

import build
import core
import guarded
import hashth
import irparse
import spec
import terms as t
import x86
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from terms import const

SYM = {'sha1': 'milo_primitive_detail_hash_sha_1_160_impl_hw_x86_64_ni_blocks', 'sha256': 'milo_primitive_detail_hash_sha_2_256_impl_hw_x86_64_ni_blocks'}
SPEC = {'sha1': spec.SHA1, 'sha256': spec.SHA256}


def leaf(fam, align):
    """state' = compress^n(state, data) for all n; frame, alignment and ABI obligations on the way; rax = n"""
    mod = irparse.Module()
    last = {}

    def asm(ex, st, args):
        outs = x86.run(ex, st, SYM[fam], args, align)
        for o in outs:
            last['used'] = len(ex.machine.used)
            if o.out[0] == 'ret':
                hashth.must_equal(ex, o, o.out[1], args[0], 'block count returned')
        return outs
    hashth.leaf_block(mod, None, SPEC[fam], asm=asm)
    return {'obligations': last['used']}


WRAP = '''
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/detail/alias.h>
using namespace milo::primitive::detail;
extern "C" void w_sha1(size_t n, uint32_t* s, const uint8_t* p){ hash_sha_1_160_impl_hw_x86_64_ni::blocks(n, s, p); }
extern "C" void w_sha256(size_t n, uint32_t* s, const uint8_t* p){ hash_sha_2_256_impl_hw_x86_64_ni::blocks(n, s, p); }
extern "C" void w_sha1c(size_t n, uint32_t* s, const char* p){ hash_sha_1_160_impl_hw_x86_64_ni::blocks(n, s, p); }
extern "C" void w_sha256c(size_t n, uint32_t* s, const char* p){ hash_sha_2_256_impl_hw_x86_64_ni::blocks(n, s, p); }
'''


def wrapper(mod, fam):
    """the C++ wrapper passes count, state and data through unchanged, once"""
    for suf in ('', 'c'):
        ex = Exec(mod)
        seen = []

        def hook(ex, st, a):
            seen.append(a)
            return t.var('rax', 64)
        ex.hooks['@' + SYM[fam]] = hook
        st = State()
        n = t.var('n', 64)
        S = st.new('state', 4 * SPEC[fam].nw)
        D = st.new('data', t.var('dn', 64))
        outs = ex.run_function(st, '@w_' + fam + suf, [n, S, D])
        for o in outs:
            if o.out[0] != 'ret':
                raise Refuted('wrapper ends in %s' % (o.out,), pc=o.pc)
        if len(seen) != 1 or len(outs) != 1:
            raise Refuted('%d calls of the block function' % len(seen))
        a = seen[0]
        if a[0] is not n or not all(isinstance(p, Ptr) and p.obj == o and p.off is const(0, 64) for p, o in ((a[1], S.obj), (a[2], D.obj))):
            raise Refuted('arguments of the block function: %s' % (a,))
    return {'obligations': 6}


def preload(chk, syms):
    """assemble and link once, before the obligations are distributed"""
    for s in syms:
        try:
            x86.program(s)
        except Exception as e:
            chk.fail_early('machine code of ' + s, repr(e)[:600])


def add(chk, fams, tag=''):
    preload(chk, [SYM[f] for f in fams])
    try:
        wm = irparse.parse(build.ir(WRAP))
    except Exception as e:
        return chk.fail_early('ir of the wrappers', repr(e)[:600])
    for f in fams:
        for al in (8, 24):
            chk.ob('SHA-NI machine code %s, stack = %d mod 32' % (f, al), leaf, f, al)
        chk.ob('SHA-NI wrapper %s' % f, wrapper, wm, f)


def have(*fl):
    c = open('/proc/cpuinfo').read()
    i = c.find('flags')
    return all(f in c[i:c.find('\n', i)].split() for f in fl)


# ---------------------------------------------- the instruction semantics against the CPU

def semantics(chk, syms, need):
    """every distinct vector instruction of the code on random registers: real CPU against x86.Machine on constants"""
    if not have(*need):
        return 0, [], 'skipped: this CPU lacks %s' % (need,)
    rnd = random.Random(core.SEED)
    texts = {}
    for sym in syms:
        p = x86.program(sym)
        for a in p.reach(sym):
            i = p.insns[a]
            if any('xmm' in x or 'ymm' in x for x in i.args) and not (i.args[0].find('[') >= 0):
                args = ['[rel membuf]' if '[' in x else x for x in i.args]
                if any(x in x86.NAMES for x in args):
                    continue
                texts.setdefault(i.op + ' ' + ', '.join(args), (i, p))
    src = ['bits 64', 'section .data', 'align 64', 'global membuf', 'membuf: times 32 db 0', 'section .text']
    names = sorted(texts)
    for k, x in enumerate(names):
        src += ['global f%d' % k, 'f%d:' % k] + ['vmovdqu ymm%d, [rdi + %d]' % (r, 32 * r) for r in range(16)] + [x] + \
            ['vmovdqu [rdi + %d], ymm%d' % (32 * r, r) for r in range(16)] + ['vzeroupper', 'ret']
    b = os.path.join(build.scratch(), 'sem_%d' % os.getpid())
    open(b + '.asm', 'w').write('\n'.join(src) + '\n')
    build.sh(['nasm', '-f', 'elf64', b + '.asm', '-o', b + '.o'])
    build.sh(['ld', '-shared', '-o', b + '.so', b + '.o'])
    lib = ctypes.CDLL(b + '.so')
    mem = (ctypes.c_uint8 * 32).in_dll(lib, 'membuf')
    n, fails = 0, []
    for k, x in enumerate(names):
        i, p = texts[x]
        for rep in range(3):
            regs = rnd.randbytes(512)
            mb = rnd.randbytes(32) if 'shufb' not in x or rep else bytes(rnd.randrange(256) for _ in range(32))
            ctypes.memmove(mem, mb, 32)
            buf = ctypes.create_string_buffer(regs, 512)
            getattr(lib, 'f%d' % k)(buf)
            ex = Exec(irparse.Module())
            m = x86.Machine(p, ex)
            st = State()
            m.setup(st, [], 8)
            q = st.new('mb', 32, base=lambda o: const(mb[o.a[0]], 8))
            m.align[q.obj] = 64
            m.gput(st, 0, q)
            for r in range(128):
                ex.store(st, Ptr('regs', const(x86.VEC + 4 * r, 64)), const(int.from_bytes(regs[4 * r:4 * r + 4], 'little'), 32), 4)
            size = {'movd': 'DWORD', 'movq': 'QWORD'}.get(i.op.lstrip('v'), '')
            ar = [(size + ' PTR ' if size else '') + '[rax]' if '[' in y else y for y in i.args]
            j = x86.Insn(0, i.op, ar, 0)
            ex.cur = st
            m.step(st, j)
            got = b''.join(ex.load(st, Ptr('regs', const(x86.VEC + 4 * r, 64)), 4).a[0].to_bytes(4, 'little') for r in range(128))
            n += 1
            if got != buf.raw:
                raise NotProved('instruction model differs from the CPU: ' + x)
    return n, fails, 'instruction model against this CPU: %d distinct vector instructions' % len(names)


NSRC = '''
#include <cstdint>
#include <cstddef>
extern "C" uint64_t %s(uint64_t, uint32_t*, const uint8_t*);
extern "C" uint64_t %s(uint64_t, uint32_t*, const uint8_t*);
extern "C" uint64_t x_sha1(uint64_t n, uint32_t* s, const uint8_t* p){ return %s(n, s, p); }
extern "C" uint64_t x_sha256(uint64_t n, uint32_t* s, const uint8_t* p){ return %s(n, s, p); }
'''


def diff(chk):
    if not have('sha_ni', 'avx'):
        return 0, [], 'skipped: no SHA-NI on this CPU'
    lib = ctypes.CDLL(build.native(NSRC % (SYM['sha1'], SYM['sha256'], SYM['sha1'], SYM['sha256']), 'asmsha'))
    rnd = random.Random(core.SEED + 7)
    n, fails = 0, []
    for fam in ('sha1', 'sha256'):
        S = SPEC[fam]
        f = getattr(lib, 'x_' + fam)
        f.restype = ctypes.c_uint64
        for rep in range(80 if core.TIER == 'quick' else 2000):
            nb = rnd.choice([0, 1, 1, 2, 3, 5])
            st = [rnd.choice([0, 0xffffffff, rnd.getrandbits(32)]) for _ in range(S.nw)]
            data = rnd.randbytes(64 * nb)
            H = [const(x, 32) for x in st]
            for i in range(nb):
                H = S.compress(H, [const(x, 8) for x in data[64 * i:64 * i + 64]])
            al = rnd.randrange(16)
            buf = ctypes.create_string_buffer(64 + len(data) + 16)
            buf[al:al + len(data)] = data
            sb = (ctypes.c_uint32 * (S.nw + 8))(*([0x5c5c5c5c] * 4 + st + [0x5c5c5c5c] * 4))
            r = f(ctypes.c_uint64(nb), ctypes.byref(sb, 16), ctypes.byref(buf, al))
            n += 1
            want = [0x5c5c5c5c] * 4 + [h.a[0] for h in H] + [0x5c5c5c5c] * 4
            if list(sb) != want or r != nb:
                fails.append({'function': SYM[fam], 'blocks': nb, 'state': ['%08x' % x for x in st], 'data': data.hex(), 'got': ['%08x' % x for x in sb[4:-4]],
                              'expected': ['%08x' % x for x in want[4:-4]], 'returned': r})
                if len(fails) > 3:
                    return n, fails, ''
    n, fails = guarded.merge(n, fails, *[guarded.asmsha(lib, fam, SYM[fam], SPEC[fam].nw) for fam in ('sha1', 'sha256')])
    return n, fails, 'SHA-NI functions on this CPU against FIPS 180-4 on random states and blocks; buffers between unreadable pages'


def main(pid):
    chk = core.Check(pid, assumptions=['state and data do not overlap; stack of 16 KiB; System V ABI entry state'],
                     trusted=['irvc term normaliser (fuzzed)', 'nasm, ld, objdump', 'x86.py instruction semantics (each distinct vector instruction compared with the CPU on every run where it has SHA-NI)', 'z3'])
    chk.extra['spec_selftest_cases'] = spec.selftest()
    add(chk, ['sha1', 'sha256'])
    chk.differential('instruction semantics', semantics, list(SYM.values()), ('sha_ni', 'avx2', 'ssse3'))
    chk.differential('SHA-NI', diff)
    return chk.finish()
