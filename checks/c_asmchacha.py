"""S02: ChaCha20 SSSE3 / AVX2 block functions (machine code) against RFC 8439"""
import ctypes
import random

import build
import c_asmsha
import c_ciphers
import core
import guarded
import irparse
import spec
import terms as t
import x86
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from terms import const

SYM = {(v, g): 'milo_primitive_detail_cipher_chacha_impl_hw_x86_64_%s_ietf_%s' % (n, 'generate' if g else 'transform')
       for v, n in (('ss', 'ssse_3'), ('av', 'avx_2')) for g in (True, False)}
RATIO = {'ss': 4, 'av': 8}


def leaf(v, gen, inplace, align):
    """dst = src xor blocks, n*ratio blocks, counter modulo 2^32; frame, alignment and ABI obligations"""
    n = t.var('n', 64, 0, c_ciphers.QMAX)
    S0 = c_ciphers.state0()
    R = RATIO[v]
    size = t.mulc(n, 64 * R)
    ex = Exec(irparse.Module())
    ex.fold = c_ciphers.block_fold(S0, R)
    st = State()
    S = st.new('state', 64, base=lambda o: t.slc(S0[o.a[0] // 4], 8 * (o.a[0] % 4), 8) if o.op == 'c' else c_ciphers._sym(), writable=False)
    X = lambda o: t.app('in', 8, (o,))
    if inplace:
        D = P = st.new('dst', size, base=X)
    else:
        D = st.new('dst', size)
        P = st.new('src', size, base=X, writable=False)
    outs = x86.run(ex, st, SYM[v, gen], [const(10, 64), n, S, D] + ([] if gen else [P]), align)
    c_ciphers.chk_block(ex, outs, S0, n, R, gen, X, True)
    return {'obligations': len(ex.machine.used)}


NSRC = '#include <cstdint>\n#include <cstddef>\nextern "C" {\n' + ''.join(
    'uint64_t %s(uint64_t, uint64_t, const uint32_t*, uint8_t*%s);\nuint64_t x_%s(uint64_t n, const uint32_t* s, uint8_t* d, const uint8_t* p){ return %s(10, n, s, d%s); }\n'
    % (SYM[k], '' if k[1] else ', const uint8_t*', k[0] + 'tg'[k[1]], SYM[k], '' if k[1] else ', p') for k in sorted(SYM)) + '}\n'


def diff(chk):
    lib = ctypes.CDLL(build.native(NSRC, 'asmchacha'))
    rnd = random.Random(core.SEED + 7)
    n, fails = 0, []
    done = []
    for v, need in (('ss', ('ssse3',)), ('av', ('avx2',))):
        if not c_asmsha.have(*need):
            continue
        done.append(v)
        R = RATIO[v]
        for gen in (True, False):
            f = getattr(lib, 'x_' + v + 'tg'[gen])
            f.restype = ctypes.c_uint64
            for rep in range(40 if core.TIER == 'quick' else 1000):
                nb = rnd.choice([0, 1, 1, 2, 3, 5])
                st = [rnd.getrandbits(32) for _ in range(16)]
                st[12] = rnd.choice([0, 1, 0xffffffff, 0xfffffffd, 0xfffffff4, rnd.getrandbits(32)])
                size = 64 * R * nb
                data = rnd.randbytes(size)
                ks = b''
                for k in range(R * nb):
                    s = list(st)
                    s[12] = (s[12] + k) & 0xffffffff
                    ks += b''.join(w.a[0].to_bytes(4, 'little') for w in spec.chacha_rounds([const(x, 32) for x in s]))
                al = rnd.randrange(32)
                inplace = rnd.random() < .5
                dst = ctypes.create_string_buffer(b'\xc3' * (size + 96), size + 96)
                if inplace:
                    dst[al:al + size] = data
                src = ctypes.create_string_buffer(data + bytes(40), size + 40)
                sal = 0
                sb = (ctypes.c_uint32 * 16)(*st)
                r = f(ctypes.c_uint64(nb), sb, ctypes.byref(dst, al), ctypes.byref(dst, al) if inplace else ctypes.byref(src, sal))
                want = ks if gen else c_ciphers.xor(data, ks)
                n += 1
                got = dst.raw
                if r != R * nb or got[al:al + size] != want or got[:al] + got[al + size:] != b'\xc3' * 96 or list(sb) != st:
                    fails.append({'function': SYM[v, gen], 'units': nb, 'state': ['%08x' % x for x in st], 'data': data.hex(), 'in_place': inplace, 'returned': r,
                                  'output': got[al:al + size][:128].hex(), 'expected': want[:128].hex(), 'state_after': ['%08x' % x for x in sb]})
                    if len(fails) > 3:
                        return n, fails, ''
    n, fails = guarded.merge(n, fails, *[guarded.asmchacha(lib, 'x_' + v + 'tg'[gen], SYM[v, gen], 64 * RATIO[v], gen) for v in done for gen in (True, False)])
    return n, fails, 'block functions %s on this CPU against RFC 8439 on random states; buffers between unreadable pages' % done


def add(chk, tag=''):
    c_asmsha.preload(chk, SYM.values())
    for v in ('ss', 'av'):
        for gen in (True, False):
            for ip in ((False,) if gen else (False, True)):
                for al in (8, 24):
                    chk.ob('%s machine code %s%s, stack = %d mod 32' % ({'ss': 'SSSE3', 'av': 'AVX2'}[v], 'generate' if gen else 'transform', ' in place' if ip else '', al), leaf, v, gen, ip, al)
    try:
        lm = irparse.parse(build.ir(c_ciphers.LSRC))
    except Exception as e:
        return chk.fail_early('ir of the wrappers', repr(e)[:600])
    for v in ('ss', 'av'):
        for gen in (True, False):
            chk.ob('wrapper %s %s' % (v, gen), c_ciphers.wrapper, lm, v, gen)


def main(pid):
    chk = core.Check(pid, assumptions=['state, source and destination do not overlap, except source = destination; stack of 16 KiB; System V ABI entry state; fewer than 2^50 units per call'],
                     trusted=['irvc term normaliser (fuzzed)', 'nasm, ld, objdump', 'x86.py instruction semantics (each distinct vector instruction compared with the CPU on every run where it has AVX2)', 'z3'])
    chk.extra['spec_selftest_cases'] = spec.selftest()
    add(chk)
    chk.differential('instruction semantics', c_asmsha.semantics, list(SYM.values()), ('avx2', 'ssse3'))
    chk.differential('ChaCha20 block functions', diff)
    return chk.finish()
