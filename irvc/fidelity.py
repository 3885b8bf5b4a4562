"""Self tests of the engine, run at the start of every check (short) and by hand (long: python3-vt irvc/fidelity.py SECONDS).

1. terms: random expressions built through the normalising constructors, evaluated, and compared with the plain meaning of
   the operations; interval and known-zero-bit claims and substitution are checked on the way.
2. prover: answers of prover.valid on random small formulas against enumeration of all assignments.
3. executor and loop rule: random C functions (arithmetic, byte buffers, loops with symbolic trip count), compiled once to
   IR for irvc with symbolic inputs and once to machine code; the symbolic results are evaluated at random inputs and compared
   with the machine's."""
import os
import random
import sys
import time

import terms as t
from terms import const


class Failed(Exception):
    pass


def _sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Gen:
    """random (term, function of the assignment)"""

    def __init__(self, rnd, nv=4, widths=(1, 8, 16, 32, 64)):
        self.r = rnd
        self.widths = widths
        self.vars = []
        for i in range(nv):
            w = rnd.choice([8, 16, 32, 64])
            lo, hi = 0, (1 << w) - 1
            if rnd.random() < 0.6:
                hi = rnd.choice([1, 15, 63, 64, 255, hi >> 1, hi >> rnd.randrange(1, w)])
                hi = min(hi, (1 << w) - 1)
                lo = rnd.choice([0, 0, 1, hi // 2])
                lo = min(lo, hi)
            self.vars.append((t.var('F%d_%d_%d_%d_%d' % (i, w, lo, hi, rnd.random() < 0.5), w, lo, hi, rnd.random() < 0.6), lo, hi))

    def sample(self):
        e = {}
        for v, lo, hi in self.vars:
            e[v] = self.r.choice([lo, hi, min(hi, lo + 1), self.r.randint(lo, hi), self.r.randint(lo, hi), self.r.randint(lo, hi)])
        return e

    def const(self, w):
        r = self.r
        v = r.choice([0, 1, 2, 3, 4, 7, 8, 0x3f, 0x40, 0x80, 0xff, 1 << (w - 1), (1 << w) - 1, (1 << w) - r.randrange(1, 70), r.getrandbits(w), r.getrandbits(w) & r.getrandbits(w)])
        v &= (1 << w) - 1
        return const(v, w), lambda e, v=v: v

    def go(self, w, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            c = [x for x in self.vars if x[0].w == w]
            if c and r.random() < 0.75:
                x = r.choice(c)[0]
                return x, lambda e, x=x: e[x]
            c = [x for x in self.vars if x[0].w != w]
            if c and r.random() < 0.8:
                x = r.choice(c)[0]
                f = lambda e, x=x: e[x]
                return self.fit(x, f, w)
            return self.const(w)
        m = (1 << w) - 1
        k = r.randrange(22) if w > 1 else r.choice([4, 5, 6, 7, 8, 18, 19, 20, 21])
        if k <= 3:
            a, f = self.go(w, d - 1)
            b, g = self.go(w, d - 1)
            if k == 0:
                return t.add(a, b), lambda e: (f(e) + g(e)) & m
            if k == 1:
                return t.sub(a, b), lambda e: (f(e) - g(e)) & m
            if k == 2:
                c = r.choice([2, 3, 4, 5, 16, 64, 192, m, m - 3, r.getrandbits(w)])
                return t.mulc(a, c), lambda e: f(e) * c & m
            return t.mul(a, b), lambda e: f(e) * g(e) & m
        if k in (4, 5, 6):
            a, f = self.go(w, d - 1)
            b, g = self.go(w, d - 1)
            return {4: (t.xor(a, b), lambda e: f(e) ^ g(e)), 5: (t.and_(a, b), lambda e: f(e) & g(e)), 6: (t.or_(a, b), lambda e: f(e) | g(e))}[k]
        if k == 7:
            a, f = self.go(w, d - 1)
            return t.not_(a), lambda e: ~f(e) & m
        if k == 8:
            c, h = self.go(1, d - 1)
            a, f = self.go(w, d - 1)
            b, g = self.go(w, d - 1)
            return t.ite(c, a, b), lambda e: f(e) if h(e) else g(e)
        if k == 9:
            a, f = self.go(w, d - 1)
            n = r.randrange(w + 2)
            return t.shlc(a, n), lambda e: f(e) << n & m if n < w else 0
        if k == 10:
            a, f = self.go(w, d - 1)
            n = r.randrange(w + 2)
            return t.lshrc(a, n), lambda e: f(e) >> n
        if k == 11:
            a, f = self.go(w, d - 1)
            n = r.randrange(w)
            return t.rotl(a, n), lambda e: (f(e) << n | f(e) >> (w - n)) & m
        if k == 12:
            a, f = self.go(w, d - 1)
            b, g = self.go(w, d - 1)
            if r.random() < 0.4:
                n = r.randrange(w + 1)
                b, g = const(n, w), lambda e: n
            i = r.randrange(3)
            if i == 0:
                return t.shl(a, b), lambda e: f(e) << g(e) & m if g(e) < w else 0
            if i == 1:
                return t.lshr(a, b), lambda e: f(e) >> g(e) if g(e) < w else 0
            return t.ashr(a, b), lambda e: _sg(f(e), w) >> min(g(e), w - 1) & m
        if k == 13:
            a, f = self.go(w, d - 1)
            c = r.choice([3, 5, 16, 64, 255, 192, r.randrange(1, 1 << min(w, 20))]) & m or 1
            if r.random() < 0.5:
                return t.udiv(a, const(c, w)), lambda e: f(e) // c
            return t.urem(a, const(c, w)), lambda e: f(e) % c
        if k == 14:
            if w % 8:
                return self.go(w, d - 1)
            a, f = self.go(w, d - 1)
            return t.bswap(a), lambda e: int.from_bytes(f(e).to_bytes(w // 8, 'little'), 'big')
        if k == 15:
            # concatenation of random pieces
            ps, fs, left = [], [], w
            while left:
                n = r.choice([x for x in (1, 8, 8, 16, 32, left) if x <= left])
                a, f = self.fit(*self.go(r.choice([x for x in self.widths if x >= n] or [64]), d - 1), n)
                ps.append(a)
                fs.append((f, w - left))
                left -= n
            return t.cat(ps), lambda e: sum(f(e) << s for f, s in fs)
        if k == 16:
            a, f = self.go(w, d - 1)
            n = r.getrandbits(w) if r.random() < 0.4 else r.choice([m >> r.randrange(w), m << r.randrange(w) & m])
            return t.andc(a, n), lambda e: f(e) & n
        if k == 17:
            return self.fit(*self.go(r.choice(self.widths), d - 1), w)
        if k in (18, 19, 20, 21):
            ww = r.choice(self.widths)
            a, f = self.go(ww, d - 1)
            b, g = self.go(ww, d - 1)
            if k == 18:
                x = t.eq(a, b), lambda e: int(f(e) == g(e))
            elif k == 19:
                x = t.ult(a, b), lambda e: int(f(e) < g(e))
            elif k == 20:
                x = t.slt(a, b), lambda e: int(_sg(f(e), ww) < _sg(g(e), ww))
            else:
                x = t.ule(a, b), lambda e: int(f(e) <= g(e))
            return x if w == 1 else self.fit(x[0], x[1], w)

    def fit(self, a, f, w):
        r = self.r
        if a.w == w:
            return a, f
        if a.w > w:
            lo = r.choice([0, r.randrange(a.w - w + 1)])
            return t.slc(a, lo, w), lambda e: f(e) >> lo & ((1 << w) - 1)
        if r.random() < 0.6:
            return t.zext(a, w), f
        aw = a.w
        return t.sext(a, w), lambda e: _sg(f(e), aw) & ((1 << w) - 1)


def fuzz_terms(seconds, seed, count=None):
    rnd = random.Random(seed)
    n = 0
    end = time.time() + seconds
    while n < count if count else time.time() < end:
        g = Gen(rnd)
        w = rnd.choice([1, 8, 16, 32, 64])
        x, f = g.go(w, rnd.choice([2, 3, 4, 5]))
        lo, hi = t.iv(x)
        kz = t.kz(x)
        sub = None
        if rnd.random() < 0.3 and g.vars:
            v = rnd.choice(g.vars)[0]
            y, h = g.go(v.w, 2)
            sub = v, y, h, t.subst(x, {v: y})
        for _ in range(6):
            e = g.sample()
            env = lambda l, args: e[l]
            want = f(e)
            got = t.ev(x, env, {})
            n += 1
            if got != want or not lo <= want <= hi or want & kz:
                raise Failed('term %s: %x, should be %x; interval [%x,%x], zero bits %x at %r' % (t.show(x), got, want, lo, hi, kz, {k.a[0]: v for k, v in e.items()}))
            if sub:
                v, y, h, z = sub
                e2 = dict(e)
                e2[v] = h(e)
                lo2, hi2 = v.a[1], v.a[2]
                if lo2 <= e2[v] <= hi2 and t.ev(z, env, {}) != f(e2):
                    raise Failed('substitution %s := %s in %s at %r' % (v.a[0], t.show(y), t.show(x), {k.a[0]: q for k, q in e.items()}))
    return n


def fuzz_prover(seconds, seed, count=None):
    import prover
    rnd = random.Random(seed)
    n = 0
    end = time.time() + seconds
    while n < count if count else time.time() < end:
        w = 8
        vs = []
        for i in range(2):
            lo = rnd.choice([0, 0, 1, 5])
            hi = rnd.choice([lo, lo + 1, 15, 40])
            hi = max(lo, hi)
            vs.append((t.var('G%d_%d_%d' % (i, lo, hi), 64 if rnd.random() < 0.5 else w, lo, hi), lo, hi))
        g = Gen(rnd, 0)
        g.vars = vs
        c, f = g.go(1, 3)
        pcs = [g.go(1, 2) for _ in range(rnd.randrange(3))]
        r = prover.valid(c, tuple(p for p, _ in pcs), timeout=300)
        if r is None:
            continue
        cex = False
        for a in range(vs[0][1], vs[0][2] + 1):
            for b in range(vs[1][1], vs[1][2] + 1):
                e = {vs[0][0]: a, vs[1][0]: b}
                if all(p(e) for _, p in pcs) and not f(e):
                    cex = True
        n += 1
        if r is cex:
            raise Failed('valid(%s | %s) answered %s' % (t.show(c), [t.show(p) for p, _ in pcs], r))
    return n


# ------------------------------------------------------------------ executor

class CGen:
    """random C functions: uint64_t f(uint64_t a, uint32_t b, const uint8_t* p, size_t n, uint8_t* q) with n <= 48, p and q n+16 bytes"""

    def __init__(self, rnd):
        self.r = rnd

    def expr(self, vs, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return r.choice(vs + ['%dull' % r.choice([0, 1, 3, 7, 8, 63, 64, 255, 0x80000000, r.getrandbits(64)])])
        a, b = self.expr(vs, d - 1), self.expr(vs, d - 1)
        k = r.randrange(14)
        if k < 8:
            return '(%s %s %s)' % (a, '+ - * ^ & | + -'.split()[k], b)
        if k == 8:
            return '(%s %s %d)' % (a, r.choice(['<<', '>>']), r.randrange(1, 31))
        if k == 9:
            return '(%s)%s' % (r.choice(['uint8_t', 'uint16_t', 'uint32_t', 'int8_t', 'int32_t']), '(%s)' % a)
        if k == 10:
            return '(%s %s %s ? %s : %s)' % (a, r.choice(['<', '==', '>=', '!=']), b, self.expr(vs, d - 1), self.expr(vs, d - 1))
        if k == 11:
            return '(%s %s %d)' % (a, r.choice(['/', '%']), r.choice([3, 16, 64, 10]))
        if k == 12:
            return '__builtin_bswap64(%s)' % a
        return '((uint64_t)(%s) << %d | (uint64_t)(%s) >> %d)' % ((a,) + (lambda s: (s, a, 64 - s))(r.randrange(1, 64)))

    def fn(self, i):
        r = self.r
        L = ['extern "C" uint64_t f%d(uint64_t a, uint32_t b, const uint8_t* p, size_t n, uint8_t* q) {' % i, ' uint64_t x = %s, y = b;' % self.expr(['a', 'b'], 2)]
        for _ in range(r.randrange(2, 5)):
            k = r.randrange(7)
            e = self.expr(['a', 'b', 'x', 'y', 'n'], 2)
            if k == 0:
                L.append(' x = %s;' % e)
            elif k == 1:
                L.append(' if (%s) y = %s; else x ^= y;' % (self.expr(['x', 'y', 'n'], 1) + ' < ' + self.expr(['a', 'n'], 1), e))
            elif k == 2:
                L.append(' for (size_t i = 0; i < n; i++) q[i] = (uint8_t)(p[i] ^ (uint8_t)(%s));' % self.expr(['a', 'y'], 1))
            elif k == 3:
                L.append(' for (size_t i = 0; i < n; i++) { x += %d; y ^= x; }' % r.randrange(1, 9) if r.random() < 0.3 else ' for (size_t i = 0; i < n; i++) { x += %d; y -= %d; }' % (r.randrange(1, 9), r.randrange(1, 9)))
            elif k == 4:
                L.append(' { size_t i = n; while (i >= 4) { uint32_t w; __builtin_memcpy(&w, p + (n - i), 4); w = __builtin_bswap32(w); __builtin_memcpy(q + (n - i), &w, 4); i -= 4; } while (i) { q[n - i] = p[n - i]; i--; } x += i; }')
            elif k == 5:
                L.append(' { uint64_t w; __builtin_memcpy(&w, p + %d, 8); x ^= w; y += p[%d]; }' % (r.randrange(9), r.randrange(16)))
            else:
                L.append(' { uint64_t w = %s; __builtin_memcpy(q + n + %d, &w, 8); }' % (e, r.randrange(9)))
        L.append(' return x ^ (y * 3);\n}')
        return '\n'.join(L)


def fuzz_exec(count, seed, runs=12):
    """count random functions; returns (compared values, functions the engine could not bring to an end)"""
    import ctypes
    import build
    import execu
    import irparse
    rnd = random.Random(seed)
    g = CGen(rnd)
    src = '#include <cstdint>\n#include <cstddef>\n' + '\n'.join(g.fn(i) for i in range(count))
    d = build.scratch()
    p = os.path.join(d, 'fid%d_%d_%d' % (os.getpid(), seed, count))
    open(p + '.cpp', 'w').write(src)
    build.sh([build.CLANG, '-O1', '-w', '-shared', '-fPIC', p + '.cpp', '-o', p + '.so'])
    mod = irparse.parse(build.ir(src))
    lib = ctypes.CDLL(p + '.so')
    n = und = 0
    for i in range(count):
        ex = execu.Exec(mod)
        st = execu.State()
        A, B, N = t.var('fa', 64), t.var('fb', 32), t.var('fn', 64, 0, 1 << 40)
        PB = lambda o: t.app('PB', 8, (o,))
        QB = lambda o: t.app('QB', 8, (o,))
        P = st.new('p', t.add(N, const(16, 64)), base=PB, writable=False)
        Q = st.new('q', t.add(N, const(16, 64)), base=QB)
        try:
            import hashth
            sts = hashth.paths(ex, [st], '@f%d' % i, [A, B, P, N, Q])
        except Exception as e:
            if type(e).__name__ in ('Undecided', 'NotProved', 'Unsupported'):
                und += 1
                if os.environ.get('FID_DEBUG'):
                    print(i, repr(e)[:200], src.split('extern "C"')[i + 1])
                continue
            raise
        f = getattr(lib, 'f%d' % i)
        f.restype = ctypes.c_uint64
        for _ in range(runs):
            nn = rnd.choice([0, 1, 3, 4, 5, 8, 15, 16, 17, rnd.randrange(48)])
            av, bv = rnd.choice([0, 1, rnd.getrandbits(64), rnd.getrandbits(64)]), rnd.choice([0, 1, rnd.getrandbits(32)])
            pb, qb = rnd.randbytes(nn + 16), rnd.randbytes(nn + 16)
            cq = ctypes.create_string_buffer(qb, nn + 16)
            want = f(ctypes.c_uint64(av), ctypes.c_uint32(bv), pb, ctypes.c_size_t(nn), cq)

            def env(x, args):
                if x.op == 'v':
                    return {'fa': av, 'fb': bv, 'fn': nn}[x.a[0]]
                if x.a[0] in ('PB', 'QB'):
                    return (pb if x.a[0] == 'PB' else qb)[args[0]]
                raise KeyError(x.a[0])
            memo = {}
            try:
                live = [s for s in sts if all(t.ev(c, env, memo) for c in s.pc)]
            except KeyError:
                und += 1
                break
            if len(live) != 1:
                raise Failed('%d paths for one input of\n%s\n%r' % (len(live), src.split('extern "C"')[i + 1], (av, bv, nn)))
            s = live[0].fork()
            s.out = live[0].out
            try:
                got = t.ev(s.out[1], env, memo)
                s.assume(t.eq(N, const(nn, 64)))
                gq = bytes(t.ev(ex.byte(s, execu.Ptr('q', const(j, 64) if j < nn else t.add(N, const(j - nn, 64)))), env, memo) for j in range(nn + 16))
            except (KeyError, irparse.Unsupported, execu.Undecided) as e:
                und += 1
                if os.environ.get('FID_DEBUG'):
                    print(i, repr(e)[:200], src.split('extern "C"')[i + 1])
                break
            n += 1
            if got != want or gq != cq.raw:
                raise Failed('executor: %x %s, machine: %x %s for\n%s\n%r' % (got, gq.hex(), want, cq.raw.hex(), src.split('extern "C"')[i + 1], (av, bv, nn, pb.hex(), qb.hex())))
    return n, und


def short(seed=1):
    """the part run with every check: fixed seeds and counts, so the same everywhere"""
    a = fuzz_terms(0, seed, 8000)
    b = fuzz_prover(0, seed + 1, 300)
    c, und = fuzz_exec(8, seed + 2, 3)
    return {'obligations': 0, 'self_test': {'term_evaluations': a, 'prover_answers': b, 'executor_runs_compared_with_machine_code': c, 'functions_not_summarised': und}}


if __name__ == '__main__':
    secs = float(sys.argv[1]) if len(sys.argv) > 1 else 30
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else int(time.time())
    sys.setrecursionlimit(1000000)
    import core
    print('seed', seed)
    print('terms', core.bigstack(fuzz_terms, secs, seed), flush=True)
    print('prover', core.bigstack(fuzz_prover, secs, seed + 1), flush=True)
    t0 = time.time()
    k = 0
    while time.time() - t0 < secs:
        print('exec', core.bigstack(fuzz_exec, 40, seed + 2 + k), flush=True)
        k += 1
