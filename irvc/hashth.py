"""Contracts and theory for Merkle-Damgard hashes."""
import random
import re

import terms as t
from terms import const, T
import execu
from execu import Exec, State, Ptr, Fn
import irparse
import prover
from core import Refuted, NotProved

QMAX = 1 << 54


def F(spec, i, a):
    """chaining word i after a blocks of the padded message P (words of the IV for a = 0)"""
    if a.op == 'c' and a.a[0] == 0:
        return const(spec.iv[i], spec.w)
    return t.app('F.%s.%d' % (spec.name, i), spec.w, (a,))


def P(o):
    return t.app('P', 8, (o,))


def find(mod, rx, what='function'):
    r = [x for x in mod.funcs if re.search(rx, x)]
    if len(r) != 1:
        raise NotProved('%s %s: %d candidates' % (what, rx, len(r)))
    return r[0]


def must_equal(ex, st, a, b, what):
    ex.oblig += 1
    if a is b:
        return
    r = prover.valid(t.eq(a, b), st.pc) if size(a) + size(b) < 4000 else None
    if r is True:
        return
    m = None
    if r is None:
        m = prover.distinguish(a, b, st.pc)
        if m is None and size(a) + size(b) < 4000:
            r = prover.valid(t.eq(a, b), st.pc, timeout=20000)
            if r is True:
                return
    if (r is False or m is not None) and approximate((a, b), st.pc):
        raise NotProved('%s: known only up to a value a loop invariant says nothing about' % what)
    if r is False or m is not None:
        w = {'by': 'evaluation under a model of the path condition'}
        if r is False:
            ce = prover.counterexample(t.eq(a, b), st.pc)
            w = ce and {t.show(k, 2): v for k, v in list(ce.items())[:30]} or {'by': 'solver'}
        e = Refuted('%s: %s instead of %s' % (what, t.show(a, 4)[:200], t.show(b, 4)[:200]), w)
        e.pair = (a, b, list(st.pc))
        raise e
    raise NotProved('%s: cannot show %s = %s' % (what, t.show(a, 3)[:200], t.show(b, 3)[:200]))


REPLAY_MAX = 12 << 20


def soft(sizes, fn, *args):
    """run a comparison of object states; a difference is reported with the sizes of a concrete history that shows it, to be replayed"""
    try:
        return fn(*args)
    except Refuted as e:
        if e.pair is not None:
            a, b, pc = e.pair
            for lim in (400, 5000, REPLAY_MAX):
                pcl = pc + [t.ule(x, const(lim, x.w)) for x in sizes]
                m = prover.distinguish(a, b, pcl, 5000)
                if m is not None:
                    if generic(m, a, b, pc):
                        e.sizes = [m.ev(x) for x in sizes]
                    break
        raise


def generic(m, a, b, pc):
    """the terms differ for the sizes of this model whatever the data: other data at the same sizes show the difference too"""
    num = {k: v for k, v in m.vals.items() if isinstance(k, t.T)}
    ok = bad = 0
    for seed in range(100, 110):
        m2 = prover.Model(dict(num), seed)
        if m2.sat(pc):
            if m2.ev(a) != m2.ev(b):
                ok += 1
            else:
                bad += 1
    return ok >= 5 and bad <= 1


def approximate(vs, pc):
    """does the claim rest on a value that an invariant leaves open?"""
    for x in list(vs) + list(pc):
        for l in t.leaves(x):
            if l.op == 'v' and l.a[0].startswith('havoc.'):
                return True
    return False


def size(x):
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if len(seen) > 5000:
            break
        st.extend(kids(y))
    return len(seen)


def kids(y):
    out = []
    for a in y.a:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    out.append(b)
                elif isinstance(b, tuple):
                    out.extend(c for c in b if isinstance(c, T))
    return out


# ------------------------------------------------------ leaf: block functions

def leaf_block(mod, fname, spec, asm=None):
    """state' = F(n), F(0) = state, F(j+1) = compress(F(j), M[B*j ..))"""
    nb = spec.w // 8
    G = lambda i, a: t.app('G.%d' % i, spec.w, (a,))
    M = lambda o: t.app('M', 8, (o,))
    n = t.var('n', 64, 0, 1 << 50)

    def fold(st, kt):
        j = t.sub(kt, const(1, 64))
        H = [G(i, j) for i in range(spec.nw)]
        B = [M(t.add(t.mulc(j, spec.block), const(x, 64))) for x in range(spec.block)]
        key = (spec.fam, j)
        new = cache.get(key)
        if new is None:
            new = cache[key] = spec.compress(H, B)
        return {a: G(i, kt) for i, a in enumerate(new)}
    cache = {}

    def run(nv, ex):
        st = State()
        S = st.new('state', nb * spec.nw, base=lambda o: state_byte(o, G, nb))
        D = st.new('data', t.mulc(nv, spec.block), base=M, writable=False)
        return st, S, D
    ex = Exec(mod)
    ex.fold = fold
    st, S, D = run(n, ex)
    if asm is not None:
        outs = asm(ex, st, [n, S, D])
    else:
        outs = ex.run_function(st, fname, [n, S, D])
    if not outs:
        raise NotProved('no terminating path')
    for o in outs:
        if o.out[0] != 'ret':
            raise Refuted('block function ends in %s' % (o.out,), pc=o.pc)
        for i in range(spec.nw):
            v = ex.load(o, Ptr('state', const(nb * i, 64)), nb)
            g = G(i, n)
            if v is not g and ex.decide(o, t.eq(n, const(0, 64))) is True:
                g = G(i, const(0, 64))
            must_equal(ex, o, v, g, 'state word %d after n blocks' % i)
    # vacuity: at least one path with n > 0
    if all(ex.decide(o, t.eq(n, const(0, 64))) is True for o in outs):
        raise NotProved('vacuous: only n = 0 returns')
    return {}


def state_byte(o, G, nb):
    if o.op != 'c':
        raise irparse.Unsupported('symbolic index into the state')
    i, k = divmod(o.a[0], nb)
    return t.slc(G(i, const(0, 64)), 8 * k, 8)


# ---------------------------------------------------------- block contract

class BlockContract:
    """callee contract used for the block function inside the hash layer:
    requires state words = F(a) for some a, data[0..B*cnt) = P[B*a..);  ensures state = F(a+cnt)"""

    def __init__(self, spec, padded=None):
        self.spec = spec
        self.padded = padded        # bytes of P beyond the message (callable (st, offset term) -> byte) or None
        self.calls = 0

    def find_a(self, ws):
        s = self.spec
        if all(w.op == 'c' and w.a[0] == s.iv[i] for i, w in enumerate(ws)):
            return const(0, 64)
        a = None
        for i, w in enumerate(ws):
            if w.op != 'app' or w.a[0] != 'F.%s.%d' % (s.name, i):
                return None
            if a is None:
                a = w.a[2]
            elif a is not w.a[2]:
                return None
        return a

    def __call__(self, ex, st, args):
        s = self.spec
        nb = s.w // 8
        cnt, sp, dp = args
        self.calls += 1
        ws = [ex.load(st, Ptr(sp.obj, t.add(sp.off, const(nb * i, 64))), nb) for i in range(s.nw)]
        a = self.find_a(ws)
        if a is None:
            raise Refuted('block function called with a chaining value that is not F(a): %s' % [t.show(w, 2) for w in ws][:3])
        if not isinstance(dp, Ptr):
            raise NotProved('data pointer')
        # data requirement
        base = t.mulc(a, s.block)
        want = (lambda o: self.padded(st, o)) if self.padded else P
        ex.oblig += 1
        o = st.objs.get(dp.obj)
        if o is None:
            raise Refuted('block function reads dead memory')
        ex.range_in(st, o, dp.off, t.mulc(cnt, s.block), False)
        if cnt.op == 'c' and cnt.a[0] <= 2:
            for j in range(cnt.a[0] * s.block):
                v = ex.byte(st, Ptr(dp.obj, t.add(dp.off, const(j, 64))))
                w = want(t.add(base, const(j, 64)))
                must_equal(ex, st, v, w, 'block %s byte %d' % (t.show(a), j))
        else:
            j = t.fresh('byte', 64, 0, QMAX * 128)
            s2 = st.fork()
            s2.assume(t.ult(j, t.mulc(cnt, s.block)))
            old, ex.cur = ex.cur, s2
            v = ex.byte(s2, Ptr(dp.obj, t.add(dp.off, j)))
            ex.cur = old
            must_equal(ex, s2, v, want(t.add(base, j)), 'bytes of %s blocks from block %s' % (t.show(cnt), t.show(a)))
        for i in range(s.nw):
            ex.store(st, Ptr(sp.obj, t.add(sp.off, const(nb * i, 64))), F(s, i, t.add(a, cnt)), nb)
        return None


def base_exec(mod, spec, contract):
    ex = Exec(mod)
    ex.indirect = lambda ex, st, fv, args: contract(ex, st, args)
    for f in list(mod.funcs) + list(mod.decls):
        if BLOCKFN.search(f):
            ex.hooks[f] = contract
    return ex


BLOCKFN = re.compile(r'hash_sha_\w*_impl_\w*blocks')


def new_obj(mod, st, ex, name='obj'):
    n = const_ret(mod, '@h_sizeof')
    return st.new(name, n)


def const_ret(mod, f):
    ex = Exec(mod)
    r = ex.run_function(State(), f, [])
    v = r[0].out[1]
    return v.a[0]


def garbage(v):
    """does the value depend on the arbitrary initial contents of an object?"""
    for l in t.leaves(v):
        if l.op == 'app' and (l.a[0].startswith('undef') or l.a[0] == 'undef'):
            return True
    return False


def ite_cases(v):
    """[(conditions, leaf)]"""
    if v.op == 'ite':
        c, a, b = v.a
        return [([c] + cs, l) for cs, l in ite_cases(a)] + [([t.not_(c)] + cs, l) for cs, l in ite_cases(b)]
    return [([], v)]


def compare_objects(ex, st, ref, two, n, what, skip=()):
    """every byte of `two` equals `ref` wherever ref's byte is determined"""
    cnt = 0
    for x in range(n):
        if x in skip:
            continue
        c1 = ex.cell(st, st.objs[ref], st.mem[ref], const(x, 64))
        c2 = ex.cell(st, st.objs[two], st.mem[two], const(x, 64))
        if not isinstance(c1[0], T) or not isinstance(c2[0], T):
            if c1 == c2:
                continue
            if isinstance(c1[0], execu.Ptr) and isinstance(c2[0], execu.Ptr) and c1[1] == c2[1]:
                # owned memory: the object owns equal bytes
                cnt += same_contents(ex, st, c1[0], c2[0], what) if c1[1] == 0 else 0
                continue
            if isinstance(c1[0], T) and garbage(c1[0]):
                continue
            raise NotProved('%s: pointer in object at %d' % (what, x))
        if c1[0] is c2[0] and c1[1] == c2[1]:
            cnt += 1
            continue
        b1, b2 = execu.tbyte(*c1), execu.tbyte(*c2)
        if b1 is b2:
            cnt += 1
            continue
        for cs, leaf in ite_cases(b1):
            if garbage(leaf):
                continue
            s2 = st.fork()
            if not all(s2.assume(c) for c in cs):
                continue
            if cs and infeasible(s2):
                continue
            cnt += 1
            # specialise the other byte
            for cs2, leaf2 in ite_cases(b2):
                if leaf2 is leaf:
                    continue
                s3 = s2.fork()
                if not all(s3.assume(c) for c in cs2) or (cs2 and infeasible(s3)):
                    continue
                must_equal(ex, s3, leaf2, leaf, '%s: object byte %d' % (what, x))
    return cnt


def same_contents(ex, st, p, q, what):
    a, b = st.objs.get(p.obj), st.objs.get(q.obj)
    if a is None or b is None or a.kind != 'heap' or b.kind != 'heap':
        raise NotProved('%s: pointers %r, %r in the objects' % (what, p, q))
    must_equal(ex, st, p.off, const(0, 64), '%s: pointer to owned memory' % what)
    must_equal(ex, st, q.off, const(0, 64), '%s: pointer to owned memory' % what)
    must_equal(ex, st, a.size, b.size, '%s: size of owned memory' % what)
    i = t.fresh('i', 64, 0, 1 << 60)
    s2 = st.fork()
    if s2.assume(t.ult(i, a.size)):
        old, ex.cur = ex.cur, s2
        must_equal(ex, s2, ex.byte(s2, execu.Ptr(p.obj, i)), ex.byte(s2, execu.Ptr(q.obj, i)), '%s: owned memory' % what)
        ex.cur = old
    return 4


def infeasible(st):
    return prover.valid(const(0, 1), st.pc) is True if False else _infeasible(st)


def _infeasible(st):
    c = const(1, 1)
    for p in st.pc[:-1]:
        pass
    last = st.pc[-1] if st.pc else None
    if last is None:
        return False
    return prover.valid(t.not_(last), st.pc[:-1]) is True


ON_STATE = None            # observer of the states after each contract call (X01)


def paths(ex, sts, f, args):
    """run f in each state, return surviving states"""
    out = []
    for s in sts:
        a = args(s) if callable(args) else args
        for r in ex.run_function(s, f, a):
            if r.out[0] != 'ret':
                raise Refuted('%s ends in %s' % (f, r.out), pc=r.pc)
            if r.pc and infeasible_pc(r):
                continue
            if ON_STATE:
                ON_STATE(ex, r, f)
            out.append(r)
    return out


def infeasible_pc(st):
    if not st.pc:
        return False
    return _infeasible(st)


def hash_update(mod, spec, case, zero, f='@h_upd'):
    """one-shot(L) then update(n) agrees with one-shot(L+n)"""
    B = spec.block
    con = BlockContract(spec)
    ex = base_exec(mod, spec, con)
    st = State()
    q = const(0, 64) if zero else t.var('q', 64, 1, QMAX)
    b = t.var('b', 64, 0, B - 1)
    L = t.add(t.mulc(q, B), b)
    if case == 'same':
        n = t.var('n', 64, 0, B - 1)
        st.assume(t.ult(t.add(b, n), const(B, 64)))
    elif case == 'fixed':
        n = const(100, 64)
    else:
        m = t.var('m', 64, 0, QMAX)
        b2 = t.var('b2', 64, 0, B - 1)
        n = t.add(t.sub(b2, b), t.mulc(t.add(m, const(1, 64)), B))
    sz = const_ret(mod, '@h_sizeof')
    o1 = st.new('obj', sz)
    o2 = st.new('ref', sz)
    d1 = st.new('msg1', L, base=P, writable=False)
    d2 = st.new('msg2', n, base=lambda o: P(t.add(L, o)), writable=False)
    d3 = st.new('msg3', t.add(L, n), base=P, writable=False)
    sts = [st]
    sts = paths(ex, sts, '@h_init', [o1])
    sts = paths(ex, sts, '@h_init', [o2])
    sts = paths(ex, sts, '@h_upd', [o1, d1, L])
    if f in ('@h_updb', '@h_updbc'):
        import ghost
        sts = paths(ex, sts, f, [o1, ghost.box(ex, sts[0], 'mb', d2, n)]) if len(sts) == 1 else [x for y in sts for x in paths(ex, [y], f, [o1, ghost.box(ex, y, 'mb', d2, n)])]
    else:
        sts = paths(ex, sts, f, [o1, d2] + ([n] if case != 'fixed' else []))
    sts = paths(ex, sts, '@h_upd', [o2, d3, t.add(L, n)])
    if not sts:
        raise NotProved('vacuous')
    c = 0
    for s in sts:
        c += soft((L, n), compare_objects, ex, s, 'ref', 'obj', sz, 'update after %s' % case)
    if c < 8 * len(sts):
        raise NotProved('vacuous: nothing determined')
    return {'paths': len(sts), 'obligations': c}


def pad_fn(spec, q, b, L):
    """the padded message: byte at offset o (o = B*q + c, c constant) or inside the message"""
    B = spec.block
    blocks = 1 if b + 1 + spec.lenbytes <= B else 2
    total = blocks * B
    bits = t.mulc(L, 8)
    lb = [t.slc(bits, 56 - 8 * i, 8) for i in range(8)]
    if spec.lenbytes == 16:
        lb = [const(0, 8)] * 7 + [t.zext(t.slc(L, 61, 3), 8)] + lb

    def fn(st, o):
        d = t.sub(o, t.mulc(q, B))
        if d.op != 'c':
            return P(o)
        x = d.a[0]
        if x < b or x >> 63:
            return P(o)
        if x == b:
            return const(0x80, 8)
        if x >= total:
            raise Refuted('block function reads past the padded message')
        if x >= total - spec.lenbytes:
            return lb[x - (total - spec.lenbytes)]
        return const(0, 8)
    return fn, blocks


def hash_digest(mod, spec, b, zero):
    """one-shot(L = B q + b), digest: the output is the FIPS 180-4 digest; twice; frame"""
    B = spec.block
    q = const(0, 64) if zero else t.var('q', 64, 1, QMAX)
    L = t.add(t.mulc(q, B), const(b, 64))
    fn, blocks = pad_fn(spec, q, b, L)
    con = BlockContract(spec, fn)
    ex = base_exec(mod, spec, con)
    st = State()
    sz = const_ret(mod, '@h_sizeof')
    o1 = st.new('obj', sz)
    d1 = st.new('msg', L, base=P, writable=False)
    out = st.new('out', spec.digest + 40)
    out2 = st.new('out2', spec.digest + 40)
    sts = paths(ex, [st], '@h_init', [o1])
    sts = paths(ex, sts, '@h_upd', [o1, d1, L])
    N = const(spec.digest, 64)
    sts = paths(ex, sts, '@h_dig', [o1, out, N])
    for s in sts:
        must_equal(ex, s, s.out[1], N, 'digest return value')
    sts = paths(ex, sts, '@h_dig', [o1, out2, N])
    if not sts:
        raise NotProved('vacuous')
    fin = t.add(q, const(blocks, 64))
    want = []
    for i in range(spec.nw):
        want += [x for x in be_b(F(spec, i, fin))]
    for s in sts:
        for nm in ('out', 'out2'):
            for i in range(spec.digest + 40):
                v = ex.byte(s, Ptr(nm, const(i, 64)))
                if i < spec.digest:
                    must_equal(ex, s, v, want[i], '%s digest byte %d (message length %d mod %d)' % (nm, i, b, B))
                else:
                    must_equal(ex, s, v, s.objs[nm].base(const(i, 64)), 'byte %d beyond the digest' % i)
    return {'paths': len(sts)}


def be_b(x):
    n = x.w // 8
    return [t.slc(x, 8 * (n - 1 - i), 8) for i in range(n)]


def hash_range(mod, spec, bs):
    for b in bs:
        for z in (True, False):
            hash_digest(mod, spec, b, z)
