"""Loop rule: invariants of the form state = f(k), found by anti-unification of three
consecutive arrivals and checked by executing one iteration from f(k) for a fresh k."""
import itertools
import terms as t
from terms import T, const
import prover
from irparse import Unsupported
import execu
from execu import Ptr, Fn, Rec, LoopRec, Undecided, Violation, Mem

KMAX = 1 << 58


# ------------------------------------------------------------- CFG helpers

def cfg(f):
    c = getattr(f, '_cfg', None)
    if c is None:
        succ = {}
        for lab, b in f.blocks.items():
            ins = b[-1]
            if ins[0] == 'jmp':
                s = [ins[2]]
            elif ins[0] == 'br':
                s = [ins[3], ins[4]]
            elif ins[0] == 'switch':
                s = [ins[3]] + [x for _, x in ins[4]]
            elif ins[0] == 'invoke':
                s = [ins[5], ins[6]]
            else:
                s = []
            succ[lab] = list(dict.fromkeys(s))
        pred = {l: [] for l in succ}
        for l, ss in succ.items():
            for s in ss:
                pred[s].append(l)
        # dominators
        order = f.order
        rpo = []
        seen = set()

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    rpo.append(n)
                    st.pop()
        dfs(order[0])
        rpo.reverse()
        allb = set(rpo)
        dom = {b: set(allb) for b in rpo}
        dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in pred[b] if p in allb]
                n = set.intersection(*ps) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk.extend(pred[x])
        c = f._cfg = (succ, pred, loops)
    return c


def innermost(f, blk):
    _, _, loops = cfg(f)
    best = None
    for h, body in loops.items():
        if blk in body and (best is None or len(body) < len(best)):
            best = body
    return best


def stay_side(ex, f, blk):
    """True/False: successor (true/false edge) inside the innermost loop, None when not a loop exit"""
    body = innermost(f, blk)
    if body is None:
        return None
    ins = f.blocks[blk][-1]
    a, b = ins[3] in body, ins[4] in body
    if a == b:
        return None
    return a


def uses(ins):
    out = []

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
                out.append(x[1])
                return
            for y in x:
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
        elif isinstance(x, dict):
            for y in x.values():
                w(y)
    w(ins[2:])
    return out


def live_out(f, blk):
    lv = getattr(f, '_live', None)
    if lv is None:
        succ, _, _ = cfg(f)
        gen = {}
        kill = {}
        phiuse = {l: {} for l in f.blocks}
        for l, b in f.blocks.items():
            g, k = set(), set()
            for ins in b:
                if ins[0] == 'phi':
                    k.add(ins[1])
                    for p, v in ins[3].items():
                        if v[0] == 'l':
                            phiuse[l].setdefault(p, set()).add(v[1])
                    continue
                for u in uses(ins):
                    if u not in k:
                        g.add(u)
                if ins[1]:
                    k.add(ins[1])
            gen[l], kill[l] = g, k
        lin = {l: set() for l in f.blocks}
        lout = {l: set() for l in f.blocks}
        ch = True
        order = list(reversed(f.order))
        ent = f.order[0]
        entn = '%' + str(len([p for p in f.params if p[1][1:].isdigit()])) if ent == '%entry#' else None
        while ch:
            ch = False
            for l in order:
                o = set()
                for s in succ[l]:
                    o |= lin[s]
                    o |= phiuse[s].get(l, set())
                    if l == ent and entn:
                        o |= phiuse[s].get(entn, set())
                i = gen[l] | (o - kill[l])
                if o != lout[l] or i != lin[l]:
                    lout[l], lin[l] = o, i
                    ch = True
        lv = f._live = lout
    return lv[blk]


# ----------------------------------------------------------- anti-unification

class NoGen(Exception):
    pass


def kw(k, w):
    if w == 64:
        return k
    if w < 64:
        return t.slc(k, 0, w)
    return t.zext(k, w)


def cmpform(x):
    """(negated, a, b) when x is ult(a, b) up to the normal form of comparisons with 0"""
    n = False
    if x.op == '^' and x.a[0] == 1 and len(x.a[1]) == 1:
        n = True
        x = x.a[1][0]
    if x.op == 'ult':
        return n, x.a[0], x.a[1]
    if x.op == 'eq' and x.a[1].op == 'c' and x.a[1].a[0] == 0:
        return not n, x.a[1], x.a[0]
    if x.op == 'eq' and x.a[1].op == 'c':
        # x == c with x >= c (an interval fact)
        lo = t.iv(x.a[0])[0]
        if lo == x.a[1].a[0]:
            return not n, x.a[1], x.a[0]
    return None


_aum = {}


def au(k, a, b, c):
    """term f with f(0)=a f(1)=b f(2)=c, k the 64 bit parameter"""
    if a is b and b is c:
        return a
    if not isinstance(a, T):
        return _au(k, a, b, c)
    key = (a, b, c)
    if _aum.get('k') is not k:
        _aum.clear()
        _aum['k'] = k
    r = _aum.get(key)
    if r is None:
        try:
            r = _au(k, a, b, c)
        except NoGen as e:
            r = e
        _aum[key] = r
    if isinstance(r, NoGen):
        raise r
    return r


def _au(k, a, b, c):
    if isinstance(a, Ptr):
        if not (isinstance(b, Ptr) and isinstance(c, Ptr)) or a.obj != b.obj or b.obj != c.obj:
            raise NoGen('pointer objects')
        return Ptr(a.obj, au(k, a.off, b.off, c.off))
    if isinstance(a, Fn):
        if a == b == c:
            return a
        raise NoGen('fn')
    if isinstance(a, list):
        return [au(k, x, y, z) for x, y, z in zip(a, b, c)]
    if not (isinstance(a, T) and isinstance(b, T) and isinstance(c, T)) or a.w != b.w or b.w != c.w:
        raise NoGen('kinds')
    if a.w == 1:
        fs = [cmpform(x) for x in (a, b, c)]
        if all(fs) and len(set(f[0] for f in fs)) == 1 and len(set(f[1].w for f in fs)) == 1:
            r = t.ult(au(k, *[f[1] for f in fs]), au(k, *[f[2] for f in fs]))
            return t.not_(r) if fs[0][0] else r
    d1 = t.sub(b, a)
    d2 = t.sub(c, b)
    if d1 is d2 and a.w > 1:
        if d1.op == 'c':
            return t.add(a, t.mulc(kw(k, a.w), d1.a[0]))
        if d1.ar:
            return t.add(a, t.mul(kw(k, a.w), d1))
    if a.op == b.op == c.op:
        if a.op == 'app' and a.a[:2] == b.a[:2] == c.a[:2] and len(a.a) == len(b.a) == len(c.a):
            args = []
            for x, y, z in zip(a.a[2:], b.a[2:], c.a[2:]):
                if isinstance(x, T):
                    args.append(au(k, x, y, z))
                elif x == y == z:
                    args.append(x)
                else:
                    raise NoGen('app')
            return t.app(a.a[0], a.w, args, a.a[1])
        if a.op in ('cat',) and len(a.a) == len(b.a) == len(c.a):
            return t.cat([au(k, x, y, z) for x, y, z in zip(a.a, b.a, c.a)])
        if a.op == 'x' and a.a[1] == b.a[1] == c.a[1]:
            return t.slc(au(k, a.a[0], b.a[0], c.a[0]), a.a[1], a.w)
        if a.op == '^' and a.a[0] == b.a[0] == c.a[0] and len(a.a[1]) == len(b.a[1]) == len(c.a[1]):
            com = set(a.a[1]) & set(b.a[1]) & set(c.a[1])
            r = const(a.a[0], a.w)
            for x in com:
                r = t.xor(r, x)
            xs, ys, zs = [[y for y in q.a[1] if y not in com] for q in (a, b, c)]
            err = None
            for ps in pairings(xs, ys, zs):
                try:
                    r2 = r
                    for x, y, z in ps:
                        r2 = t.xor(r2, au(k, x, y, z))
                    return r2
                except NoGen as e:
                    err = e
            raise err
        if a.op == '+' and len(a.a[1]) == len(b.a[1]) == len(c.a[1]):
            r = au(k, const(a.a[0], a.w), const(b.a[0], a.w), const(c.a[0], a.w))
            com = set(a.a[1]) & set(b.a[1]) & set(c.a[1])
            for x, q in com:
                r = t.add(r, t.mulc(x, q))
            xs, ys, zs = [[y for y in q.a[1] if y not in com] for q in (a, b, c)]
            for (x, p), (y, q), (z, s) in pair(xs, ys, zs):
                if not (p == q == s):
                    raise NoGen('coef')
                r = t.add(r, t.mulc(au(k, x, y, z), p))
            return r
        if a.op in ('&', '*') and len(a.a) == len(b.a) == len(c.a):
            com = set(a.a) & set(b.a) & set(c.a)
            args = list(com)
            for x, y, z in pair(*[[y for y in q.a if y not in com] for q in (a, b, c)]):
                args.append(au(k, x, y, z))
            r = args[0]
            for x in args[1:]:
                r = t.and_(r, x) if a.op == '&' else t.mul(r, x)
            return r
        if a.op in ('ite', 'eq', 'ult', 'slt', 'udiv', 'urem', 'sext') and len(a.a) == len(b.a) == len(c.a):
            args = [au(k, x, y, z) for x, y, z in zip(a.a, b.a, c.a)]
            return t.rebuild(a, dict(zip(a.a, args)).get) if len(set(a.a)) == len(a.a) else _bad()
    raise NoGen('%s / %s' % (t.show(a, 3), t.show(b, 3)))


def _bad():
    raise NoGen('dup')


_skel = {}


def skel(x):
    """structure of a term with the arguments of applications left out"""
    r = _skel.get(x)
    if r is not None:
        return r
    st = [x]
    while st:
        y = st[-1]
        if y in _skel:
            st.pop()
            continue
        if y.op in ('c', 'v'):
            _skel[y] = hash((y.op, y.w, y.a[0]))
        elif y.op == 'app':
            _skel[y] = hash((y.op, y.w, str(y.a[0])))
        else:
            ks = []
            fl = []
            for p in y.a:
                if isinstance(p, T):
                    ks.append((p, 1))
                elif isinstance(p, tuple):
                    for q in p:
                        ks.append(q if isinstance(q, tuple) else (q, 1))
                else:
                    fl.append(p)
            todo = [q for q, _ in ks if q not in _skel]
            if todo:
                st.extend(todo)
                continue
            hs = [(_skel[q], n) for q, n in ks]
            if y.op in ('^', '&', '+', '*'):
                hs.sort()
            _skel[y] = hash((y.op, y.w, tuple(fl), tuple(hs)))
        st.pop()
    return _skel[x]


def pair(xs, ys, zs):
    tm = lambda p: p[0] if isinstance(p, tuple) else p
    co = lambda p: p[1] if isinstance(p, tuple) else 0
    key = lambda p: (co(p), skel(tm(p)), tm(p).id)
    sh = lambda p: (co(p), shape(tm(p)))
    ms = []
    for q in (xs, ys, zs):
        d = {}
        for p in q:
            d.setdefault((co(p), skel(tm(p))), []).append(p)
        ms.append(d)
    good = [k for k in ms[0] if len(ms[0][k]) == len(ms[1].get(k, ())) == len(ms[2].get(k, ()))]
    out = []
    for k in good:
        out += zip(*[sorted(d.pop(k), key=key) for d in ms])
    out += zip(*[sorted([p for v in d.values() for p in v], key=sh) for d in ms])
    return out


def pairings(xs, ys, zs):
    yield pair(xs, ys, zs)
    if len(xs) in (2, 3):
        for p in itertools.permutations(ys):
            for q in itertools.permutations(zs):
                yield list(zip(xs, p, q))


def shape(x):
    if x.op == 'app':
        return ('app', str(x.a[0]), x.w, x.id)
    return (x.op, '', x.w, x.id)


def vsub(v, mp, memo):
    if isinstance(v, T):
        return t._subst(v, mp, memo)
    if isinstance(v, Ptr):
        r = memo.get(id(v))
        if r is None or r[0] is not v:
            r = memo[id(v)] = (v, Ptr(v.obj, t._subst(v.off, mp, memo)))
        return r[1]
    if isinstance(v, list):
        return [vsub(x, mp, memo) for x in v]
    return v


def veq(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return a == b


# -------------------------------------------------------------------- rule

class Stop:
    def __init__(self, uid, blk, body):
        self.uid = uid
        self.blk = blk
        self.body = body


class Gen:
    """template of the state at the k-th arrival"""

    def __init__(self):
        self.env = {}
        self.cells = {}    # (obj, off) -> (value)  1-byte cell templates (v, idx)
        self.moving = {}   # obj -> list of (ref, stride, entries)


def one(ex, st, fr_uid, blk, side, body, cond):
    """one iteration from st (at the branch) -> (arrived, left)"""
    s = st.fork()
    s.log = []
    s.pcmark = None
    n0 = len(s.pc)
    if not s.assume(cond) or cond.op != 'c' and prover.valid(const(0, 1), s.pc) is True:
        return [], []
    fr = s.frames[-1]
    ins = fr.f.blocks[blk][-1]
    stop = Stop(fr_uid, blk, body)
    ex.enter(s, fr, ins[3] if side else ins[4])
    left, arrived = ex.run([s], stop)
    return arrived, left


def merge(ex, sts, n0):
    """merge states arriving at the same point (differences become ite)"""
    if len(sts) == 1:
        return sts[0]
    if len(sts) > 16:
        raise Undecided('too many paths through a loop body')
    res = sts[0]
    for s in sts[1:]:
        # condition selecting s
        suf = [c for c in s.pc[n0:]]
        cond = const(1, 1)
        for c in suf:
            cond = t.and_(cond, c)
        rsuf = const(1, 1)
        for c in res.pc[n0:]:
            rsuf = t.and_(rsuf, c)
        fa, fb = res.frames[-1], s.frames[-1]
        if fa.blk != fb.blk or len(res.frames) != len(s.frames):
            raise Undecided('merge: different points')
        for v in list(fa.env):
            if v not in fb.env:
                del fa.env[v]
                continue
            x, y = fa.env[v], fb.env[v]
            if not veq(x, y):
                fa.env[v] = vite(cond, y, x)
        # written cells
        keys = set()
        for st in (res, s):
            for (o, off, n, v) in st.log or ():
                if off.op != 'c' or not isinstance(n, int):
                    keys.add(None)
                else:
                    for i in range(n):
                        keys.add((o, off.a[0] + i))
        if None in keys:
            la = [(o, off, n) for o, off, n, v in res.log]
            lb = [(o, off, n) for o, off, n, v in s.log]
            if la != lb:
                raise Undecided('merge: different symbolic writes')
            raise Undecided('merge: symbolic writes')
        for (o, off) in sorted(keys):
            if o not in res.objs or o not in s.objs:
                continue
            c1 = ex.cell(res, res.objs[o], res.mem[o], const(off, 64))
            c2 = ex.cell(s, s.objs[o], s.mem[o], const(off, 64))
            if c1[0] is c2[0] and c1[1] == c2[1]:
                continue
            b1, b2 = execu.tbyte(*c1), execu.tbyte(*c2)
            if b1 is not b2:
                ex.store_cell(res, o, off, (t.ite(cond, b2, b1), 0))
        res.pc = res.pc[:n0] + [t.or_(rsuf, cond)]
        if res.events[:] != s.events[:]:
            raise Undecided('merge: different events')
    return res


def vite(c, a, b):
    if isinstance(a, T) and isinstance(b, T) and a.w == b.w:
        return t.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return Ptr(a.obj, t.ite(c, a.off, b.off))
    raise Undecided('merge of different values')


class Deep:
    """folding that replaces the terms wherever they occur"""

    def __init__(self, mp):
        self.mp, self.memo = mp, {}


def foldval(v, mp):
    if not mp:
        return v
    if isinstance(mp, Deep):
        return vsub(v, mp.mp, mp.memo)
    if isinstance(v, T):
        r = mp.get(v)
        if r is not None:
            return r
        if v.op == 'cat':
            ps = [mp.get(p, p) for p in v.a]
            if any(p is not q for p, q in zip(ps, v.a)):
                return t.cat(ps)
        return v
    if isinstance(v, list):
        return [foldval(x, mp) for x in v]
    return v


def apply_fold(ex, st, kterm, live, whole=False):
    """theory folding of the live state after kterm iterations; was anything folded?"""
    if ex.fold is None:
        return False
    ex.fold_live = live
    ex.fold_probe = whole
    mp = ex.fold(st, kterm)
    if not mp:
        return False
    fr = st.frames[-1]
    hit = False
    for v in live:
        if v in fr.env:
            x = foldval(fr.env[v], mp)
            hit = hit or x is not fr.env[v]
            fr.env[v] = x
    memo = {}
    where = {}
    for (o, off, n, v) in st.log or ():
        if o in st.mem and off.op == 'c' and isinstance(n, int):
            where.setdefault(o, set()).update(range(off.a[0], off.a[0] + n))
    for o in list(st.mem) if whole else where:
        if whole and (not st.objs[o].writable or st.objs[o].kind == 'global'):
            continue
        if not any(isinstance(l, dict) for l in st.mem[o].layers[-1:]):
            continue
        m = st.wmem(o)
        d = m.layers[-1]
        if not isinstance(d, dict):
            continue
        for i in list(d) if whole else where[o]:
            c = d.get(i)
            if c is not None and isinstance(c[0], T):
                r = memo.get(c[0])
                if r is None:
                    r = memo[c[0]] = foldval(c[0], mp)
                if r is not c[0]:
                    d[i] = (r, c[1])
                    hit = True
    if isinstance(mp, Deep) and st.log:
        st.log = [(o, off, n, foldval(v, mp) if isinstance(v, T) else (foldval(v[0], mp), v[1]) if isinstance(v, tuple) and isinstance(v[0], T) else v)
                  for (o, off, n, v) in st.log]
    return hit


def offsets(log):
    """fixed byte offsets written, in program order: list of ((obj), offterm, n, v)"""
    return log


def classify(l0, l1, l2, dead):
    """pair the write logs of consecutive iterations"""
    if not (len(l0) == len(l1) == len(l2)):
        raise NoGen('write logs of different length %d %d %d' % (len(l0), len(l1), len(l2)))
    fixed = set()
    moving = {}
    for e0, e1, e2 in zip(l0, l1, l2):
        if e0[0] != e1[0] or e1[0] != e2[0]:
            if e0[0] in dead and e1[0] in dead:
                continue
            raise NoGen('write objects differ')
        if e0[0] in dead:
            continue
        if not isinstance(e0[2], int):
            raise NoGen('range write in loop')
        if e0[2] != e1[2]:
            raise NoGen('write sizes differ')
        d = t.sub(e1[1], e0[1])
        if d.op != 'c' or t.sub(e2[1], e1[1]) is not d:
            raise NoGen('write addresses')
        if d.a[0] == 0:
            if e0[1].op != 'c':
                raise NoGen('fixed symbolic address')
            for i in range(e0[2]):
                fixed.add((e0[0], e0[1].a[0] + i))
        else:
            moving.setdefault((e0[0], d.a[0]), []).append((e0, e1, e2))
    return fixed, moving


def cellval(ex, st, o, off):
    return ex.cell(st, st.objs[o], st.mem[o], const(off, 64))


DEBUG = False


def summarise(ex, st, fr, ins, c, side):
    try:
        return _summarise(ex, st, fr, ins, c, side)
    except NoGen as e:
        if DEBUG:
            print('loop rule failed at', fr.f.name, fr.blk, ':', e)
        st.nosum.add((fr.uid, fr.blk))
        raise Undecided('loop rule: %s in %s %s' % (e, fr.f.name, fr.blk))


def _summarise(ex, st, fr, ins, c, side):
    uid, blk = fr.uid, fr.blk
    f = fr.f
    body = innermost(f, blk)
    live = live_out(f, blk) | set(uses(ins))
    outerlog = st.log
    S = [st]
    logs = []
    cur = st
    k0 = 0
    if ex.fold is not None and apply_fold(ex, st, const(1, 64), live, whole=True):
        k0 = 1               # the branch is at the end of the body
        c = ex.val(st, fr.env, ('i', 1), ins[2][1])
    for i in range(3):
        cc = ex.val(cur, cur.frames[-1].env, ('i', 1), ins[2][1])
        sc = cc if side else t.not_(cc)
        n0 = len(cur.pc)
        arr, left = one(ex, cur, uid, blk, side, body, sc)
        if not arr:
            return None          # at most i iterations: unroll
        nx = merge(ex, arr, n0)
        apply_fold(ex, nx, const(k0 + i + 1, 64), live)
        logs.append(nx.log)
        S.append(nx)
        cur = nx
    dead = set()
    for l in logs:
        for e in l:
            if e[0] not in st.objs:
                dead.add(e[0])
    for s in S[1:]:
        if set(s.objs) - set(st.objs) - dead:
            new = [o for o in s.objs if o not in st.objs and s.objs[o].kind != 'global']
            if new:
                raise NoGen('objects created in loop: %s' % new)
    fixed, moving = classify(logs[0], logs[1], logs[2], dead)
    k = t.fresh('k', 64, 0, KMAX)
    bv = t.var('bv.%s' % k.a[0], 64, 0, KMAX)
    env = {}
    hav = []
    e0, e1, e2 = [s.frames[-1].env for s in S[:3]]
    for v in live:
        if v in e0:
            try:
                env[v] = au(k, e0[v], e1.get(v), e2.get(v))
            except NoGen as e:
                hav.append((v, str(e)))
                env[v] = havoc(e0[v], v)
    redo = []
    for v in [v for v, _ in hav]:
        # a value the header computes from its phis: computed again instead of forgotten
        try:
            redo += [i for i in recompute(f, blk, v, e0, e1, e2, env, k) if i not in redo]
        except NoGen:
            continue
        hav = [h for h in hav if h[0] != v]
    cells = {}
    done = set()
    for (o, off) in sorted(fixed):
        if (o, off) in done:
            continue
        cs = [cellval(ex, s, o, off) for s in S[:3]]
        v0 = cs[0][0]
        if all(isinstance(x[0], T) and x[1] == 0 and x[0].w > 8 for x in cs) and len(set(x[0].w for x in cs)) == 1 \
                and all(cellval(ex, s, o, off + i) == (cs[j][0], i) for j, s in enumerate(S[:3]) for i in range(cs[0][0].w // 8)):
            n = cs[0][0].w // 8
        elif not isinstance(v0, T):
            n = 8
        else:
            n = 1
        try:
            if n == 1:
                v = au(k, *[execu.tbyte(*x) for x in cs])
            else:
                v = au(k, *[x[0] for x in cs])
        except NoGen as e:
            hav.append(((o, off), str(e)))
            v = t.fresh('havoc.%s.%d' % (o, off), 8 * n, ar=False)
        for i in range(n):
            cells[(o, off + i)] = (v, i)
            done.add((o, off + i))
    mv = {}
    back = {}
    for (o, stride), es in moving.items():
        if stride >> 63:
            raise NoGen('decreasing writes')
        ref = min_off([e[0][1] for e in es])
        ent = {}
        for a, b, d in es:
            rel = t.sub(a[1], ref)
            if rel.op != 'c' or rel.a[0] + a[2] > stride:
                raise NoGen('write outside stride')
            vals = [x[3] for x in (a, b, d)]
            vals = [v[0] if isinstance(v, tuple) and v[1] == 0 and (not isinstance(v[0], T) or v[0].w == 8) else
                    (execu.tbyte(*v) if isinstance(v, tuple) else v) for v in vals]
            if ex.fold is not None:
                pass
            v = au(bv, *vals)
            # later writes overwrite earlier ones
            for r2 in list(ent):
                n2 = ent[r2][0]
                if not (rel.a[0] + a[2] <= r2 or r2 + n2 <= rel.a[0]):
                    if rel.a[0] <= r2 and r2 + n2 <= rel.a[0] + a[2]:
                        del ent[r2]
                    else:
                        raise NoGen('overlapping moving writes')
            ent[rel.a[0]] = (a[2], v)
        ents = sorted((r, n, v) for r, (n, v) in ent.items())
        mv.setdefault(o, []).append((ref, stride, ents))
        back[o] = extends(ex, st, o, ref, stride, ents, bv)

    def build(kk):
        s = st.fork()
        mp = {k: kk}
        memo = {}
        s.log = [] if outerlog is None else list(outerlog)
        g = s.frames[-1]
        g.env = {v: vsub(x, mp, memo) for v, x in env.items()}
        for i in redo:
            g.env[i[1]] = pure(ex, s, g.env, i)
        for v in e0:
            if v not in live:
                pass
        for o, lst in mv.items():
            m = s.wmem(o)
            for ref, stride, ents in lst:
                m.layers.append(looprec(ref, stride, kk, ents, bv, back[o]))
                if outerlog is not None:
                    s.log.append((o, ref, 'looprec', m.layers[-1]))
        by = {}
        for (o, off), (v, i) in cells.items():
            by.setdefault(o, []).append((off, v, i))
        for o, lst in by.items():
            m = s.wmem(o)
            d = m.layers[-1]
            if not isinstance(d, dict):
                d = {}
                m.layers.append(d)
            for off, v, i in lst:
                d[off] = (vsub(v, mp, memo), i)
                if outerlog is not None:
                    s.log.append((o, const(off, 64), 1, d[off]))
        if outerlog is None:
            s.log = None
        return s

    # moving regions must stay clear of fixed cells of the same object
    for o, lst in mv.items():
        offs = [off for (oo, off) in fixed if oo == o]
        for ref, stride, ents in lst:
            for off in offs:
                rel = t.sub(const(off, 64), ref)
                raise NoGen('fixed and moving writes in the same object')
        if len(lst) > 1:
            raise NoGen('several moving regions')

    # inductive step, weakening what is not preserved
    for rnd in range(6):
        G = build(k)
        G.log = []
        cc = ex.val(G, G.frames[-1].env, ('i', 1), ins[2][1])
        sc = cc if side else t.not_(cc)
        # f(q) leaves the loop, so every arrival number is at most q
        q = trip(ex, st, sc, k)
        if q is not None:
            G.assume(t.ult(k, q))
        n0 = len(G.pc)
        try:
            arr, left = one(ex, G, uid, blk, side, body, sc)
        except Violation as e:
            if hav or q is None:
                # the general state says less than is known: this is no violation of the code
                raise NoGen('in the general iteration: %s' % e)
            raise
        if not arr:
            raise NoGen('no arrival from the general state')
        R = merge(ex, arr, n0)
        k1 = t.add(k, const(1, 64))
        apply_fold(ex, R, t.add(k1, const(k0, 64)), live)
        N = build(k1)
        bad = []
        for v in list(env):
            if v in env:
                a, b = R.frames[-1].env.get(v), N.frames[-1].env[v]
                if is_havoc(env[v]) or any(i[1] == v for i in redo):
                    continue
                if not same(ex, R, a, b):
                    bad.append(v)
        for (o, off), (tv, ti) in cells.items():
            if is_havoc(tv):
                continue
            a, b = cellval(ex, R, o, off), cellval(ex, N, o, off)
            if a[0] is b[0] and a[1] == b[1]:
                continue
            if not isinstance(a[0], T) or not isinstance(b[0], T):
                if a != b:
                    bad.append((o, off))
                continue
            if not same(ex, R, execu.tbyte(*a), execu.tbyte(*b)):
                bad.append((o, off))
        # write log of the general iteration
        wl = [e for e in R.log if e[0] in st.objs]
        rest = []
        for e in wl:
            if isinstance(e[2], int) and e[1].op == 'c' and all((e[0], e[1].a[0] + i) in cells for i in range(e[2])):
                continue
            rest.append(e)
        seen = {}
        for e in rest:
            ok = False
            for ref, stride, ents in mv.get(e[0], ()):
                at = t.sub(e[1], t.add(ref, t.mulc(k, stride)))
                if at.op == 'c' and isinstance(e[2], int):
                    for r, n, v in ents:
                        if r == at.a[0] and n == e[2]:
                            seen[(e[0], r)] = (e[3], v)
                            ok = True
                    if not ok and any(r <= at.a[0] and at.a[0] + e[2] <= r + n for r, n, v in ents):
                        ok = True   # overwritten later in the same iteration
            if not ok:
                raise NoGen('general iteration writes elsewhere: %s' % (e[:3],))
        for o, lst in mv.items():
            for ref, stride, ents in lst:
                for r, n, v in ents:
                    if (o, r) not in seen:
                        raise NoGen('general iteration misses a write')
                    a = seen[(o, r)][0]
                    if isinstance(a, tuple):
                        a = execu.tbyte(*a) if isinstance(a[0], T) else a[0]
                    want = vsub(v, {bv: k}, {})
                    if isinstance(a, T) and isinstance(want, T) and a.w != want.w:
                        a = t.zext(a, want.w) if a.w < want.w else a
                    if not same(ex, R, a, want):
                        raise NoGen('moving write value differs: %s vs %s' % (t.show(a, 4) if isinstance(a, T) else a, t.show(want, 4) if isinstance(want, T) else want))
        if not bad:
            break
        if DEBUG:
            print('weaken', fr.f.name, blk, bad[:6])
        for b in bad:
            if isinstance(b, str):
                hav.append((b, 'not preserved'))
                env[b] = havoc(env[b], b)
            else:
                hav.append((b, 'not preserved'))
                cells[b] = (t.fresh('havoc.%s.%d' % b, 8, ar=False), 0)
    else:
        raise NoGen('no inductive invariant')
    ex.loops_summarised += 1
    ex.loopinfo.append((f.name, blk, len(env), len(cells), sum(len(x) for x in mv.values()), len(hav)))
    if DEBUG:
        print('loop', f.name, blk, 'havoc', hav[:5])
    facts = list(R.pc[n0:])
    out = []
    # side exits (break / return inside the body) happen at some k
    for s in left:
        s.log = None if outerlog is None else list(outerlog) + (s.log or [])
        s.facts.append((k, k, facts))
        out.append(s)
    # regular exit
    G = build(k)
    cc = ex.val(G, G.frames[-1].env, ('i', 1), ins[2][1])
    sc = cc if side else t.not_(cc)
    ks = trip(ex, st, sc, k)
    if ks is not None:
        E = build(ks)
        E.facts.append((k, ks, facts))
        eins = E.frames[-1]
        ex.enter(E, eins, ins[4] if side else ins[3])
        out.append(E)
        if t.iv(ks)[1] > KMAX and prover.valid(t.ule(ks, const(KMAX, 64)), st.pc) is not True:
            raise NoGen('trip count range')
        ex.loopinfo[-1] += (t.show(ks),)
    else:
        E = G
        if E.assume(t.not_(sc)):
            E.facts.append((k, k, facts))
            ex.enter(E, E.frames[-1], ins[4] if side else ins[3])
            out.append(E)
        ex.loopinfo[-1] += ('exit at some k',)
    return out


PURE = ('bin', 'icmp', 'cast', 'gep')


def pure(ex, st, env, ins):
    op = ins[0]
    if op == 'bin':
        a, b = ex.val(st, env, ins[3], ins[4]), ex.val(st, env, ins[3], ins[5])
        if isinstance(a, list):
            raise NoGen('vector')
        return execu.BINF[ins[2]](a if isinstance(a, T) else ex.p2i(a), b if isinstance(b, T) else ex.p2i(b))
    if op == 'icmp':
        return ex.icmp(st, ins[2], ex.val(st, env, ins[3], ins[4]), ex.val(st, env, ins[3], ins[5]))
    if op == 'cast':
        return ex.cast(st, ins[2], ins[3], ex.val(st, env, ins[3], ins[4]), ins[5])
    return ex.gep(st, env, ins[2], ins[3])


def recompute(f, blk, v, e0, e1, e2, env, k):
    """the instructions of the header (in order) that compute v from values that have a general form; adds these to env"""
    defs = {i[1]: i for i in f.blocks[blk] if i[0] in PURE}
    order = []
    new = {}

    def need(n):
        if n in defs:
            i = defs[n]
            if i in order:
                return
            for u in uses(i):
                need(u)
            order.append(i)
            return
        x = env.get(n, new.get(n))
        if x is None:
            if n not in e0:
                raise NoGen('undefined')
            new[n] = au(k, e0[n], e1.get(n), e2.get(n))
        elif is_havoc(x):
            raise NoGen('unknown')
    if v not in defs:
        raise NoGen('not computed here')
    need(v)
    env.update(new)
    return order


def extends(ex, st, o, ref, stride, ents, bv):
    """the memory before the loop already holds the entries of iteration -1"""
    if o not in st.objs or sum(n for r, n, v in ents) != stride or st.objs[o].kind == 'dead':
        return False
    if not all(isinstance(v, T) for r, n, v in ents):
        return False
    m1 = const((1 << 64) - 1, 64)
    r0 = t.sub(ref, const(stride, 64))
    if not st.mem[o].layers or ex.decide(st, t.ule(const(stride, 64), ref)) is not True:
        return False
    for r, n, v in ents:
        w = t.subst(v, {bv: m1})
        if w is v:
            return False
        for i in range(n):
            try:
                c = ex.cell(st, st.objs[o], st.mem[o], t.add(r0, const(r + i, 64)))
            except (Undecided, Violation):
                return False
            if not isinstance(c[0], T) or execu.tbyte(*c) is not execu.tbyte(w, i):
                return False
    return True


def looprec(ref, stride, k, ents, bv, back):
    if not back:
        return LoopRec(ref, stride, k, ents, bv)
    e2 = [(r, n, t.subst(v, {bv: t.sub(bv, const(1, 64))})) for r, n, v in ents]
    return LoopRec(t.sub(ref, const(stride, 64)), stride, t.add(k, const(1, 64)), e2, bv)


def min_off(offs):
    best = offs[0]
    for o in offs[1:]:
        d = t.sub(o, best)
        if d.op != 'c':
            raise NoGen('moving writes at unrelated addresses')
        if d.a[0] >> 63:
            best = o
    return best


def havoc(v, name):
    if isinstance(v, T):
        return t.fresh('havoc.' + str(name), v.w, ar=False)
    raise NoGen('pointer %s not inductive' % name)


def is_havoc(v):
    return isinstance(v, T) and v.op == 'v' and v.a[0].startswith('havoc.')


def same(ex, st, a, b):
    if veq(a, b):
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return same(ex, st, a.off, b.off)
    if isinstance(a, T) and isinstance(b, T) and a.w == b.w:
        if ex.teq is not None and ex.teq(a, b):
            return True
        if a.op == 'ite' or b.op == 'ite':
            r = same_cases(ex, st, a, b)
            if r is not None:
                return r
        if quick_diff(a, b):
            return False
        return prover.valid(t.eq(a, b), st.pc) is True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(ex, st, x, y) for x, y in zip(a, b))
    return False


def same_cases(ex, st, a, b, depth=0):
    """equality by the cases of selections among constants (k == 0 ? .. : k == 1 ? ..); None: not of that shape"""
    st = st.fork()
    while a.op == 'ite' or b.op == 'ite':
        c = a.a[0] if a.op == 'ite' else b.a[0]
        if c.op != 'eq' or not any(x.op == 'c' for x in c.a):
            return None
        x, y = c.a if c.a[1].op == 'c' else (c.a[1], c.a[0])
        h = st.fork()
        if x.op == 'v' and h.assume(c):
            a1, b1 = t.subst(a, {x: y}), t.subst(b, {x: y})
            if not veq(a1, b1):
                if a1.op == 'ite' or b1.op == 'ite' or prover.valid(t.eq(a1, b1), h.pc) is not True:
                    return None
        elif x.op != 'v':
            return None
        a, b = t.subst(a, {c: t.const(0, 1)}), t.subst(b, {c: t.const(0, 1)})
        if not st.assume(t.not_(c)):
            return True
    return prover.valid(t.eq(a, b), st.pc) is True or None


def quick_diff(a, b, n=3):
    """random evaluation shows the terms differ (ignoring path conditions)"""
    import random
    for s in range(n):
        vals = {}

        def env(x, args, s=s):
            key = (x.a[0], args) if x.op == 'app' else x
            if key not in vals:
                r = random.Random(hash((s, str(x.a[0]), args)))
                if x.op == 'v':
                    lo, hi = x.a[1], min(x.a[2], x.a[1] + (1 << 40))
                    vals[key] = r.randint(lo, hi)
                else:
                    h = x.a[1]
                    vals[key] = r.randint(0, h if h is not None else t.mask(x.w))
            return vals[key]
        memo = {}
        if t.ev(a, env, memo) != t.ev(b, env, memo):
            return True
    return False


def trip(ex, st, sc, k):
    """closed form of the first k with not sc(k), verified; None when not found"""
    atoms = []

    def coll(x):
        if x.op in ('&', '^'):
            for y in (x.a if x.op == '&' else x.a[1]):
                coll(y)
        elif x.op in ('ult', 'eq', 'slt'):
            atoms.append(x)
    coll(sc)
    cands = []
    for x in atoms:
        a, b = x.a
        for d in (t.sub(b, a), t.sub(a, b)):
            lin = dict(d.a[1]) if d.op == '+' else {d: 1}
            if k not in lin:
                continue
            s = t.sgn(lin[k], 64)
            d0 = t.sub(d, t.mulc(k, s))
            if k in t.leaves(d0):
                continue
            if s < 0:
                s = -s
                for e in (d0, t.add(d0, const(1, 64)), t.sub(d0, const(1, 64)), t.add(d0, const(s - 1, 64))):
                    q = t.udiv(e, const(s, 64))
                    if q.op == 'udiv' or (q.op == 'cat' and s > 1 and False):
                        pass
                    cands.append(q)
                    cands.append(t.add(q, const(1, 64)))
    seen = set()
    j = t.fresh('j', 64, 0, KMAX)
    scj = t.subst(sc, {k: j})
    for q in cands:
        if q in seen:
            continue
        seen.add(q)
        if t.iv(q)[1] > KMAX and prover.valid(t.ule(q, const(KMAX, 64)), st.pc) is not True:
            continue
        e = t.not_(t.subst(sc, {k: q}))
        if not (e.op == 'c' and e.a[0] == 1) and prover.valid(e, st.pc) is not True:
            continue
        if prover.valid(scj, st.pc + [t.ult(j, q)]) is True:
            return q
    return None
