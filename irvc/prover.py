"""Deciding conditions under path conditions: normal form, intervals, then z3."""
import z3
import terms as t
from terms import T, const

stats = {'z3': 0, 'z3_time': 0.0, 'unknown': 0}


class NotInt(Exception):
    pass


class IntTr:
    """integer reading of non wrapping arithmetic terms"""

    def __init__(self):
        self.memo = {}
        self.side = []

    def atom(self, x):
        r = self.memo.get(x)
        if r is None:
            r = z3.Int('t%d' % x.id)
            lo, hi = t.iv(x)
            self.side.append(z3.And(r >= lo, r <= hi))
            self.memo[x] = r
        return r

    def tr(self, x):
        op = x.op
        if op == 'c':
            return z3.IntVal(x.a[0])
        r = self.memo.get(x)
        if r is not None:
            return r
        if op == '+':
            lo, hi = t.lin_exact(x)
            w = x.w
            s = z3.IntVal(t.sgn(x.a[0], w))
            for m, k in x.a[1]:
                s = s + t.sgn(k, w) * self.tr(m)
            if lo < 0 or hi > t.mask(w):
                # wraps modulo 2^w: introduce the wrap count
                n = z3.Int('w%d' % x.id)
                v = z3.Int('v%d' % x.id)
                self.side.append(v == s + n * (1 << w))
                self.side.append(z3.And(v >= 0, v <= t.mask(w)))
                s = v
        elif op == 'cat':
            s = z3.IntVal(0)
            sh = 0
            for p in x.a:
                s = s + self.tr(p) * (1 << sh)
                sh += p.w
        elif op == 'x':
            b = self.tr(x.a[0])
            q = z3.Int('q%d' % x.id)
            r1 = z3.Int('r%d' % x.id)
            h = z3.Int('h%d' % x.id)
            lo = x.a[1]
            self.side.append(b == h * (1 << (lo + x.w)) + q * (1 << lo) + r1)
            self.side.append(z3.And(q >= 0, q < (1 << x.w), r1 >= 0, r1 < (1 << lo), h >= 0))
            s = q
        elif op == '*':
            if t.iv(x.a[0])[1] * t.iv(x.a[1])[1] > t.mask(x.w):
                return self.atom(x)
            s = self.tr(x.a[0]) * self.tr(x.a[1])
        elif op in ('udiv', 'urem') and x.a[1].op == 'c' and x.a[1].a[0]:
            a = self.tr(x.a[0])
            d = x.a[1].a[0]
            q = z3.Int('q%d' % x.id)
            r1 = z3.Int('r%d' % x.id)
            self.side.append(z3.And(a == q * d + r1, r1 >= 0, r1 < d, q >= 0))
            s = q if op == 'udiv' else r1
        elif op == 'ite':
            s = z3.If(self.b(x.a[0]), self.tr(x.a[1]), self.tr(x.a[2]))
        elif op in ('v', 'app', '^', '&', 'udiv', 'urem', 'shl', 'lshr', 'ashr', 'sext'):
            if x.w == 1:
                s = z3.If(self.b(x), z3.IntVal(1), z3.IntVal(0))
            else:
                return self.atom(x)
        elif x.w == 1:
            s = z3.If(self.b(x), z3.IntVal(1), z3.IntVal(0))
        else:
            raise NotInt(op)
        self.memo[x] = s
        return s

    def b(self, x):
        k = ('b', x)
        r = self.memo.get(k)
        if r is not None:
            return r
        op = x.op
        if op == 'c':
            r = z3.BoolVal(bool(x.a[0]))
        elif op == 'eq':
            r = self.tr(x.a[0]) == self.tr(x.a[1])
        elif op == 'ult':
            r = self.tr(x.a[0]) < self.tr(x.a[1])
        elif op == 'slt':
            w = x.a[0].w
            a, b = self.tr(x.a[0]), self.tr(x.a[1])
            h, f = 1 << (w - 1), 1 << w
            r = z3.If(a >= h, a - f, a) < z3.If(b >= h, b - f, b)
        elif op == '&':
            r = z3.And(*[self.b(y) for y in x.a])
        elif op == '^':
            r = z3.BoolVal(bool(x.a[0]))
            for y in x.a[1]:
                r = z3.Xor(r, self.b(y))
            if len(x.a[1]) == 1:
                r = z3.Not(self.b(x.a[1][0])) if x.a[0] else self.b(x.a[1][0])
        elif op == 'ite':
            r = z3.If(self.b(x.a[0]), self.b(x.a[1]), self.b(x.a[2]))
        elif op == 'x':
            r = self.tr(x) == 1 if False else None
            b = self.tr(x.a[0])
            q = z3.Int('q%d' % x.id)
            r1 = z3.Int('r%d' % x.id)
            h = z3.Int('h%d' % x.id)
            lo = x.a[1]
            self.side.append(b == h * (1 << (lo + 1)) + q * (1 << lo) + r1)
            self.side.append(z3.And(q >= 0, q < 2, r1 >= 0, r1 < (1 << lo), h >= 0))
            r = q == 1
        else:
            r = z3.Bool('b%d' % x.id)
        self.memo[k] = r
        return r


class BvTr:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.fns = {}

    def tr(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        op = x.op
        w = x.w
        if op == 'c':
            r = z3.BitVecVal(x.a[0], w)
        elif op == 'v':
            r = z3.BitVec(x.a[0], w)
            lo, hi = x.a[1], x.a[2]
            if lo > 0:
                self.side.append(z3.UGE(r, lo))
            if hi < t.mask(w):
                self.side.append(z3.ULE(r, hi))
        elif op == 'app':
            args = [y for y in x.a[2:] if isinstance(y, T)]
            nm = x.a[0] + '/' + '/'.join(str(y) for y in x.a[2:] if not isinstance(y, T)) + '/%d/' % w + ','.join(str(y.w) for y in args)
            if args:
                f = self.fns.get(nm)
                if f is None:
                    f = z3.Function(nm, *([z3.BitVecSort(y.w) for y in args] + [z3.BitVecSort(w)]))
                    self.fns[nm] = f
                r = f(*[self.tr(y) for y in args])
            else:
                r = z3.BitVec(nm, w)
            if x.a[1] is not None:
                self.side.append(z3.ULE(r, x.a[1]))
        elif op == '+':
            r = None
            for m, k in x.a[1]:
                y = self.tr(m)
                if k != 1:
                    y = y * z3.BitVecVal(k, w)
                r = y if r is None else r + y
            if x.a[0]:
                r = r + z3.BitVecVal(x.a[0], w)
        elif op == '^':
            r = None
            for m in x.a[1]:
                y = self.tr(m)
                r = y if r is None else r ^ y
            if x.a[0]:
                r = r ^ z3.BitVecVal(x.a[0], w)
        elif op == '&':
            r = None
            for m in x.a:
                y = self.tr(m)
                r = y if r is None else r & y
        elif op == 'cat':
            r = z3.Concat(*[self.tr(p) for p in reversed(x.a)])
        elif op == 'x':
            r = z3.Extract(x.a[1] + w - 1, x.a[1], self.tr(x.a[0]))
        elif op == 'ite':
            r = z3.If(self.tr(x.a[0]) == 1, self.tr(x.a[1]), self.tr(x.a[2]))
        elif op == 'sext':
            r = z3.SignExt(w - x.a[0].w, self.tr(x.a[0]))
        else:
            a, b = self.tr(x.a[0]), self.tr(x.a[1])
            one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
            if op == '*':
                r = a * b
            elif op == 'eq':
                r = z3.If(a == b, one, zero)
            elif op == 'ult':
                r = z3.If(z3.ULT(a, b), one, zero)
            elif op == 'slt':
                r = z3.If(a < b, one, zero)
            elif op == 'udiv':
                r = z3.UDiv(a, b)
            elif op == 'urem':
                r = z3.URem(a, b)
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = z3.LShR(a, b)
            elif op == 'ashr':
                r = a >> b
            else:
                raise Exception(op)
        self.memo[x] = r
        return r


class Model:
    """a concrete assignment: used to answer 'not valid' without a solver call"""

    def __init__(self, vals, seed=0):
        self.vals = vals
        self.memo = {}
        self.seed = seed

    def env(self, x, args):
        key = x if x.op == 'v' else (x.a[0], x.w) + tuple(args)
        v = self.vals.get(key)
        if v is None:
            h = hash((self.seed, x.id if x.op == 'v' else key)) & 0xffffffffffffffff
            if x.op == 'v':
                lo, hi = x.a[1], x.a[2]
                r = hi - lo + 1
                v = lo + (h % min(r, 1 << 20) if self.seed & 1 else h % r)
            else:
                hi = x.a[1] if x.a[1] is not None else t.mask(x.w)
                v = h % (hi + 1)
            self.vals[key] = v
        return v

    def ev(self, x):
        return t.ev(x, self.env, self.memo)

    def sat(self, pc):
        ev = self.ev
        for p in pc:
            if not ev(p):
                return False
        return True


models = []


def add_model(z3model, memo):
    """memo: term -> z3 expression"""
    m = Model({})
    try:
        leaves = [x for x in memo if isinstance(x, T) and x.op in ('v', 'app')]
        for x in leaves:
            v = z3model.eval(memo[x], model_completion=True)
            if z3.is_int_value(v) or z3.is_bv_value(v):
                v = v.as_long()
            elif z3.is_true(v):
                v = 1
            elif z3.is_false(v):
                v = 0
            else:
                return None
            if x.op == 'v':
                m.vals[x] = v
            else:
                m.pend = getattr(m, 'pend', [])
                m.pend.append((x, v))
        for x, v in sorted(getattr(m, 'pend', []), key=lambda p: p[0].id):
            args = tuple(m.ev(y) if isinstance(y, T) else y for y in x.a[2:])
            m.vals[(x.a[0], x.w) + args] = v
        m.pend = None
        m.memo = {}
    except Exception:
        return None
    models.insert(0, m)
    del models[24:]
    return m


def quick(c, pc):
    """(some model satisfies pc & c, some model satisfies pc & not c)"""
    a = b = False
    for m in models:
        if m.sat(pc):
            if m.ev(c):
                a = True
            else:
                b = True
            if a and b:
                break
    return a, b


def distinguish(a, b, pc, timeout=20000):
    """a model that satisfies pc and gives a and b different values, or None; used where the terms are too big for the solver:
    the solver finds a model of the path condition only, the difference is seen by evaluation"""
    for m in list(models):
        if m.sat(pc) and m.ev(a) != m.ev(b):
            return m
    for seed in range(6):
        m = Model({}, seed)
        if m.sat(pc) and m.ev(a) != m.ev(b):
            return m
    hyp = [p for p in pc if p.op != 'c']
    if not hyp:
        return None
    tr = BvTr()
    s = z3.Solver()
    s.set('timeout', timeout)
    for p in hyp:
        s.add(tr.tr(p) == 1)
    for x in tr.side:
        s.add(x)
    if s.check() != z3.sat:
        return None
    m = add_model(s.model(), tr.memo)
    if m is not None and m.sat(pc) and m.ev(a) != m.ev(b):
        return m
    return None


def feasible(pc, timeout=30000):
    """True: a model exists; False: the path condition is contradictory; None: unknown"""
    pc = [p for p in pc if p.op != 'c' or not p.a[0]]
    if not pc:
        return True
    r = valid(const(0, 1), tuple(pc), timeout=timeout)
    return None if r is None else not r


def _isarith(c, d=0):
    """worth trying the integer reading"""
    if c.op in ('eq', 'ult', 'slt'):
        return c.a[0].w >= 16 or all(x.ar for x in c.a)
    if c.op in ('&',):
        return any(_isarith(x) for x in c.a)
    if c.op == '^':
        return any(_isarith(x) for x in c.a[1])
    return False


def valid(c, pc=(), timeout=3000, force=None):
    """True if pc entails c, False if a model of pc & not c exists, None unknown"""
    if any(p.op == 'c' and not p.a[0] for p in pc):
        return True
    if c.op == 'c':
        if c.a[0]:
            return True
        # false is entailed exactly by an impossible path condition
        pc = tuple(p for p in pc if p.op != 'c')
        if not pc:
            return False
        c, pc = t.not_(pc[-1]), pc[:-1]
        if c.op == 'c':
            return bool(c.a[0])
    import time
    if force is None and quick(c, pc)[1]:
        return False
    t0 = time.time()
    stats['z3'] += 1
    try:
        if force != 'bv' and (_isarith(c) or force == 'int'):
            tr = IntTr()
            goal = tr.b(c)
            hyps = [tr.b(p) for p in pc if p.op != 'c']
            s = z3.Solver()
            s.set('timeout', timeout)
            for h in hyps:
                s.add(h)
            s.add(z3.Not(goal))
            for x in tr.side:
                s.add(x)
            r = s.check()
            if r == z3.unsat:
                return True
            if r == z3.sat and force is None:
                m = add_model(s.model(), tr.memo)
                if m is not None and m.sat(pc) and not m.ev(c):
                    return False
            if force == 'int':
                return False if r == z3.sat else None
        # bit vectors are exact: only they may refute
        return _bv(c, pc, timeout)
    finally:
        stats['z3_time'] += time.time() - t0


def relevant(c, pc):
    """hypotheses connected with c through shared leaves"""
    ls = t.leaves(c)
    rest = [(p, t.leaves(p)) for p in pc if p.op != 'c']
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for p, l in rest:
            if l & ls:
                out.append(p)
                ls = ls | l
                ch = True
            else:
                nr.append((p, l))
        rest = nr
    return out


_sat = {}


def satisfiable(ps, timeout):
    if not ps:
        return True
    for m in models:
        if m.sat(ps):
            return True
    key = tuple(sorted(p.id for p in ps))
    if key not in _sat:
        tr = BvTr()
        s = z3.Solver()
        s.set('timeout', timeout)
        for p in ps:
            s.add(tr.tr(p) == 1)
        for x in tr.side:
            s.add(x)
        r = s.check()
        if r == z3.sat:
            add_model(s.model(), tr.memo)
        _sat[key] = True if r == z3.sat else False if r == z3.unsat else None
    return _sat[key]


def _bv(c, pc, timeout, model=False):
    tr = BvTr()
    goal = tr.tr(c)
    s = z3.Solver()
    s.set('timeout', timeout)
    rl = relevant(c, pc)
    rel = set(rl)
    for p in rl:
        s.add(tr.tr(p) == 1)
    s.add(goal == 0)
    for x in tr.side:
        s.add(x)
    r = s.check()
    if r == z3.unsat:
        return True
    if r == z3.sat:
        if model:
            return s.model(), tr
        add_model(s.model(), tr.memo)
        # the hypotheses left out share nothing with the goal; they have to be satisfiable by themselves
        return {True: False, False: True, None: None}[satisfiable([p for p in pc if p.op != 'c' and p not in rel], timeout)]
    stats['unknown'] += 1
    return None


def counterexample(c, pc, timeout=10000):
    """concrete values of leaves for pc & not c, or None"""
    r = _bv(c, pc, timeout, model=True)
    if r is None or r is True:
        return None
    m, tr = r
    out = {}
    ls = set()
    for p in list(pc) + [c]:
        ls |= t.leaves(p)
    for l in ls:
        if l in tr.memo:
            v = m.eval(tr.memo[l], model_completion=True)
            out[l] = v.as_long()
    return out
