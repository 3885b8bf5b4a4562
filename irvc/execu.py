"""Symbolic executor for the IR subset: paths, memory objects, loop rule, call contracts."""
import time
import terms as t
from terms import T, const
import prover
from irparse import Unsupported, sizeof, field_off, resolve, parse_func

W64 = 64


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return '&%s+%s' % (self.obj, t.show(self.off))

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off is self.off

    def __hash__(self):
        return hash((self.obj, self.off))


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn ' + self.name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


NULL = Ptr('null', const(0, 64))


class Infeasible(Exception):
    """the path being executed is impossible"""


class Violation(Exception):
    """an obligation that the state refutes"""

    def __init__(self, kind, msg, pc=(), cond=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.pc = tuple(pc)
        self.cond = cond


class Undecided(Exception):
    """an obligation or branch the prover can neither prove nor refute"""


class Obj:
    """one memory object (immutable part)"""
    __slots__ = ('name', 'size', 'base', 'writable', 'kind', 'csize')

    def __init__(self, name, size, base, writable, kind):
        self.name = name
        self.size = size if isinstance(size, T) else const(size, 64)
        self.csize = self.size.a[0] if self.size.op == 'c' else None
        self.base = base
        self.writable = writable
        self.kind = kind


class Mem:
    """contents of an object: base overlaid by layers (dicts of byte cells, range records)"""
    __slots__ = ('layers', 'shared')

    def __init__(self):
        self.layers = [{}]
        self.shared = False

    def clone(self):
        m = Mem()
        m.layers = self.layers[:-1] + [dict(self.layers[-1])] if isinstance(self.layers[-1], dict) else self.layers + [{}]
        return m


def mulv(rel, d):
    """rel * d at the width of d"""
    r = rel if d.w == rel.w else t.slc(rel, 0, d.w) if d.w < rel.w else t.zext(rel, d.w)
    return t.mulc(r, d.a[0])


M64 = (1 << 64) - 1


class Rec:
    """bytes [off, off+len) given by fn(relative index term) -> byte term"""
    __slots__ = ('off', 'len', 'fn', 'tag')

    def __init__(self, off, ln, fn, tag=None):
        self.off = off
        self.len = ln
        self.fn = fn
        self.tag = tag


class LoopRec:
    """for 0 <= j < cnt: entries (rel, nbytes, value with bound variable) at off + stride*j + rel"""
    __slots__ = ('off', 'stride', 'cnt', 'entries', 'bv')

    def __init__(self, off, stride, cnt, entries, bv):
        self.off = off
        self.stride = stride
        self.cnt = cnt
        self.entries = entries
        self.bv = bv


class Frame:
    __slots__ = ('f', 'blk', 'idx', 'env', 'prev', 'dst', 'allocas', 'uid', 'inv', 'args')

    def copy(self):
        g = Frame()
        g.f, g.blk, g.idx, g.prev, g.dst, g.uid, g.inv = self.f, self.blk, self.idx, self.prev, self.dst, self.uid, self.inv
        g.env = dict(self.env)
        g.allocas = list(self.allocas)
        return g


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.objs = {}
        self.pc = []
        self.log = None       # write log while a loop body is summarised
        self.events = []
        self.data = {}        # free for contracts (copied shallowly)
        self.out = None       # outcome: ('ret', v) ('throw',) ('terminate',) ...
        self.heap = set()
        self.facts = []       # quantified facts (k, cond) meaning forall 0<=j<k
        self.nosum = set()

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        for m in self.mem.values():
            m.shared = True
        s.mem = dict(self.mem)
        s.objs = dict(self.objs)
        s.pc = list(self.pc)
        s.log = None if self.log is None else list(self.log)
        s.events = list(self.events)
        s.data = dict(self.data)
        s.heap = set(self.heap)
        s.facts = list(self.facts)
        s.nosum = set(self.nosum)
        return s

    def assume(self, c):
        if c.op == 'c':
            return bool(c.a[0])
        if c.op == '&':
            for x in c.a:
                if not self.assume(x):
                    return False
            return True
        if c not in self.pc:
            self.pc.append(c)
        return True

    # -------------------------------------------------------------- objects
    def new(self, name, size, base=None, writable=True, kind='obj'):
        if name in self.objs:
            i = 1
            while '%s~%d' % (name, i) in self.objs:
                i += 1
            name = '%s~%d' % (name, i)
        if base is None:
            nm = 'undef.' + name
            base = lambda o: t.app(nm, 8, (o,))
        self.objs[name] = Obj(name, size, base, writable, kind)
        self.mem[name] = Mem()
        return Ptr(name, const(0, 64))

    def wmem(self, name):
        m = self.mem[name]
        if m.shared:
            m = m.clone()
            self.mem[name] = m
        return m


def tbyte(v, k):
    """k-th byte of a stored value"""
    if isinstance(v, T):
        if v.w == 8:
            return v
        if v.w < 8:
            return t.zext(v, 8)
        return t.slc(v, 8 * k, 8)
    raise Unsupported('byte %d of %r' % (k, v))


class Exec:
    def __init__(self, mod, hooks=None, opts=None):
        self.mod = mod
        self.hooks = hooks or {}
        self.uid = 0
        self.steps = 0
        self.oblig = 0
        self.maxsteps = 50_000_000
        self.deadline = None
        self.indirect = None       # callback(ex, st, fnvalue, args) for unknown pointers
        self.onbranch = None       # callback(st, cond)
        self.onaddr = None
        self.fold = None           # theory folding callback(term) -> term
        self.live = {}
        self.maxfork = 4000
        self.loops_summarised = 0
        self.used_funcs = set()
        self.loopinfo = []
        self.teq = None
        self.trust = set()
        self.check_undef_write = False

    # ------------------------------------------------------------ deciding
    def decide(self, st, c, want=None):
        """True/False when pc entails c / not c, else None"""
        if c.op == 'c':
            return bool(c.a[0])
        nc = t.not_(c)
        for p in st.pc:
            if p is c:
                return True
            if p is nc:
                return False
        sawT, sawF = prover.quick(c, st.pc)
        if want is not False and not sawF and prover.valid(c, st.pc) is True:
            return True
        if want is not True and not sawT and prover.valid(nc, st.pc) is True:
            return False
        return None

    def prove(self, st, c, kind, msg):
        """obligation"""
        self.oblig += 1
        if c.op == 'c' and c.a[0] == 1:
            return
        for p in st.pc:
            if p is c:
                return
        r = prover.valid(c, st.pc)
        if r is True:
            return
        if r is False and not any(l.op == 'v' and l.a[0].startswith('havoc.') for x in [c] + list(st.pc) for l in t.leaves(x)):
            raise Violation(kind, msg, st.pc, c)
        raise Undecided('%s: %s' % (kind, msg))

    # -------------------------------------------------------------- memory
    on_branch = None
    on_access = None
    on_release = None

    def inb(self, st, p, n, write):
        if not isinstance(p, Ptr):
            raise Violation('memory', 'access through non pointer %r' % (p,))
        if self.on_access:
            self.on_access(self, st, p)
        o = st.objs.get(p.obj)
        if p.obj == 'int':
            raise Unsupported('access through an integer address')
        if o is None:
            raise Violation('memory', 'access to %s %s' % ('null' if p.obj == 'null' else 'dead object', p), st.pc)
        if write and not o.writable:
            raise Violation('frame', 'write to read-only %s' % p, st.pc)
        off = p.off
        if off.op == 'c' and o.csize is not None:
            self.oblig += 1
            if off.a[0] + n > o.csize:
                if st.pc and prover.valid(const(0, 1), st.pc) is True:
                    raise Infeasible()
                raise Violation('bounds', '%s of %d bytes at %s, size %d' % ('write' if write else 'read', n, p, o.csize), st.pc)
            return o
        self.range_in(st, o, off, const(n, 64), write)
        return o

    def range_in(self, st, o, off, n, write):
        # off + n <= size without wrap: off <= size and n <= size - off
        c = t.and_(t.ule(off, o.size), t.ule(n, t.sub(o.size, off)))
        self.prove(st, c, 'bounds', '%s of %s bytes at %s+%s of size %s' % (
            'write' if write else 'read', t.show(n), o.name, t.show(off), t.show(o.size)))

    def store(self, st, p, v, n):
        o = self.inb(st, p, n, True)
        if isinstance(v, T) and v.w != 8 * n:
            v = t.zext(v, 8 * n)
        m = st.wmem(p.obj)
        if st.log is not None:
            st.log.append((p.obj, p.off, n, v))
        off = p.off
        if off.op == 'c':
            d = m.layers[-1]
            if not isinstance(d, dict):
                d = {}
                m.layers.append(d)
            b = off.a[0]
            if n == 1:
                d[b] = (v, 0)
            else:
                for i in range(n):
                    d[b + i] = (v, i)
        else:
            if n == 1:
                fn = lambda i, v=v: v
            else:
                def fn(i, v=v, n=n):
                    if i.op == 'c':
                        return tbyte(v, i.a[0])
                    raise Unsupported('symbolic index into stored value')
            m.layers.append(Rec(off, const(n, 64), fn, ('st', v, n)))

    def store_cell(self, st, obj, off, cell):
        """raw byte copy preserving provenance"""
        m = st.wmem(obj)
        d = m.layers[-1]
        if not isinstance(d, dict):
            d = {}
            m.layers.append(d)
        d[off] = cell
        if st.log is not None:
            st.log.append((obj, const(off, 64), 1, cell))

    def load(self, st, p, n, ptr=False):
        self.inb(st, p, n, False)
        return self.load_nc(st, p, n, ptr)

    def load_nc(self, st, p, n, ptr=False):
        off = p.off
        m = st.mem[p.obj]
        o = st.objs[p.obj]
        if off.op == 'c':
            b = off.a[0]
            top = m.layers[-1]
            if isinstance(top, dict):
                c0 = top.get(b)
                if c0 is not None and c0[1] == 0:
                    v = c0[0]
                    if n == 1:
                        if not isinstance(v, T):
                            return v
                        return tbyte(v, 0)
                    if not isinstance(v, T) or v.w == 8 * n:
                        for i in range(1, n):
                            c = top.get(b + i)
                            if c is None or c[0] is not v or c[1] != i:
                                break
                        else:
                            return v
        cs = []
        for i in range(n):
            cs.append(self.cell(st, o, m, t.add(off, const(i, 64)) if i else off))
        v = cs[0][0]
        if not isinstance(v, T):
            for i in range(n):
                if cs[i][0] is not v or cs[i][1] != i:
                    raise Unsupported('partial pointer load')
            return v
        bs = [tbyte(c[0], c[1]) for c in cs]
        return t.cat(bs) if n > 1 else bs[0]

    def byte(self, st, p):
        c = self.cell(st, st.objs[p.obj], st.mem[p.obj], p.off)
        return tbyte(c[0], c[1])

    def cell(self, st, o, m, off, layer=None):
        ls = m.layers
        i = (len(ls) if layer is None else layer) - 1
        while i >= 0:
            L = ls[i]
            i -= 1
            if isinstance(L, dict):
                if not L:
                    continue
                if off.op == 'c':
                    c = L.get(off.a[0])
                    if c is not None:
                        return c
                    continue
                # symbolic address over concrete cells
                r = self.sym_in_dict(st, o, m, off, L, i + 1)
                if r is not None:
                    return r
                continue
            if isinstance(L, Rec):
                rel = t.sub(off, L.off)
                d = self.decide(st, t.ult(rel, L.len))
                if d is True:
                    v = L.fn(rel)
                    return v if isinstance(v, tuple) else (v, 0)
                if d is False:
                    continue
                rest = self.cell(st, o, m, off, i + 1)
                v = L.fn(rel)
                v = tbyte(*v) if isinstance(v, tuple) else v
                return (t.ite(t.ult(rel, L.len), v, tbyte(*rest)), 0)
            if isinstance(L, LoopRec):
                r = self.looprec(st, L, off)
                if r is None:
                    continue
                if isinstance(r, list):
                    rest = self.cell(st, o, m, off, i + 1)
                    return (t.ite(r[0], r[1], tbyte(*rest)), 0)
                if r is not False:
                    return r
                raise Undecided('read at %s against loop writes from %s' % (t.show(off), t.show(L.off)))
        return (o.base(off), 0)

    def looprec(self, st, L, off):
        """None: certainly not written; (term,0): value; False: undecided"""
        rel = t.sub(off, L.off)
        s = L.stride
        j = t.udiv(rel, const(s, 64))
        r = t.urem(rel, const(s, 64))
        # certain miss?
        if self.decide(st, t.ult(rel, t.mulc(L.cnt, s)), want=False) is False:
            return None
        if r.op != 'c' or j.op == 'udiv':
            # rel = s*j + r with the path knowing 0 <= j < cnt
            if rel.op != '+' or any(t.sgn(k, 64) % s for x, k in rel.a[1]):
                return False
            c = t.sgn(rel.a[0], 64)
            r = const(c % s, 64)
            j = const((c // s) & M64, 64)
            for x, k in rel.a[1]:
                j = t.add(j, t.mulc(x, (t.sgn(k, 64) // s) & M64))
            if self.decide(st, t.ult(j, L.cnt), want=True) is not True or self.decide(st, t.ule(L.cnt, const(M64 // s, 64)), want=True) is not True:
                return False
        ent = None
        for (a, n, v) in L.entries:
            if a <= r.a[0] < a + n:
                ent = (a, n, v)
        if ent is None:
            return None
        v = ent[2]
        if self.decide(st, t.ult(j, L.cnt), want=True) is True:
            if isinstance(v, T):
                v = t.subst(v, {L.bv: j})
                return (tbyte(v, r.a[0] - ent[0]), 0)
            return (v, r.a[0] - ent[0])
        if self.decide(st, t.ult(j, L.cnt), want=False) is False:
            return None
        if isinstance(v, T):
            return [t.ult(j, L.cnt), tbyte(t.subst(v, {L.bv: j}), r.a[0] - ent[0])]
        return False

    def sym_in_dict(self, st, o, m, off, L, below):
        ks = sorted(L)
        segs = []
        for k in ks:
            if segs and segs[-1][1] == k - 1:
                segs[-1][1] = k
            else:
                segs.append([k, k])
        if len(segs) > 1 and len(segs) <= 64:
            live = [(a, b) for a, b in segs
                    if self.decide(st, t.and_(t.ule(const(a, 64), off), t.ule(off, const(b, 64))), want=False) is not False]
            if not live:
                return None
            if len(live) < len(segs):
                L = {k: L[k] for a, b in live for k in range(a, b + 1)}
                ks = sorted(L)
        if len(ks) >= 4:
            r = self.affine(st, L, ks, off)
            if r is not None:
                return (r, 0)
        lo, hi = ks[0], ks[-1]
        c = t.and_(t.ule(const(lo, 64), off), t.ule(off, const(hi, 64)))
        d = self.decide(st, c)
        if d is False:
            return None
        l, h = t.iv(off)
        l = max(l, 0)
        if h - l > 1024 and hi - lo > 1024:
            raise Undecided('symbolic read over %d cells' % len(ks))
        if h - l > 1024:
            l, h = lo, hi
        cands = []
        step = 1
        if off.op == '+':
            g = 0
            for mm, k in off.a[1]:
                g |= k
            g = g & -g
            if g > 1:
                step = g
                l = l + ((off.a[0] - l) % step)
        res = None
        for v in range(l, h + 1, step):
            if self.decide(st, t.eq(off, const(v, 64)), want=False) is False:
                continue
            cl = L.get(v)
            if cl is None:
                cl = self.cell(st, o, m, const(v, 64), below)
            cands.append((v, tbyte(*cl)))
        if not cands:
            return None
        res = cands[-1][1]
        for v, b in reversed(cands[:-1]):
            res = t.ite(t.eq(off, const(v, 64)), b, res)
        if d is None and not (l == t.iv(off)[0] and h == t.iv(off)[1]):
            rest = self.cell(st, o, m, off, below)
            res = t.ite(c, res, tbyte(*rest))
        return (res, 0)

    def affine(self, st, L, ks, off):
        """cells f(a + k*d) at consecutive offsets, read at a symbolic one"""
        i = 0
        n = len(ks)
        while i < n - 3:
            v = L[ks[i]]
            if not (isinstance(v[0], T) and v[0].op in ('app', '^') and v[0].w == 8 and v[1] == 0) or ks[i + 1] != ks[i] + 1:
                i += 1
                continue
            v, w = v[0], L[ks[i + 1]][0]
            f = advance(v, w) if isinstance(w, T) and w.w == 8 else None
            if f is None:
                i += 1
                continue
            j = i + 1
            while j + 1 < n and ks[j + 1] == ks[j] + 1:
                z = L[ks[j + 1]]
                if z[0] is not f(const(ks[j + 1] - ks[i], 64)) or z[1] != 0:
                    break
                j += 1
            if j - i >= 3:
                rel = t.sub(off, const(ks[i], 64))
                if self.decide(st, t.ult(rel, const(j - i + 1, 64)), want=True) is True:
                    return f(rel)
            i = j
        return None

    # ------------------------------------------------------ bulk operations
    def memcpy(self, st, d, s, n, move=False):
        if n.op == 'c':
            k = n.a[0]
            if k == 0:
                return
            self.inb(st, s, k, False)
            self.inb(st, d, k, True)
            so, sm = st.objs[s.obj], st.mem[s.obj]
            if s.off.op == 'c' and d.off.op == 'c':
                b = s.off.a[0]
                top = sm.layers[-1]
                if len(sm.layers) == 1 and isinstance(top, dict):
                    base = so.base
                    cs = []
                    for i in range(k):
                        c = top.get(b + i)
                        cs.append(c if c is not None else (base(const(b + i, 64)), 0))
                else:
                    cs = [self.cell(st, so, sm, const(b + i, 64)) for i in range(k)]
                m = st.wmem(d.obj)
                dd = m.layers[-1]
                if not isinstance(dd, dict):
                    dd = {}
                    m.layers.append(dd)
                b = d.off.a[0]
                for i in range(k):
                    dd[b + i] = cs[i]
                if st.log is not None:
                    for i in range(k):
                        st.log.append((d.obj, const(b + i, 64), 1, cs[i]))
                return
            cs = [self.cell(st, so, sm, t.add(s.off, const(i, 64))) for i in range(k)]
            if d.off.op == 'c':
                for i in range(k):
                    self.store_cell(st, d.obj, d.off.a[0] + i, cs[i])
                return
            for i in range(k):
                self.store(st, Ptr(d.obj, t.add(d.off, const(i, 64))), tbyte(*cs[i]), 1)
            return
        # symbolic length
        if self.decide(st, t.eq(n, const(0, 64))) is True:
            return
        so = st.objs.get(s.obj)
        do = st.objs.get(d.obj)
        if so is None or do is None:
            self.prove(st, t.eq(n, const(0, 64)), 'memory', 'copy with dead or null pointer')
            return
        if not do.writable:
            raise Violation('frame', 'write to read-only %s' % d, st.pc)
        self.range_in(st, so, s.off, n, False)
        self.range_in(st, do, d.off, n, True)
        sm = st.mem[s.obj]
        sm.shared = True
        soff = s.off
        snap = st

        def fn(i, so=so, sm=sm, soff=soff):
            return self.cell(self.cur or snap, so, sm, t.add(soff, i))
        m = st.wmem(d.obj)
        m.layers.append(Rec(d.off, n, fn, ('copy', s.obj, soff)))
        if st.log is not None:
            st.log.append((d.obj, d.off, n, ('rec', m.layers[-1])))

    cur = None

    def memset(self, st, d, v, n):
        if n.op == 'c':
            k = n.a[0]
            if k == 0:
                return
            self.inb(st, d, k, True)
            if d.off.op == 'c':
                for i in range(k):
                    self.store_cell(st, d.obj, d.off.a[0] + i, (v, 0))
                return
            for i in range(k):
                self.store(st, Ptr(d.obj, t.add(d.off, const(i, 64))), v, 1)
            return
        do = st.objs.get(d.obj)
        if do is None:
            self.prove(st, t.eq(n, const(0, 64)), 'memory', 'set with dead or null pointer')
            return
        if not do.writable:
            raise Violation('frame', 'write to read-only %s' % d, st.pc)
        self.range_in(st, do, d.off, n, True)
        m = st.wmem(d.obj)
        m.layers.append(Rec(d.off, n, lambda i: v, ('set', v)))
        if st.log is not None:
            st.log.append((d.obj, d.off, n, ('rec', m.layers[-1])))

    # -------------------------------------------------------------- values
    def gptr(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.decls:
            return Fn(name)
        if name not in st.objs:
            g = self.mod.globals.get(name)
            if g is None:
                raise Unsupported('global ' + name)
            ty, init, cst = g
            n = sizeof(ty, self.mod)
            st.objs[name] = Obj(name, n, (lambda o, nm=name: t.app('global.' + nm, 8, (o,))), not cst, 'global')
            m = st.mem[name] = Mem()
            if init is not None and (cst or self.init_globals(name)):
                self.ginit(st, m.layers[0], 0, ty, init)
        return Ptr(name, const(0, 64))

    def init_globals(self, name):
        return False

    def ginit(self, st, d, off, ty, init):
        ty = resolve(ty, self.mod)
        k = init[0]
        if k == 'zero' or k == 'undef':
            z = const(0, 8)
            for i in range(sizeof(ty, self.mod)):
                d[off + i] = (z, 0)
            return
        if k == 'str':
            for i, c in enumerate(init[1]):
                d[off + i] = (const(c, 8), 0)
            return
        if k == 'agg':
            if ty[0] in ('a', 'vec'):
                es = sizeof(ty[2], self.mod)
                for i, (et, v) in enumerate(init[1]):
                    self.ginit(st, d, off + i * es, et, v)
                return
            for i, (et, v) in enumerate(init[1]):
                fo, _ = field_off(ty, i, self.mod)
                self.ginit(st, d, off + fo, et, v)
            return
        v = self.val(st, None, ty, init)
        n = sizeof(ty, self.mod)
        if isinstance(v, T) and v.w < 8 * n:
            v = t.zext(v, 8 * n)
        for i in range(n):
            d[off + i] = (v, i)

    def val(self, st, env, ty, v):
        k = v[0]
        if k == 'l':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined value ' + v[1])
        if k == 'c':
            if ty[0] == 'i':
                return const(v[1], ty[1])
            raise Unsupported('const of type %s' % (ty,))
        if k == 'g':
            return self.gptr(st, v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.val(st, env, et, ev) for et, ev in v[1]]
        if k == 'gep':
            return self.gep(st, env, v[1], v[2])
        if k == 'cast':
            return self.cast(st, v[1], v[2], self.val(st, env, v[2], v[3]), v[4])
        if k == 'cop' and v[1] in BINF:
            a = [self.val(st, env, ty2, x) for ty2, x in v[3]]
            return BINF[v[1]](*a)
        raise Unsupported('value %s' % (v,))

    _und = 0

    def undef(self, ty):
        if ty[0] == 'metadata':
            return None
        ty = resolve(ty, self.mod)
        if ty[0] == 'i':
            Exec._und += 1
            return t.app('undef', ty[1], (Exec._und,))
        if ty[0] == 'p':
            return Ptr('undef', const(0, 64))
        if ty[0] == 's':
            return [self.undef(x) for x in ty[1]]
        if ty[0] in ('a', 'vec'):
            return [self.undef(ty[2]) for _ in range(ty[1])]
        raise Unsupported('undef %s' % (ty,))

    def zero(self, ty):
        ty = resolve(ty, self.mod)
        if ty[0] == 'i':
            return const(0, ty[1])
        if ty[0] == 'p':
            return NULL
        if ty[0] == 's':
            return [self.zero(x) for x in ty[1]]
        if ty[0] in ('a', 'vec'):
            return [self.zero(ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero %s' % (ty,))

    def gep(self, st, env, ty, idx):
        base = self.val(st, env, idx[0][0], idx[0][1])
        if not isinstance(base, Ptr):
            if isinstance(base, Fn):
                raise Unsupported('gep on function')
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        first = True
        for ity, iv_ in idx[1:]:
            i = self.val(st, env, ity, iv_)
            if i.w < 64:
                i = t.sext(i, 64)
            if first:
                es = sizeof(ty, self.mod)
                if i.op == 'c':
                    if i.a[0]:
                        off = t.add(off, const(i.a[0] * es, 64))
                else:
                    off = t.add(off, t.mulc(i, es))
                first = False
                continue
            ty = resolve(ty, self.mod)
            if ty[0] == 's':
                fo, ty = field_off(ty, i.a[0], self.mod)
                if fo:
                    off = t.add(off, const(fo, 64))
            else:
                ty = ty[2]
                es = sizeof(ty, self.mod)
                off = t.add(off, t.mulc(i, es))
        return Ptr(base.obj, off)

    def addr(self, obj):
        if obj == 'null':
            return const(0, 64)
        return t.var('addr.' + obj, 64, 1 << 16, 1 << 47)

    def p2i(self, p):
        if isinstance(p, Fn):
            return t.var('addr.' + p.name, 64, 1 << 16, 1 << 47)
        if isinstance(p, T):
            return p
        return t.add(self.addr(p.obj), p.off)

    def i2p(self, v):
        if isinstance(v, (Ptr, Fn)):
            return v
        if v.op == 'c':
            return Ptr('null', v)
        ms = v.a[1] if v.op == '+' else ((v, 1),)
        for m, k in ms:
            if k == 1 and m.op == 'v' and m.a[0].startswith('addr.'):
                return Ptr(m.a[0][5:], t.sub(v, m))
        return Ptr('int', v)

    def cast(self, st, op, ty, a, ty2):
        if op == 'ptrtoint':
            a = self.p2i(a)
            return t.trunc(a, ty2[1]) if ty2[1] < 64 else t.zext(a, ty2[1])
        if op == 'inttoptr':
            return self.i2p(t.zext(a, 64) if a.w < 64 else a)
        if op == 'bitcast' or op == 'addrspacecast':
            if ty == ty2 or (ty[0] == 'p' and ty2[0] == 'p'):
                return a
            raise Unsupported('bitcast')
        if isinstance(a, list):
            raise Unsupported('vector cast')
        if not isinstance(a, T):
            raise Unsupported('%s of pointer' % op)
        w = ty2[1]
        if op == 'zext':
            return t.zext(a, w)
        if op == 'sext':
            return t.sext(a, w)
        return t.trunc(a, w)

    def icmp(self, st, pr, a, b):
        if not isinstance(a, T) or not isinstance(b, T):
            a2 = a if not isinstance(a, T) else (self.i2p(a) if a.op == 'c' else a)
            b2 = b if not isinstance(b, T) else (self.i2p(b) if b.op == 'c' else b)
            if isinstance(a2, Fn) or isinstance(b2, Fn):
                r = const(int(a2 == b2), 1)
                if pr == 'eq':
                    return r
                if pr == 'ne':
                    return t.not_(r)
                raise Unsupported('function order')
            if isinstance(a2, Ptr) and isinstance(b2, Ptr):
                if a2.obj == b2.obj:
                    a, b = a2.off, b2.off
                else:
                    if pr in ('eq', 'ne') and (a2.obj == 'null' or b2.obj == 'null'):
                        o = b2 if a2.obj == 'null' else a2
                        ob = st.objs.get(o.obj)
                        return const(int(pr == 'ne'), 1)
                    a, b = self.p2i(a2), self.p2i(b2)
            else:
                a, b = self.p2i(a2), self.p2i(b2)
        if pr == 'eq':
            return t.eq(a, b)
        if pr == 'ne':
            return t.not_(t.eq(a, b))
        if pr == 'ult':
            return t.ult(a, b)
        if pr == 'ugt':
            return t.ult(b, a)
        if pr == 'ule':
            return t.not_(t.ult(b, a))
        if pr == 'uge':
            return t.not_(t.ult(a, b))
        if pr == 'slt':
            return t.slt(a, b)
        if pr == 'sgt':
            return t.slt(b, a)
        if pr == 'sle':
            return t.not_(t.slt(b, a))
        if pr == 'sge':
            return t.not_(t.slt(a, b))
        raise Unsupported(pr)

    # --------------------------------------------------------------- calls
    def call(self, st, name, args, dst=None, inv=None):
        """push a frame; st continues inside"""
        f = parse_func(self.mod.funcs[name])
        self.used_funcs.add(name)
        fr = Frame()
        fr.f = f
        fr.blk = f.order[0]
        fr.idx = 0
        fr.prev = None
        fr.dst = dst
        fr.inv = inv
        fr.allocas = []
        self.uid += 1
        fr.uid = self.uid
        fr.env = {}
        for (ty, nm), a in zip(f.params, args):
            fr.env[nm] = a
        st.frames.append(fr)
        if len(st.frames) > 60:
            raise Unsupported('call depth')

    def run_function(self, st, name, args):
        """all terminal states of calling name in st"""
        st.out = None
        self.call(st, name, args)
        return self.run([st])

    def run(self, work, stop=None):
        """explore; stop=(frame uid, block) collects states arriving at that branch"""
        done = []
        arrived = []
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > self.maxfork:
                raise Undecided('too many paths')
            self.cur = st
            if stop is not None and (st.out is not None or outside(st, stop)):
                done.append(st)
                continue
            try:
                r = self.step_until(st, stop)
            except Infeasible:
                continue
            if r is None:
                done.append(st)
            elif r == 'stop':
                arrived.append(st)
            else:
                work.extend(r)
        if stop is None:
            return done
        return done, arrived

    def enter(self, st, fr, lab):
        """jump to a block, executing its phis"""
        prev = fr.blk
        fr.prev = prev
        fr.blk = lab
        b = fr.f.blocks[lab]
        i = 0
        new = []
        while i < len(b) and b[i][0] == 'phi':
            ins = b[i]
            v = ins[3].get(prev)
            if v is None:
                v = ins[3].get(self.entryname(fr.f, prev))
            new.append((ins[1], self.val(st, fr.env, ins[2], v)))
            i += 1
        for d, v in new:
            fr.env[d] = v
        fr.idx = i

    def entryname(self, f, lab):
        if lab == '%entry#':
            return '%' + str(len([p for p in f.params if p[1][1:].isdigit()]))
        return lab

    def ret(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            if self.on_release:
                self.on_release(self, st, a)
            st.objs.pop(a, None)
            st.mem.pop(a, None)
        if not st.frames:
            st.out = ('ret', v)
            return
        top = st.frames[-1]
        if fr.dst is not None:
            top.env[fr.dst] = v
        if fr.inv is not None:
            self.enter(st, top, fr.inv[0])

    def unwind(self, st):
        """exception propagates out of the current instruction of the top frame"""
        while st.frames:
            fr = st.frames[-1]
            f = fr.f
            ins = f.blocks[fr.blk][fr.idx - 1] if fr.idx else None
            if ins is not None and ins[0] == 'invoke':
                self.enter(st, fr, ins[6])
                return
            if 'nounwind' in attrs_of(self.mod, f):
                st.out = ('terminate', 'exception leaves nounwind ' + f.name)
                return
            for a in fr.allocas:
                if self.on_release:
                    self.on_release(self, st, a)
                st.objs.pop(a, None)
                st.mem.pop(a, None)
            st.frames.pop()
        st.out = ('throw', st.data.get('exc'))

    def step_until(self, st, stop):
        steps = 0
        while True:
            fr = st.frames[-1]
            b = fr.f.blocks[fr.blk]
            env = fr.env
            ins = b[fr.idx]
            op = ins[0]
            self.steps += 1
            if self.steps & 0xfff == 0:
                if self.deadline and time.time() > self.deadline:
                    raise Undecided('time limit')
            if op == 'bin':
                fr.idx += 1
                ty = ins[3]
                a = self.val(st, env, ty, ins[4])
                c = self.val(st, env, ty, ins[5])
                if isinstance(a, list):
                    raise Unsupported('vector op')
                if not isinstance(a, T):
                    a = self.p2i(a)
                if not isinstance(c, T):
                    c = self.p2i(c)
                env[ins[1]] = BINF[ins[2]](a, c)
                continue
            if op == 'load':
                fr.idx += 1
                p = self.val(st, env, ('p',), ins[3][1])
                if self.onaddr:
                    self.onaddr(st, p)
                env[ins[1]] = self.loadty(st, p, ins[2])
                continue
            if op == 'store':
                fr.idx += 1
                ty, v = ins[2]
                v = self.val(st, env, ty, v)
                p = self.val(st, env, ('p',), ins[3][1])
                if self.onaddr:
                    self.onaddr(st, p)
                self.storety(st, p, ty, v)
                continue
            if op == 'gep':
                fr.idx += 1
                env[ins[1]] = self.gep(st, env, ins[2], ins[3])
                continue
            if op == 'icmp':
                fr.idx += 1
                ty = ins[3]
                env[ins[1]] = self.icmp(st, ins[2], self.val(st, env, ty, ins[4]), self.val(st, env, ty, ins[5]))
                continue
            if op == 'cast':
                fr.idx += 1
                env[ins[1]] = self.cast(st, ins[2], ins[3], self.val(st, env, ins[3], ins[4]), ins[5])
                continue
            if op == 'jmp':
                self.enter(st, fr, ins[2])
                if stop is not None and stop.uid == fr.uid and fr.blk not in stop.body:
                    return None
                continue
            if op == 'br':
                c = self.val(st, env, ('i', 1), ins[2][1])
                if self.onbranch and c.op != 'c':
                    self.onbranch(st, c)
                if stop is not None and stop.uid == fr.uid:
                    if stop.blk == fr.blk:
                        return 'stop'
                    d = bool(c.a[0]) if c.op == 'c' else self.decide(st, c)
                    if d is not None:
                        self.enter(st, fr, ins[3] if d else ins[4])
                        if fr.blk not in stop.body:
                            return None
                        continue
                    return self.branch(st, fr, ins, c)
                if c.op == 'c':
                    self.enter(st, fr, ins[3] if c.a[0] else ins[4])
                    continue
                d = self.decide(st, c)
                if d is not None:
                    self.enter(st, fr, ins[3] if d else ins[4])
                    continue
                return self.branch(st, fr, ins, c)
            if op == 'select':
                fr.idx += 1
                c = self.val(st, env, ('i', 1), ins[2][1])
                a = self.val(st, env, ins[3][0], ins[3][1])
                d = self.val(st, env, ins[4][0], ins[4][1])
                if c.op != 'c':
                    if a is d or (not isinstance(a, T) and a == d):
                        c = const(1, 1)
                    else:
                        k = self.decide(st, c)
                        if k is not None:
                            c = const(int(k), 1)
                if c.op == 'c':
                    env[ins[1]] = a if c.a[0] else d
                elif isinstance(a, T) and isinstance(d, T):
                    env[ins[1]] = t.ite(c, a, d)
                elif isinstance(a, Ptr) and isinstance(d, Ptr) and a.obj == d.obj:
                    env[ins[1]] = Ptr(a.obj, t.ite(c, a.off, d.off))
                else:
                    s2 = st.fork()
                    f2 = s2.frames[-1]
                    f2.env[ins[1]] = d
                    env[ins[1]] = a
                    st.assume(c)
                    s2.assume(t.not_(c))
                    return [st, s2]
                continue
            if op == 'call':
                fr.idx += 1
                r = self.docall(st, fr, ins, None)
                if r is not None:
                    return r if r != 'out' else None
                continue
            if op == 'invoke':
                fr.idx += 1
                r = self.docall(st, fr, ins, (ins[5], ins[6]))
                if r is not None:
                    return r if r != 'out' else None
                continue
            if op == 'ret':
                v = None
                if ins[2] is not None:
                    v = self.val(st, env, ins[2][0], ins[2][1])
                self.ret(st, v)
                if st.out is not None:
                    return None
                if stop is not None and stop.uid == fr.uid:
                    return None
                continue
            if op == 'alloca':
                fr.idx += 1
                n = sizeof(ins[2], self.mod)
                if ins[3] is not None:
                    c = self.val(st, env, ins[3][0], ins[3][1])
                    n = t.mulc(t.zext(c, 64), n)
                self.uid += 1
                p = st.new('%s.%s' % (fr.f.name[1:20], ins[1][1:]), n, kind='alloca')
                fr.allocas.append(p.obj)
                env[ins[1]] = p
                continue
            if op == 'extractvalue':
                fr.idx += 1
                v = self.val(st, env, ins[2][0], ins[2][1])
                for i in ins[3]:
                    v = v[i]
                env[ins[1]] = v
                continue
            if op == 'insertvalue':
                fr.idx += 1
                v = self.val(st, env, ins[2][0], ins[2][1])
                e = self.val(st, env, ins[3][0], ins[3][1])
                env[ins[1]] = insv(v, ins[4], e)
                continue
            if op == 'freeze':
                fr.idx += 1
                env[ins[1]] = self.val(st, env, ins[2][0], ins[2][1])
                continue
            if op == 'switch':
                v = self.val(st, env, ins[2][0], ins[2][1])
                if v.op == 'c':
                    for c, lab in ins[4]:
                        if c & t.mask(v.w) == v.a[0]:
                            break
                    else:
                        lab = ins[3]
                    self.enter(st, fr, lab)
                    continue
                out = []
                rest = st
                if self.on_branch:
                    for c, lab in ins[4]:
                        self.on_branch(self, st, t.eq(v, const(c, v.w)))
                for c, lab in ins[4]:
                    e = t.eq(v, const(c, v.w))
                    d = self.decide(rest, e)
                    if d is False:
                        continue
                    s2 = rest.fork()
                    if s2.assume(e):
                        self.enter(s2, s2.frames[-1], lab)
                        out.append(s2)
                    if d is True:
                        return out
                    rest.assume(t.not_(e))
                self.enter(rest, rest.frames[-1], ins[3])
                out.append(rest)
                return out
            if op == 'unreachable':
                raise Violation('reach', 'unreachable executed in ' + fr.f.name, st.pc)
            if op == 'landingpad':
                fr.idx += 1
                st.data['#lp'] = ins[3]
                env[ins[1]] = [Ptr('exc', const(0, 64)), const(1, 32)]
                continue
            if op == 'resume':
                fr.idx += 1
                self.unwind(st)
                if st.out is not None or stop is not None:
                    return [st] if st.out is None else None
                continue
            if op == 'nop':
                fr.idx += 1
                continue
            raise Unsupported(str(ins)[:200])

    def loadty(self, st, p, ty):
        ty = resolve(ty, self.mod)
        if ty[0] == 'i':
            n = (ty[1] + 7) // 8
            v = self.load(st, p, n)
            if not isinstance(v, T):
                v = self.p2i(v)
            return t.trunc(v, ty[1]) if v.w != ty[1] else v
        if ty[0] == 'p':
            v = self.load(st, p, 8)
            return self.i2p(v) if isinstance(v, T) else v
        if ty[0] == 's':
            r = []
            for i in range(len(ty[1])):
                fo, et = field_off(ty, i, self.mod)
                r.append(self.loadty(st, Ptr(p.obj, t.add(p.off, const(fo, 64))), et))
            return r
        if ty[0] in ('a', 'vec'):
            es = sizeof(ty[2], self.mod)
            return [self.loadty(st, Ptr(p.obj, t.add(p.off, const(i * es, 64))), ty[2]) for i in range(ty[1])]
        raise Unsupported('load %s' % (ty,))

    def storety(self, st, p, ty, v):
        ty = resolve(ty, self.mod)
        if ty[0] == 'i':
            self.store(st, p, v, (ty[1] + 7) // 8)
            return
        if ty[0] == 'p':
            self.store(st, p, v, 8)
            return
        if ty[0] == 's':
            for i in range(len(ty[1])):
                fo, et = field_off(ty, i, self.mod)
                self.storety(st, Ptr(p.obj, t.add(p.off, const(fo, 64))), et, v[i])
            return
        if ty[0] in ('a', 'vec'):
            es = sizeof(ty[2], self.mod)
            for i in range(ty[1]):
                self.storety(st, Ptr(p.obj, t.add(p.off, const(i * es, 64))), ty[2], v[i])
            return
        raise Unsupported('store %s' % (ty,))

    # ---------------------------------------------------------- branches
    def branch(self, st, fr, ins, c):
        import loops
        if self.on_branch:
            self.on_branch(self, st, c)
        key = (fr.uid, fr.blk)
        loop = False
        if key not in st.nosum and not (stop_is(st, key)):
            side = loops.stay_side(self, fr.f, fr.blk)
            if side is not None:
                r = loops.summarise(self, st, fr, ins, c, side)
                if r is not None:
                    return r
                loop = True
        s2 = st.fork()
        out = []
        for s, c1, lab in ((st, c, ins[3]), (s2, t.not_(c), ins[4])):
            if s.assume(c1) and not (loop and prover.valid(const(0, 1), s.pc) is True):
                self.enter(s, s.frames[-1], lab)
                out.append(s)
        return out

    def docall(self, st, fr, ins, inv):
        callee = ins[3]
        args = [self.val(st, fr.env, ty, v) for ty, v in ins[4]]
        dst = ins[1]
        if callee[0] == 'asm':
            return self.finish(st, fr, dst, inv, self.inline_asm(st, callee, args))
        if callee[0] == 'g':
            name = self.mod.aliases.get(callee[1], callee[1])
        else:
            fv = self.val(st, fr.env, ('p',), callee)
            if isinstance(fv, Fn):
                name = fv.name
            elif self.indirect:
                r = self.indirect(self, st, fv, args)
                return self.finish(st, fr, dst, inv, r)
            else:
                raise Unsupported('indirect call %r' % (fv,))
        h = self.hooks.get(name)
        if h is None and name.startswith('@llvm.'):
            h = INTR(name)
            if h is None:
                raise Unsupported('intrinsic ' + name)
        if h is None and name in LIBC:
            h = LIBC[name]
        if h is not None:
            r = h(self, st, args)
            return self.finish(st, fr, dst, inv, r)
        if name in self.mod.funcs:
            self.call(st, name, args, dst, inv)
            return None
        raise Unsupported('call to undefined ' + name)

    def finish(self, st, fr, dst, inv, r):
        if r == 'throw':
            self.unwind(st)
            return 'out' if st.out is not None else None
        if r == 'terminate':
            st.out = ('terminate', 'std::terminate')
            return 'out'
        if isinstance(r, tuple) and r and r[0] == 'forks':
            out = []
            for s2, v in r[1]:
                f2 = s2.frames[-1]
                if dst is not None:
                    f2.env[dst] = v
                if inv is not None:
                    self.enter(s2, f2, inv[0])
                out.append(s2)
            return out
        if dst is not None:
            fr.env[dst] = r
        if inv is not None:
            self.enter(st, fr, inv[0])
        return None

    def inline_asm(self, st, callee, args):
        if callee[1] == '""':
            return None
        raise Unsupported('inline asm %s' % callee[1])


def stop_is(st, key):
    return False


def outside(st, stop):
    for f in st.frames:
        if f.uid == stop.uid:
            return f is st.frames[-1] and f.blk not in stop.body
    return True


def insv(v, idx, e):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = insv(v[idx[0]], idx[1:], e)
    return v


def _sdiv(a, b):
    top = 1 << (a.w - 1)
    if t.iv(a)[1] < top and t.iv(b)[1] < top:
        return t.udiv(a, b)
    raise Unsupported('sdiv')


def _srem(a, b):
    top = 1 << (a.w - 1)
    if t.iv(a)[1] < top and t.iv(b)[1] < top:
        return t.urem(a, b)
    raise Unsupported('srem')


BINF = {
    'add': t.add, 'sub': t.sub, 'mul': t.mul, 'udiv': t.udiv, 'urem': t.urem, 'sdiv': _sdiv, 'srem': _srem,
    'and': t.and_, 'or': t.or_, 'xor': t.xor, 'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr,
}


def attrs_of(mod, f):
    m = getattr(f, '_attrs', None)
    if m is None:
        import re
        h = f.hdr
        m = set(re.findall(r'\b(nounwind)\b', h))
        for g in re.findall(r'#(\d+)', h):
            m |= mod.attrs.get(g, set())
        f._attrs = m
    return m


# ------------------------------------------------------------------ intrinsics

def _i_memcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], t.zext(a[2], 64) if a[2].w < 64 else a[2])


def _i_memset(ex, st, a):
    ex.memset(st, a[0], a[1], t.zext(a[2], 64) if a[2].w < 64 else a[2])


def _i_fshl(ex, st, a):
    x, y, k = a
    if k.op != 'c':
        raise Unsupported('fshl by symbolic')
    w = x.w
    k = k.a[0] % w
    if k == 0:
        return x
    return t.cat([t.slc(y, w - k, k), t.slc(x, 0, w - k)])


def _i_fshr(ex, st, a):
    x, y, k = a
    w = x.w
    if k.op != 'c':
        raise Unsupported('fshr by symbolic')
    k = k.a[0] % w
    if k == 0:
        return y
    return t.cat([t.slc(y, k, w - k), t.slc(x, 0, k)])


def _i_umin(ex, st, a):
    c = t.ult(a[0], a[1])
    if c.op != 'c':
        d = ex.decide(st, c)
        if d is not None:
            c = const(int(d), 1)
    return t.ite(c, a[0], a[1])


def _i_umax(ex, st, a):
    c = t.ult(a[1], a[0])
    if c.op != 'c':
        d = ex.decide(st, c)
        if d is not None:
            c = const(int(d), 1)
    return t.ite(c, a[0], a[1])


def _i_usubsat(ex, st, a):
    c = t.ult(a[0], a[1])
    if c.op != 'c':
        d = ex.decide(st, c)
        if d is not None:
            c = const(int(d), 1)
    return t.ite(c, const(0, a[0].w), t.sub(a[0], a[1]))


def _i_abs(ex, st, a):
    return t.ite(t.slt(a[0], const(0, a[0].w)), t.neg(a[0]), a[0])


def _nop(ex, st, a):
    return None


def _i_assume(ex, st, a):
    return None


def _i_expect(ex, st, a):
    return a[0]


def _i_umul_ov(ex, st, a):
    w = a[0].w
    x = t.mul(t.zext(a[0], 2 * w), t.zext(a[1], 2 * w))
    r = t.mul(a[0], a[1])
    (al, ah), (bl, bh) = t.iv(a[0]), t.iv(a[1])
    if ah * bh <= t.mask(w):
        return [r, const(0, 1)]
    return [r, t.not_(t.eq(t.slc(x, w, w), const(0, w)))]


def _i_uadd_ov(ex, st, a):
    r = t.add(a[0], a[1])
    return [r, t.ult(r, a[0])]


def _i_ctpop(ex, st, a):
    raise Unsupported('ctpop')


def INTR(name):
    for k, f in (('@llvm.memcpy.', _i_memcpy), ('@llvm.memmove.', _i_memcpy), ('@llvm.memset.', _i_memset),
                 ('@llvm.bswap.', lambda ex, st, a: t.bswap(a[0])), ('@llvm.fshl.', _i_fshl), ('@llvm.fshr.', _i_fshr),
                 ('@llvm.umin.', _i_umin), ('@llvm.umax.', _i_umax), ('@llvm.lifetime.', _nop), ('@llvm.assume', _i_assume),
                 ('@llvm.experimental.noalias', _nop), ('@llvm.dbg', _nop), ('@llvm.expect', _i_expect), ('@llvm.invariant', _nop),
                 ('@llvm.usub.sat', _i_usubsat), ('@llvm.abs.', _i_abs), ('@llvm.umul.with', _i_umul_ov), ('@llvm.uadd.with', _i_uadd_ov),
                 ('@llvm.stacksave', lambda ex, st, a: NULL), ('@llvm.stackrestore', _nop), ('@llvm.eh.typeid', lambda ex, st, a: const(1, 32)),
                 ('@llvm.trap', lambda ex, st, a: 'terminate')):
        if name.startswith(k):
            return f
    return None


def _new(ex, st, a):
    n = a[0]
    return st.new('heap', n, kind='heap')


def _delete(ex, st, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj == 'null':
        return None
    if not isinstance(p, Ptr) or p.obj not in st.objs or st.objs[p.obj].kind != 'heap' or p.off.op != 'c' or p.off.a[0] != 0:
        raise Violation('memory', 'delete of %r' % (p,), st.pc)
    if ex.on_release:
        ex.on_release(ex, st, p.obj)
    st.objs.pop(p.obj)
    st.mem.pop(p.obj)
    return None


def _throw(ex, st, a):
    st.data['exc'] = a[0]
    return 'throw'


def _exc_alloc(ex, st, a):
    return st.new('exc', a[0], kind='exc')


LIBC = {
    '@_Znwm': _new, '@_Znam': _new, '@_ZdlPv': _delete, '@_ZdaPv': _delete, '@_ZdlPvm': _delete, '@_ZdaPvm': _delete,
    '@memcpy': _i_memcpy, '@memmove': _i_memcpy, '@memset': _i_memset,
    '@__cxa_throw': _throw, '@__cxa_allocate_exception': _exc_alloc, '@__cxa_free_exception': _nop,
    '@__clang_call_terminate': lambda ex, st, a: 'terminate', '@_ZSt9terminatev': lambda ex, st, a: 'terminate',
    '@__cxa_begin_catch': lambda ex, st, a: a[0], '@__cxa_end_catch': _nop,
}


def advance(v, w):
    """f with f(0) = v, f(1) = w, by constant steps of the arguments of uninterpreted values; None: not of that shape"""
    if v.op == 'app':
        if not (w.op == 'app' and w.a[:2] == v.a[:2] and len(w.a) == len(v.a)):
            return None
        ds = [t.sub(y, x) if x.w == y.w else None for x, y in zip(v.a[2:], w.a[2:])]
        if not all(x is not None and x.op == 'c' for x in ds):
            return None
        return lambda k: t.app(v.a[0], v.w, tuple(t.add(x, mulv(k, d)) for x, d in zip(v.a[2:], ds)), v.a[1])
    if v.op == '^' and w.op == '^' and v.a[0] == w.a[0] and len(v.a[1]) == len(w.a[1]):
        fs = []
        rest = list(w.a[1])
        for x in v.a[1]:
            if x.op != 'app':
                return None
            for y in rest:
                f = advance(x, y)
                if f is not None:
                    fs.append(f)
                    rest.remove(y)
                    break
            else:
                return None

        def g(k):
            r = const(v.a[0], v.w)
            for f in fs:
                r = t.xor(r, f(k))
            return r
        return g
    return None
