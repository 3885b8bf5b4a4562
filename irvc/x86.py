"""x86-64 machine code of the repository's nasm sources, executed by irvc.

The object the build would link is linked here with ld, disassembled by objdump, and turned into a
control-flow skeleton in the IR of irparse: one call per instruction, one branch per jump.  The calls
are interpreted below over the same state as LLVM code; registers are a memory object ('regs')."""
import os
import re
import subprocess

import build
import irparse
import prover
import terms as t
from execu import Ptr, Fn, Unsupported, Violation, Exec
from terms import T, const

GPR = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15']
NAMES = {}
for _i, _r in enumerate(GPR):
    NAMES[_r] = (_i, 8, 0)
    if _r[1:].isdigit():
        NAMES[_r + 'd'], NAMES[_r + 'w'], NAMES[_r + 'b'] = (_i, 4, 0), (_i, 2, 0), (_i, 1, 0)
    else:
        NAMES['e' + _r[1:]], NAMES[_r[1:]] = (_i, 4, 0), (_i, 2, 0)
for _i, _r in enumerate(['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil']):
    NAMES[_r] = (_i, 1, 0)
for _i, _r in enumerate(['ah', 'ch', 'dh', 'bh']):
    NAMES[_r] = (_i, 1, 1)
VEC = 128
FLAGS = VEC + 32 * 16
ZF, CF, SF, OF, PF = range(FLAGS, FLAGS + 5)
SIZE = FLAGS + 8
c64 = lambda v: const(v, 64)
M64 = (1 << 64) - 1


class Insn:
    def __init__(self, addr, op, args, size):
        self.addr, self.op, self.args, self.size = addr, op, args, size
        self.text = op + ' ' + ', '.join(args)


class Program:
    """one linked object"""

    def __init__(self, obj):
        out = '%s.%d.lnk' % (obj, os.getpid())
        build.sh(['ld', '-e', '0', '-o', out, obj])
        self.path = out
        txt = subprocess.run(['objdump', '-d', '-w', '-M', 'intel', '--no-show-raw-insn', out], capture_output=True, text=True, check=True).stdout
        self.insns = {}
        self.syms = {}
        prev = None
        for l in txt.splitlines():
            m = re.match(r'^([0-9a-f]+) <(.+)>:$', l)
            if m:
                self.syms[m.group(2)] = int(m.group(1), 16)
                continue
            m = re.match(r'^\s+([0-9a-f]+):\s+(\S+)\s*(.*)$', l)
            if not m:
                continue
            a, op, rest = int(m.group(1), 16), m.group(2), m.group(3)
            rest = re.sub(r'\s*#.*$', '', rest).strip()
            rest = re.sub(r'<[^>]*>', '', rest).strip()
            args = [x.strip() for x in re.split(r',(?![^\[]*\])', rest)] if rest else []
            i = Insn(a, op, args, 0)
            if prev:
                prev.size = a - prev.addr
            self.insns[a] = i
            prev = i
        hd = subprocess.run(['objdump', '-h', '-w', out], capture_output=True, text=True, check=True).stdout
        self.data = []
        for l in hd.splitlines():
            f = l.split()
            if len(f) > 6 and f[0].isdigit() and f[1] in ('.rodata', '.data', '.rdata'):
                size, vma, al = int(f[2], 16), int(f[3], 16), 1 << int(f[6].split('**')[1])
                b = out + '.sec' + f[0]
                build.sh(['objcopy', '-O', 'binary', '-j', f[1], out, b])
                self.data.append((f[1], vma, open(b, 'rb').read()[:size], al, f[1] == '.data'))
        # every symbol, local ones included
        nm = subprocess.run(['nm', out], capture_output=True, text=True, check=True).stdout
        for l in nm.splitlines():
            f = l.split()
            if len(f) == 3:
                self.syms.setdefault(f[2], int(f[0], 16))

    def next(self, a):
        return a + self.insns[a].size

    def reach(self, sym):
        todo, seen = [self.syms[sym]], set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            if a not in self.insns:
                raise Unsupported('jump outside the code: %x' % a)
            seen.add(a)
            i = self.insns[a]
            if i.op == 'ret':
                continue
            if i.op[0] == 'j':
                if not re.match(r'^[0-9a-f]+$', i.args[0]):
                    raise Unsupported('indirect jump')
                todo.append(int(i.args[0], 16))
                if i.op == 'jmp':
                    continue
            if i.op in ('call', 'ud2', 'hlt', 'syscall', 'int3'):
                raise Unsupported(i.text)
            todo.append(self.next(a))
        return sorted(seen)

    def skeleton(self, sym, extra=''):
        """IR text of @sym: control flow of the machine code"""
        code = self.reach(sym)
        heads = {self.syms[sym]}
        for a in code:
            i = self.insns[a]
            if i.op[0] == 'j':
                heads.add(int(i.args[0], 16))
                if i.op != 'jmp':
                    heads.add(self.next(a))
        out = ['declare void @x86.insn(i64)', 'declare i1 @x86.cond(i64)', 'declare void @x86.ret(i64)',
               'define void @%s() {' % sym, 'start:', '  br label %%b%x' % self.syms[sym]]
        for n, a in enumerate(code):
            i = self.insns[a]
            if a in heads:
                out.append('b%x:' % a)
            if i.op == 'ret':
                out += ['  call void @x86.ret(i64 %d)' % a, '  ret void']
            elif i.op == 'jmp':
                out.append('  br label %%b%x' % int(i.args[0], 16))
            elif i.op[0] == 'j':
                out += ['  %%c%x = call i1 @x86.cond(i64 %d)' % (a, a), '  br i1 %%c%x, label %%b%x, label %%b%x' % (a, int(i.args[0], 16), self.next(a))]
            else:
                out.append('  call void @x86.insn(i64 %d)' % a)
                if self.next(a) in heads:
                    out.append('  br label %%b%x' % self.next(a))
        return '\n'.join(out + ['}', extra])


PURE = re.compile(r'^(v?mov(dq[au]|[au]p[sd]|d|q|ntdqa?)|mov|movabs|movzx|movsxd?|lea|pop|v?pshuf[dhl]w?|vp?broadcast\w+|v.*|v?lddqu)$')


def effects(i):
    """(units read, units wholly written): conservative in both"""
    rd, wr = set(), set()
    op = i.op
    for n, a in enumerate(i.args):
        m = re.match(r'^(xmm|ymm)(\d+)$', a)
        if m:
            k = int(m.group(2))
            dst = n == 0 and PURE.match(op) and not op.startswith(('vmovlps', 'vmovhps', 'vzero'))
            if not dst:
                rd |= {('lo', k), ('hi', k)} if m.group(1) == 'ymm' else {('lo', k)}
            elif op in ('movd', 'movq') or True:
                wr.add(('lo', k))
                if op[0] == 'v':
                    wr.add(('hi', k))
        elif a in NAMES:
            if n == 0 and PURE.match(op) and NAMES[a][1] >= 4:
                wr.add(('g', NAMES[a][0]))
            else:
                rd.add(('g', NAMES[a][0]))
        elif '[' in a:
            for r in re.findall(r'[a-z][a-z0-9]+', a[a.index('['):]):
                if r in NAMES:
                    rd.add(('g', NAMES[r][0]))
    if op.startswith('sha256rnds2'):
        rd.add(('lo', 0))
    if op == 'cpuid':
        rd |= {('g', 0), ('g', 1)}
    if op in ('push', 'pop', 'leave'):
        rd |= {('g', 4), ('g', 5)}
    if op == 'ret':
        rd |= {('g', k) for k in (0, 3, 4, 5, 12, 13, 14, 15)}
    if op[0] == 'j' and op != 'jmp' or op.startswith(('cmov', 'set', 'adc', 'sbb')):
        rd.add('flags')
    if op in ('add', 'sub', 'cmp', 'and', 'or', 'xor', 'test', 'neg'):
        wr.add('flags')
    if op == 'vzeroupper':
        wr |= {('hi', k) for k in range(16)}
    if op in ('vpermq', 'vperm2i128', 'vextracti128'):
        pass
    return rd, wr - rd


def liveness(p, code):
    """units live before each instruction"""
    eff = {a: effects(p.insns[a]) for a in code}
    succ = {}
    for a in code:
        i = p.insns[a]
        succ[a] = [] if i.op == 'ret' else ([int(i.args[0], 16)] if i.op[0] == 'j' else []) + ([p.next(a)] if i.op != 'jmp' else [])
    live = {a: frozenset() for a in code}
    ch = True
    while ch:
        ch = False
        for a in reversed(code):
            out = set()
            for s in succ[a]:
                out |= live[s]
            n = frozenset((out - eff[a][1]) | eff[a][0])
            if n != live[a]:
                live[a] = n
                ch = True
    return live


# ------------------------------------------------------------------ machine

class Machine:
    def __init__(self, prog, ex):
        self.p, self.ex = prog, ex
        ex.hooks['@x86.insn'] = lambda ex, st, a: self.step(st, self.p.insns[a[0].a[0]])
        ex.hooks['@x86.cond'] = lambda ex, st, a: self.branch(st, self.p.insns[a[0].a[0]])
        self.live = {}
        ex.hooks['@x86.ret'] = lambda ex, st, a: self.ret(st)
        self.used = set()
        self.parsed = {}

    # -- state
    def setup(self, st, args, rsp_mod32):
        """entry state of the System V ABI: arguments, return address, 16 byte aligned stack"""
        ex = self.ex
        self.regs = st.new('regs', SIZE, base=lambda o: t.app('reg0', 8, (o,)))
        self.regs = 'regs'
        top = 16384 + rsp_mod32
        stk = st.new('stk', top + 8)
        self.rsp0 = top
        self.align = {'stk': 64}
        self.init = {}
        ex.store(st, Ptr('stk', c64(top)), Fn('@return'), 8)
        for i in range(16):
            self.init[i] = t.var('init.' + GPR[i], 64)
            self.gput(st, i, self.init[i])
        self.gput(st, 4, Ptr('stk', c64(top)))
        for r, a in zip((7, 6, 2, 1, 8, 9), args):
            self.gput(st, r, a)
        self.secs = []
        for nm, vma, data, al, wr in self.p.data:
            q = st.new('sec' + nm, len(data), base=self.secbase(data), writable=False)
            self.align[q.obj] = al
            self.secs.append((vma, len(data), q.obj))

    @staticmethod
    def secbase(data):
        def f(o):
            if o.op != 'c':
                raise Unsupported('symbolic table index')
            return const(data[o.a[0]], 8)
        return f

    def branch(self, st, insn):
        c = self.cond(st, insn.op[1:])
        # registers nothing reads before writing them again hold arbitrary values from here on
        dead = self.live.get(insn.addr)
        if dead is not None:
            for u in dead:
                if u == 'flags':
                    for f in (ZF, CF, SF, OF, PF):
                        self.ex.store(st, Ptr('regs', c64(f)), t.app('dead', 8, (c64(f),)), 1)
                elif u[0] == 'g':
                    self.gput(st, u[1], t.app('dead', 64, (c64(u[1]),)))
                else:
                    for i in range(4):
                        o = VEC + 32 * u[1] + 4 * i + (16 if u[0] == 'hi' else 0)
                        self.ex.store(st, Ptr('regs', c64(o)), t.app('dead', 32, (c64(o),)), 4)
        return c

    def gput(self, st, i, v):
        self.ex.store(st, Ptr('regs', c64(8 * i)), v, 8)

    def gget(self, st, i):
        return self.ex.load_nc(st, Ptr('regs', c64(8 * i)), 8, True)

    def ret(self, st):
        ex = self.ex
        sp = self.gget(st, 4)
        if not (isinstance(sp, Ptr) and sp.obj == 'stk' and sp.off is c64(self.rsp0)):
            raise Violation('abi', 'stack pointer at ret is %s' % (sp,), st.pc)
        ra = ex.load(st, sp, 8, True)
        if not isinstance(ra, Fn):
            raise Violation('abi', 'return address overwritten', st.pc)
        for i in (3, 5, 12, 13, 14, 15):
            v = self.gget(st, i)
            ex.oblig += 1
            if v is not self.init[i] and not (isinstance(v, T) and ex.decide(st, t.eq(v, self.init[i])) is True):
                raise Violation('abi', 'callee-saved %s not preserved' % GPR[i], st.pc)

    # -- operands
    def parse(self, a):
        r = self.parsed.get(a)
        if r is None:
            r = self.parsed[a] = self._parse(a)
        return r

    def _parse(self, a):
        if a in NAMES:
            return ('g',) + NAMES[a]
        m = re.match(r'^(xmm|ymm)(\d+)$', a)
        if m:
            return ('v', int(m.group(2)), 16 if m.group(1) == 'xmm' else 32)
        m = re.match(r'^-?(0x[0-9a-f]+|\d+)$', a)
        if m:
            return ('i', int(a, 0) & M64)
        m = re.match(r'^(?:(\w+) (?:PTR|BCST) )?(?:\w\w:)?\[(.*)\]$', a)
        if m:
            size = {'BYTE': 1, 'WORD': 2, 'DWORD': 4, 'QWORD': 8, 'XMMWORD': 16, 'YMMWORD': 32, None: 0}[m.group(1)]
            base = index = None
            scale, disp = 1, 0
            for s, p in re.findall(r'([+-]?)([^+-]+)', m.group(2)):
                p = p.strip()
                if '*' in p:
                    r, k = p.split('*')
                    index, scale = NAMES[r], int(k, 0)
                elif p in NAMES or p == 'rip':
                    if base is None:
                        base = 'rip' if p == 'rip' else NAMES[p]
                    else:
                        index = NAMES[p]
                else:
                    disp += -int(p, 0) if s == '-' else int(p, 0)
            for x in (base, index):
                if x not in (None, 'rip') and x[1] != 8:
                    raise Unsupported('32 bit address ' + a)
            return ('m', size, base, index, scale, disp & M64)
        raise Unsupported('operand ' + a)

    def addr(self, st, o, insn):
        _, size, base, index, scale, disp = o
        if base == 'rip' or base is None and index is None:
            at = (insn.addr + insn.size if base == 'rip' else 0) + disp & M64
            for vma, n, obj in self.secs:
                if vma <= at < vma + n:
                    return Ptr(obj, c64(at - vma))
            raise Violation('memory', 'access to absolute address %x' % at)
        p = self.gget(st, base[0]) if base else c64(0)
        x = c64(disp)
        if index:
            ix = self.gget(st, index[0])
            if isinstance(ix, Ptr):
                if isinstance(p, Ptr) or scale != 1:
                    raise Unsupported('address')
                p, ix = ix, p
            x = t.add(x, t.mulc(ix, scale))
        if isinstance(p, Ptr):
            return Ptr(p.obj, t.add(p.off, x))
        raise Violation('memory', 'access through non pointer %s in %s' % (t.show(t.add(p, x)), insn.text), st.pc)

    def aligned(self, st, p, n):
        al = self.align.get(p.obj, 1)
        self.ex.oblig += 1
        if al % n or t.slc(p.off, 0, n.bit_length() - 1) is not const(0, n.bit_length() - 1):
            if al % n == 0 and self.ex.decide(st, t.eq(t.slc(p.off, 0, n.bit_length() - 1), const(0, n.bit_length() - 1))) is True:
                return
            raise Violation('alignment', 'access at %s needs %d byte alignment' % (p, n), st.pc)

    # -- integer registers
    def iget(self, st, a, insn, size=None):
        o = self.parse(a)
        if o[0] == 'g':
            v = self.gget(st, o[1])
            if o[2] == 8:
                return v
            if isinstance(v, Ptr):
                raise Unsupported('part of a pointer')
            return t.slc(v, 8 * o[3], 8 * o[2])
        if o[0] == 'i':
            return const(o[1], 8 * (size or 8))
        n = o[1] or size
        return self.ex.load(st, self.addr(st, o, insn), n, True)

    def size(self, a):
        o = self.parse(a)
        return o[2] if o[0] == 'g' else o[1] if o[0] == 'm' else None

    def iput(self, st, a, v, insn):
        o = self.parse(a)
        if o[0] == 'g':
            if o[2] == 8:
                return self.gput(st, o[1], v)
            if o[2] == 4:
                return self.gput(st, o[1], t.zext(v, 64))
            old = self.gget(st, o[1])
            if isinstance(old, Ptr):
                raise Unsupported('part of a pointer')
            lo = 8 * o[3]
            ps = ([t.slc(old, 0, lo)] if lo else []) + [v, t.slc(old, lo + v.w, 64 - lo - v.w)]
            return self.gput(st, o[1], t.cat(ps))
        p = self.addr(st, o, insn)
        self.ex.store(st, p, v, 8 if not isinstance(v, T) else v.w // 8)

    def flag(self, st, f, b):
        self.ex.store(st, Ptr('regs', c64(f)), b if isinstance(b, T) and b.w == 8 else t.zext(b, 8), 1)

    def fget(self, st, f):
        return t.not_(t.eq(self.ex.byte(st, Ptr('regs', c64(f))), const(0, 8)))

    def undef(self, st, *fs):
        for f in fs:
            self.flag(st, f, t.app('undefined', 8, (t.fresh('flag', 64),)))

    def zs(self, st, r):
        self.flag(st, ZF, t.eq(r, const(0, r.w)))
        self.flag(st, SF, t.slc(r, r.w - 1, 1))
        self.undef(st, PF)

    def cond(self, st, cc):
        z, c, s, o = [lambda f=f: self.fget(st, f) for f in (ZF, CF, SF, OF)]
        n = t.not_
        tab = {'e': lambda: z(), 'z': lambda: z(), 'ne': lambda: n(z()), 'nz': lambda: n(z()), 'b': lambda: c(), 'c': lambda: c(), 'nae': lambda: c(), 'ae': lambda: n(c()),
               'nb': lambda: n(c()), 'nc': lambda: n(c()), 'be': lambda: t.or_(c(), z()), 'na': lambda: t.or_(c(), z()), 'a': lambda: n(t.or_(c(), z())), 'nbe': lambda: n(t.or_(c(), z())),
               's': lambda: s(), 'ns': lambda: n(s()), 'l': lambda: t.xor(s(), o()), 'ge': lambda: n(t.xor(s(), o())), 'le': lambda: t.or_(z(), t.xor(s(), o())),
               'g': lambda: n(t.or_(z(), t.xor(s(), o()))), 'o': lambda: o(), 'no': lambda: n(o())}
        if cc not in tab:
            raise Unsupported('condition ' + cc)
        return tab[cc]()

    def alu(self, st, op, insn):
        A = insn.args
        n = self.size(A[0]) or self.size(A[1])
        a = self.iget(st, A[0], insn, n)
        b = self.iget(st, A[1], insn, n)
        if isinstance(b, T) and b.w < 8 * n:
            b = t.sext(b, 8 * n)
        if op in ('add', 'sub', 'cmp') and (isinstance(a, Ptr) or isinstance(b, Ptr)):
            if op == 'add':
                if isinstance(b, Ptr):
                    a, b = b, a
                if isinstance(b, Ptr):
                    raise Unsupported('pointer + pointer')
                r = Ptr(a.obj, t.add(a.off, b))
                self.undef(st, ZF, CF, SF, OF, PF)
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj != b.obj:
                    raise Unsupported('difference of pointers to different objects')
                # both inside (or one past) the same object: unsigned order is offset order
                r = t.sub(a.off, b.off)
                self.zs(st, r)
                self.flag(st, CF, t.ult(a.off, b.off))
                self.undef(st, OF)
            elif isinstance(a, Ptr) and op == 'sub':
                r = Ptr(a.obj, t.sub(a.off, b))
                self.undef(st, ZF, CF, SF, OF, PF)
            else:
                raise Unsupported(insn.text)
            if op != 'cmp':
                self.iput(st, A[0], r, insn)
            return
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, T) and b.op == 'c':
            k = (-b.a[0]) & M64
            if k & (k - 1) or self.align.get(a.obj, 1) % k or a.off.op != 'c':
                raise Unsupported(insn.text)
            self.undef(st, ZF, CF, SF, OF, PF)
            self.iput(st, A[0], Ptr(a.obj, c64(a.off.a[0] & b.a[0])), insn)
            return
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'test' and A[0] == A[1] and a.obj != 'null':
                self.flag(st, ZF, const(0, 8))
                self.flag(st, CF, const(0, 8))
                self.flag(st, OF, const(0, 8))
                self.undef(st, SF, PF)
                return
            raise Unsupported(insn.text)
        if op == 'add':
            r = t.add(a, b)
            self.flag(st, CF, t.ult(r, a))
            self.undef(st, OF)
        elif op in ('sub', 'cmp'):
            r = t.sub(a, b)
            self.flag(st, CF, t.ult(a, b))
            sa, sb, sr = [t.slc(x, x.w - 1, 1) for x in (a, b, r)]
            self.flag(st, OF, t.and_(t.xor(sa, sb), t.xor(sa, sr)))
        else:
            r = {'and': t.and_, 'test': t.and_, 'or': t.or_, 'xor': t.xor}[op](a, b)
            self.flag(st, CF, const(0, 8))
            self.flag(st, OF, const(0, 8))
        self.zs(st, r)
        if op == 'cmp' or op == 'test':
            return
        self.iput(st, A[0], r, insn)

    # -- vectors: lists of 32 bit words
    def vget(self, st, a, n, insn, align=False):
        o = self.parse(a)
        if o[0] == 'v':
            return [self.ex.load_nc(st, Ptr('regs', c64(VEC + 32 * o[1] + 4 * i)), 4) for i in range(n // 4)]
        if o[0] == 'm':
            p = self.addr(st, o, insn)
            if align and n >= 16:
                self.aligned(st, p, n)
            return [self.ex.load(st, Ptr(p.obj, t.add(p.off, c64(4 * i))), 4) for i in range(n // 4)]
        raise Unsupported(insn.text)

    def vput(self, st, a, ws, insn, vex, align=False):
        o = self.parse(a)
        if o[0] == 'v':
            for i, w in enumerate(ws):
                self.ex.store(st, Ptr('regs', c64(VEC + 32 * o[1] + 4 * i)), w, 4)
            if vex and len(ws) < 8:
                for i in range(len(ws), 8):
                    self.ex.store(st, Ptr('regs', c64(VEC + 32 * o[1] + 4 * i)), const(0, 32), 4)
            return
        p = self.addr(st, o, insn)
        n = 4 * len(ws)
        if align and n >= 16:
            self.aligned(st, p, n)
        self.ex.range_in(st, st.objs[p.obj], p.off, c64(n), True) if p.obj in st.objs else None
        for i, w in enumerate(ws):
            self.ex.store(st, Ptr(p.obj, t.add(p.off, c64(4 * i))), w, 4)

    def bytes_(self, ws):
        return [t.slc(w, 8 * i, 8) for w in ws for i in range(4)]

    def words(self, bs):
        return [t.cat(bs[i:i + 4]) for i in range(0, len(bs), 4)]

    # -- one instruction
    def step(self, st, insn):
        self.used.add(insn.text)
        op, A = insn.op, insn.args
        if op in ('nop', 'endbr64', 'data16') or op.startswith('prefetch') or op in ('xchg',) and A == ['ax', 'ax']:
            return
        if op in ('add', 'sub', 'cmp', 'and', 'or', 'xor', 'test'):
            if op == 'xor' and A[0] == A[1] or op == 'sub' and A[0] == A[1]:
                n = self.size(A[0])
                self.iput(st, A[0], const(0, 8 * n), insn)
                for f, v in ((ZF, 1), (CF, 0), (SF, 0), (OF, 0)):
                    self.flag(st, f, const(v, 8))
                return
            return self.alu(st, op, insn)
        if op in ('mov', 'movabs'):
            n = self.size(A[0]) or self.size(A[1])
            return self.iput(st, A[0], self.iget(st, A[1], insn, n), insn)
        if op in ('movzx', 'movsx', 'movsxd'):
            v = self.iget(st, A[1], insn)
            n = 8 * self.size(A[0])
            return self.iput(st, A[0], t.zext(v, n) if op == 'movzx' else t.sext(v, n), insn)
        if op == 'lea':
            o = self.parse(A[1])
            if o[2] == 'rip' or self.size(A[0]) != 8:
                if o[2] == 'rip' and self.size(A[0]) == 8:
                    return self.iput(st, A[0], self.addr(st, o, insn), insn)
                raise Unsupported(insn.text)
            if all(not isinstance(self.gget(st, r[0]), Ptr) for r in (o[2], o[3]) if r):
                v = c64(o[5])
                if o[2]:
                    v = t.add(v, self.gget(st, o[2][0]))
                if o[3]:
                    v = t.add(v, t.mulc(self.gget(st, o[3][0]), o[4]))
                return self.iput(st, A[0], v, insn)
            return self.iput(st, A[0], self.addr(st, o, insn), insn)
        if op == 'cpuid':
            leaf, sub = t.slc(self.gget(st, 0), 0, 32), t.slc(self.gget(st, 1), 0, 32)
            for i, r in enumerate(('eax', 'ebx', 'ecx', 'edx')):
                self.iput(st, r, t.app('cpuid%d' % i, 32, (leaf, sub)), insn)
            return
        if op == 'xchg':
            n = self.size(A[0]) or self.size(A[1])
            a, b = self.iget(st, A[0], insn, n), self.iget(st, A[1], insn, n)
            self.iput(st, A[0], b, insn)
            return self.iput(st, A[1], a, insn)
        if op in ('inc', 'dec', 'neg', 'not'):
            n = self.size(A[0])
            a = self.iget(st, A[0], insn, n)
            if isinstance(a, Ptr):
                if op in ('inc', 'dec'):
                    self.undef(st, ZF, SF, OF, PF)
                    return self.iput(st, A[0], Ptr(a.obj, t.add(a.off, c64(1 if op == 'inc' else M64))), insn)
                raise Unsupported(insn.text)
            r = {'inc': lambda: t.add(a, const(1, a.w)), 'dec': lambda: t.sub(a, const(1, a.w)), 'neg': lambda: t.neg(a), 'not': lambda: t.not_(a)}[op]()
            if op != 'not':
                self.zs(st, r)
                self.undef(st, OF)
                if op == 'neg':
                    self.flag(st, CF, t.not_(t.eq(a, const(0, a.w))))
            return self.iput(st, A[0], r, insn)
        if op in ('shl', 'sal', 'shr', 'sar', 'rol', 'ror'):
            n = self.size(A[0])
            a = self.iget(st, A[0], insn, n)
            k = self.iget(st, A[1], insn, 1) if len(A) > 1 else const(1, 8)
            if isinstance(a, Ptr) or k.op != 'c' or op == 'sar':
                raise Unsupported(insn.text)
            k = k.a[0] & (63 if n == 8 else 31)
            if k == 0:
                return
            r = {'shl': t.shlc, 'sal': t.shlc, 'shr': t.lshrc, 'rol': t.rotl, 'ror': t.rotr}[op](a, k)
            self.undef(st, OF, CF)
            if op[0] == 's':
                self.zs(st, r)
            return self.iput(st, A[0], r, insn)
        if op == 'imul' and len(A) == 3 or op == 'imul' and len(A) == 2:
            n = self.size(A[0])
            a = self.iget(st, A[-2] if len(A) == 3 else A[0], insn, n)
            b = self.iget(st, A[-1], insn, n)
            self.undef(st, ZF, CF, SF, OF, PF)
            return self.iput(st, A[0], t.mul(a, b), insn)
        if op == 'push':
            v = self.iget(st, A[0], insn, 8)
            sp = self.gget(st, 4)
            sp = Ptr(sp.obj, t.sub(sp.off, c64(8)))
            self.gput(st, 4, sp)
            return self.ex.store(st, sp, v, 8)
        if op in ('pop', 'leave'):
            if op == 'leave':
                self.gput(st, 4, self.gget(st, 5))
            sp = self.gget(st, 4)
            if not isinstance(sp, Ptr) or sp.obj != 'stk':
                raise Violation('abi', 'stack pointer is %s' % (sp,), st.pc)
            v = self.ex.load(st, sp, 8, True)
            self.gput(st, 4, Ptr(sp.obj, t.add(sp.off, c64(8))))
            return self.iput(st, A[0] if op == 'pop' else 'rbp', v, insn)
        if op.startswith('cmov'):
            n = self.size(A[0])
            c = self.cond(st, op[4:])
            d = self.ex.decide(st, c)
            a, b = self.iget(st, A[0], insn, n), self.iget(st, A[1], insn, n)
            if d is not None:
                return self.iput(st, A[0], b if d else a, insn)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Unsupported(insn.text)
            return self.iput(st, A[0], t.ite(c, b, a), insn)
        if op == 'vzeroupper':
            for r in range(16):
                for i in range(4, 8):
                    self.ex.store(st, Ptr('regs', c64(VEC + 32 * r + 4 * i)), const(0, 32), 4)
            return
        if op == 'vzeroall':
            for r in range(16):
                for i in range(8):
                    self.ex.store(st, Ptr('regs', c64(VEC + 32 * r + 4 * i)), const(0, 32), 4)
            return
        return self.vector(st, insn)

    def vector(self, st, insn):
        op, A = insn.op, insn.args
        vex = op[0] == 'v'
        b = op[1:] if vex else op
        P = [self.parse(a) for a in A]
        n = max([p[2] for p in P if p[0] == 'v'] or [0])
        if b in ('movdqa', 'movdqu', 'movaps', 'movups', 'movapd', 'movupd', 'lddqu', 'movntdq', 'movntdqa'):
            al = b in ('movdqa', 'movaps', 'movapd', 'movntdq', 'movntdqa')
            return self.vput(st, A[0], self.vget(st, A[1], n, insn, al), insn, vex, al)
        if b in ('movd', 'movq'):
            k = 4 if b == 'movd' else 8
            if P[0][0] == 'v':
                if P[1][0] == 'v':
                    ws = self.vget(st, A[1], k, insn)
                else:
                    v = self.iget(st, A[1], insn, k)
                    if not isinstance(v, T):
                        raise Unsupported(insn.text)
                    k = v.w // 8
                    ws = [t.slc(v, 32 * i, 32) for i in range(k // 4)]
                return self.vput(st, A[0], ws + [const(0, 32)] * (4 - len(ws)), insn, vex)
            if P[0][0] == 'g':
                k = P[0][2]
            ws = self.vget(st, A[1], k, insn)
            return self.iput(st, A[0], t.cat(ws) if len(ws) > 1 else ws[0], insn)
        if b in ('zeroupper', 'zeroall'):
            raise Unsupported(insn.text)
        G = lambda i, k=n, al=not vex: self.vget(st, A[i], k, insn, al)
        put = lambda ws: self.vput(st, A[0], ws, insn, vex)
        imm = lambda: P[-1][1] & 255 if P[-1][0] == 'i' else self.bad(insn)
        x, y = (0, 1) if not vex else (1, 2)     # first and second source
        half = lambda ws, f: sum([f(ws[i:i + 4]) for i in range(0, len(ws), 4)], [])
        half2 = lambda u, v, f: sum([f(u[i:i + 4], v[i:i + 4]) for i in range(0, len(u), 4)], [])
        if b in ('paddd', 'psubd', 'pxor', 'por', 'pand', 'pandn', 'xorps', 'xorpd', 'orps', 'andps', 'andpd', 'andnps'):
            if b in ('pxor', 'xorps', 'xorpd') and A[x] == A[y]:
                return put([const(0, 32)] * (n // 4))
            f = {'paddd': t.add, 'psubd': t.sub, 'pxor': t.xor, 'xorps': t.xor, 'xorpd': t.xor, 'por': t.or_, 'orps': t.or_, 'pand': t.and_, 'andps': t.and_, 'andpd': t.and_,
                 'pandn': lambda p, q: t.and_(t.not_(p), q), 'andnps': lambda p, q: t.and_(t.not_(p), q)}[b]
            return put([f(p, q) for p, q in zip(G(x), G(y))])
        if b in ('paddq', 'psubq', 'paddb', 'paddw', 'psubb', 'psubw', 'pcmpeqd', 'pcmpeqb', 'pmulld'):
            w = {'q': 64, 'b': 8, 'w': 16, 'd': 32}[b[-1]]
            f = {'padd': t.add, 'psub': t.sub, 'pmull': t.mul, 'pcmpeq': lambda p, q: t.ite(t.eq(p, q), const((1 << p.w) - 1, p.w), const(0, p.w))}[b[:-1]]
            p, q = t.cat(G(x)), t.cat(G(y))
            r = t.cat([f(t.slc(p, i, w), t.slc(q, i, w)) for i in range(0, 8 * n, w)])
            return put([t.slc(r, i, 32) for i in range(0, 8 * n, 32)])
        if b in ('pslld', 'psrld', 'psllq', 'psrlq', 'pslldq', 'psrldq', 'psllw', 'psrlw', 'psrad'):
            if P[-1][0] != 'i' or b == 'psrad':
                raise Unsupported(insn.text)
            s = A[1] if len(A) == 3 else A[0]
            k = imm()
            ws = self.vget(st, s, n, insn)
            if b.endswith('dq'):
                def sh(q):
                    v = t.cat(q)
                    v = (t.shlc if b == 'pslldq' else t.lshrc)(v, 8 * min(k, 16)) if k < 16 else const(0, 128)
                    return [t.slc(v, 32 * i, 32) for i in range(4)]
                return put(half(ws, sh))
            w = {'d': 32, 'q': 64, 'w': 16}[b[-1]]
            v = t.cat(ws)
            f = t.shlc if b[2:4] == 'll' else t.lshrc
            r = t.cat([f(t.slc(v, i, w), k) if k < w else const(0, w) for i in range(0, 8 * n, w)])
            return put([t.slc(r, i, 32) for i in range(0, 8 * n, 32)])
        if b == 'pshufd' or b == 'permilps' and P[-1][0] == 'i':
            k = imm()
            return put(half(G(1), lambda q: [q[k >> 2 * i & 3] for i in range(4)]))
        if b == 'shufps':
            k = imm()
            u, v = G(x), G(y)
            return put(half2(u, v, lambda p, q: [p[k & 3], p[k >> 2 & 3], q[k >> 4 & 3], q[k >> 6 & 3]]))
        if b == 'pshufb':
            u, m = G(x), G(y)

            def sb(q, mq):
                bs, r = self.bytes_(q), []
                for c in self.bytes_(mq):
                    if c.op != 'c':
                        raise Unsupported('symbolic shuffle mask')
                    r.append(const(0, 8) if c.a[0] & 128 else bs[c.a[0] & 15])
                return self.words(r)
            return put(half2(u, m, sb))
        if b in ('pshuflw', 'pshufhw'):
            k = imm()

            def sw(q):
                h = [t.slc(w, 16 * i, 16) for w in q for i in range(2)]
                o = 0 if b == 'pshuflw' else 4
                r = list(h)
                for i in range(4):
                    r[o + i] = h[o + (k >> 2 * i & 3)]
                return [t.cat(r[i:i + 2]) for i in range(0, 8, 2)]
            return put(half(G(1), sw))
        if b in ('punpckldq', 'unpcklps'):
            return put(half2(G(x), G(y), lambda p, q: [p[0], q[0], p[1], q[1]]))
        if b in ('punpckhdq', 'unpckhps'):
            return put(half2(G(x), G(y), lambda p, q: [p[2], q[2], p[3], q[3]]))
        if b in ('punpcklqdq', 'movlhps', 'unpcklpd'):
            return put(half2(G(x), G(y), lambda p, q: [p[0], p[1], q[0], q[1]]))
        if b in ('punpckhqdq', 'unpckhpd'):
            return put(half2(G(x), G(y), lambda p, q: [p[2], p[3], q[2], q[3]]))
        if b == 'palignr':
            k = imm()

            def al(p, q):
                bs = self.bytes_(q) + self.bytes_(p) + [const(0, 8)] * 16
                return self.words((bs[min(k, 32):] + [const(0, 8)] * 32)[:16])
            return put(half2(G(x), G(y), al))
        if b in ('pblendd', 'blendps'):
            k = imm()
            return put([q if k >> i & 1 else p for i, (p, q) in enumerate(zip(G(x), G(y)))])
        if b == 'pblendw':
            k = imm()

            def bl(p, q):
                hp, hq = [[t.slc(w, 16 * i, 16) for w in z for i in range(2)] for z in (p, q)]
                r = [hq[i] if k >> i & 1 else hp[i] for i in range(8)]
                return [t.cat(r[i:i + 2]) for i in range(0, 8, 2)]
            return put(half2(G(x), G(y), bl))
        if b in ('broadcasti128', 'broadcastf128'):
            ws = self.vget(st, A[1], 16, insn)
            return put(ws + ws)
        if b in ('pbroadcastd', 'broadcastss'):
            return put(self.vget(st, A[1], 4, insn) * (n // 4))
        if b in ('pbroadcastq', 'broadcastsd'):
            return put(self.vget(st, A[1], 8, insn) * (n // 8))
        if b in ('perm2i128', 'perm2f128'):
            k = imm()
            u, v = G(1), G(2)
            h = [u[:4], u[4:], v[:4], v[4:]]
            return put(sum([[const(0, 32)] * 4 if k >> s & 8 else h[k >> s & 3] for s in (0, 4)], []))
        if b in ('inserti128', 'insertf128'):
            u, v = self.vget(st, A[1], 32, insn), self.vget(st, A[2], 16, insn)
            return put(u[:4] + v if imm() & 1 else v + u[4:])
        if b in ('extracti128', 'extractf128'):
            u = self.vget(st, A[1], 32, insn)
            return self.vput(st, A[0], u[4:] if imm() & 1 else u[:4], insn, True)
        if b == 'permq':
            k = imm()
            u = G(1)
            return put(sum([u[2 * (k >> s & 3):2 * (k >> s & 3) + 2] for s in (0, 2, 4, 6)], []))
        if b == 'permd':
            ix, u = G(1), G(2)
            if any(i.op != 'c' for i in ix):
                raise Unsupported(insn.text)
            return put([u[i.a[0] & 7] for i in ix])
        if b in ('pinsrd', 'pinsrq'):
            k = 1 if b[-1] == 'd' else 2
            ws = self.vget(st, A[0] if not vex else A[1], 16, insn)
            v = self.iget(st, A[-2], insn, 4 * k)
            if not isinstance(v, T):
                raise Unsupported(insn.text)
            i = (imm() % (4 // k)) * k
            return put(ws[:i] + [t.slc(v, 32 * j, 32) for j in range(k)] + ws[i + k:])
        if b in ('pextrd', 'pextrq'):
            k = 1 if b[-1] == 'd' else 2
            ws = self.vget(st, A[1], 16, insn)
            i = (imm() % (4 // k)) * k
            return self.iput(st, A[0], t.cat(ws[i:i + k]) if k > 1 else ws[i], insn)
        if b.startswith('sha'):
            return self.sha(st, insn, b, G, put, imm)
        raise Unsupported('instruction ' + insn.text)

    def bad(self, insn):
        raise Unsupported(insn.text)

    def sha(self, st, insn, b, G, put, imm):
        """Intel SDM"""
        import spec
        add, xor = t.add, t.xor
        d, s = G(0), G(1)
        if b == 'sha1nexte':
            return put(s[:3] + [add(s[3], spec.rotl(d[3], 30))])
        if b == 'sha1msg1':
            w0, w1, w2, w3, w4, w5 = d[3], d[2], d[1], d[0], s[3], s[2]
            return put([xor(w5, w3), xor(w4, w2), xor(w3, w1), xor(w2, w0)])
        if b == 'sha1msg2':
            w13, w14, w15 = s[2], s[1], s[0]
            w16 = spec.rotl(xor(d[3], w13), 1)
            w17 = spec.rotl(xor(d[2], w14), 1)
            w18 = spec.rotl(xor(d[1], w15), 1)
            w19 = spec.rotl(xor(d[0], w16), 1)
            return put([w19, w18, w17, w16])
        if b == 'sha1rnds4':
            k = imm() & 3
            K = const([0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6][k], 32)
            f = [spec.ch, lambda p, q, r: xor(xor(p, q), r), spec.maj, lambda p, q, r: xor(xor(p, q), r)][k]
            A, B, C, D = d[3], d[2], d[1], d[0]
            w = [s[3], s[2], s[1], s[0]]
            E = const(0, 32)
            for i in range(4):
                x = spec.sum_(f(B, C, D), spec.rotl(A, 5), w[i], K, E)
                A, B, C, D, E = x, A, spec.rotl(B, 30), C, D
            return put([D, C, B, A])
        if b == 'sha256rnds2':
            k = self.vget(st, 'xmm0', 16, insn)
            C, D, Gv, H = d[3], d[2], d[1], d[0]
            A, B, E, F = s[3], s[2], s[1], s[0]
            X = lambda x, r: xor(xor(spec.rotr(x, r[0]), spec.rotr(x, r[1])), spec.rotr(x, r[2]))
            for i in range(2):
                t1 = spec.sum_(spec.ch(E, F, Gv), X(E, (6, 11, 25)), k[i], H)
                a2 = spec.sum_(t1, spec.maj(A, B, C), X(A, (2, 13, 22)))
                e2 = add(t1, D)
                A, B, C, D, E, F, Gv, H = a2, A, B, C, e2, E, F, Gv
            return put([F, E, B, A])
        if b == 'sha256msg1':
            s0 = lambda x: xor(xor(spec.rotr(x, 7), spec.rotr(x, 18)), spec.shr(x, 3))
            w = d + [s[0]]
            return put([add(w[i], s0(w[i + 1])) for i in range(4)])
        if b == 'sha256msg2':
            s1 = lambda x: xor(xor(spec.rotr(x, 17), spec.rotr(x, 19)), spec.shr(x, 10))
            w16 = add(d[0], s1(s[2]))
            w17 = add(d[1], s1(s[3]))
            return put([w16, w17, add(d[2], s1(w16)), add(d[3], s1(w17))])
        raise Unsupported(insn.text)


# ------------------------------------------------------------------ entry

_progs = {}


def program(sym):
    """the linked object defining sym"""
    if not _progs:
        _progs.update({o: Program(o) for o in build.asm_objects().values()})
    for p in _progs.values():
        if sym in p.syms:
            return p
    raise Unsupported('no assembly symbol ' + sym)


def run(ex, st, sym, args, rsp_mod32=8):
    """call sym under the System V ABI; terminal states with out = ('ret', rax)"""
    p = program(sym)
    mod = irparse.parse(p.skeleton(sym))
    name = '@' + sym
    ex.mod.funcs[name] = mod.funcs[name]
    for d in mod.decls:
        ex.mod.decls.setdefault(d, mod.decls[d]) if isinstance(ex.mod.decls, dict) else ex.mod.decls.add(d)
    m = Machine(p, ex)
    m.setup(st, args, rsp_mod32)
    code = p.reach(sym)
    lv = liveness(p, code)
    units = {('g', k) for k in range(16)} | {(h, k) for h in ('lo', 'hi') for k in range(16)} | {'flags'}
    for a in code:
        i = p.insns[a]
        if i.op[0] == 'j' and i.op != 'jmp':
            m.live[a] = sorted(units - lv[int(i.args[0], 16)] - lv[p.next(a)], key=str)
    ex.machine = m
    outs = ex.run_function(st, name, [])
    for s in outs:
        if s.out[0] == 'ret':
            s.out = ('ret', m.gget(s, 0))
    return outs
