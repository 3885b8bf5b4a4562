"""Parser for the textual LLVM 18 IR subset produced by the pipeline in build.py."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c"(?:[^"])*")
 | (?P<qid>[%@$](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<cmt>;.*)
 | (?P<meta>![a-zA-Z0-9.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<hex>0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<qs>"[^"]*")
 | (?P<kw>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(line):
    out = []
    i = 0
    n = len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            raise Unsupported('token %r' % line[i:i + 40])
        k = m.lastgroup
        if k == 'cmt':
            break
        if k != 'ws':
            out.append(m.group())
        i = m.end()
    return out


# types: int -> ('i', n); ptr -> ('p',); array ('a', n, t); struct ('s', (types), packed); void ('v',); vec ('vec', n, t)

class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (type, init or None, const)
        self.funcs = {}       # name -> Func
        self.decls = {}       # name -> rettype
        self.aliases = {}
        self.lines = 0
        self.attrs = {}


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, name)
        self.ret = None
        self.blocks = {}   # label -> [Inst]
        self.order = []
        self.internal = False


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %s got %s in %s' % (x, y, ' '.join(self.t)[:200]))

    def eof(self):
        return self.i >= len(self.t)

    def type(self):
        t = self.next()
        if t == 'void':
            r = ('v',)
        elif t == 'ptr':
            r = ('p',)
        elif re.fullmatch(r'i\d+', t):
            r = ('i', int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('a', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = ('s', self.tlist('}'), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            r = ('s', self.tlist('}'), False)
        elif t[0] == '%':
            r = ('n', t)
        elif t in ('float', 'double', 'label', 'metadata', 'token', 'x86_fp80'):
            r = (t,)
        elif t == 'opaque':
            r = ('opaque',)
        else:
            raise Unsupported('type %s in %s' % (t, ' '.join(self.t)[:200]))
        # function type
        if self.peek() == '(' and False:
            pass
        return r

    def tlist(self, end):
        l = []
        if self.accept(end):
            return tuple(l)
        while True:
            l.append(self.type())
            if self.accept(end):
                return tuple(l)
            self.expect(',')

    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('l', t)
        if c == '@':
            return ('g', t)
        if c == '-' or c.isdigit():
            return ('c', int(t)) if '.' not in t else ('f', t)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if c == 'c' and t.startswith('c"'):
            return ('str', _unesc(t[2:-1]))
        if t == '[':
            l = []
            if not self.accept(']'):
                while True:
                    et = self.type()
                    l.append((et, self.value(et)))
                    if self.accept(']'):
                        break
                    self.expect(',')
            return ('agg', l)
        if t == '{' or (t == '<' and self.peek() == '{'):
            packed = t == '<'
            if packed:
                self.next()
            l = []
            if not self.accept('}'):
                while True:
                    et = self.type()
                    l.append((et, self.value(et)))
                    if self.accept('}'):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', l)
        if t == '<':
            l = []
            while True:
                et = self.type()
                l.append((et, self.value(et)))
                if self.accept('>'):
                    break
                self.expect(',')
            return ('agg', l)
        if t in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'add', 'sub', 'zext', 'icmp', 'select', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            return self.cexpr(t)
        raise Unsupported('value %s in %s' % (t, ' '.join(self.t)[:200]))

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)

    def cexpr(self, op):
        if op == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                if self.next() == 'inrange':
                    self._skip_paren()
            self.expect('(')
            ty = self.type()
            idx = []
            while self.accept(','):
                self.accept('inrange')
                idx.append(self.tv())
            self.expect(')')
            return ('gep', ty, idx)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext'):
            self.expect('(')
            t, v = self.tv()
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', op, t, v, t2)
        while self.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            self.next()
        pred = None
        if op == 'icmp':
            pred = self.next()
        self.expect('(')
        a = []
        while True:
            a.append(self.tv())
            if self.accept(')'):
                break
            self.expect(',')
        return ('cop', op, pred, a)

    def _skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned
      immarg inreg nest swiftself swifterror nofree dead_on_unwind writable noreturn nounwind'''.split())

    def attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.next()
                continue
            if t == 'align':
                self.next()
                if self.peek() == '(':
                    self._skip_paren()
                else:
                    self.next()
                continue
            if t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'range', 'elementtype', 'memory', 'initializes'):
                self.next()
                self._skip_paren()
                continue
            return


def _unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


LINK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
dso_local dso_preemptable hidden protected default local_unnamed_addr unnamed_addr thread_local externally_initialized
fastcc ccc coldcc'''.split())


def parse(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if ln.startswith('attributes #'):
            m = re.match(r'attributes #(\d+) = \{(.*)\}', ln)
            mod.attrs[m.group(1)] = set(m.group(2).split())
            continue
        if not ln or ln[0] in ';' or ln.startswith(('source_filename', 'target ', 'attributes', '!', '$', 'module asm')):
            continue
        if ln.startswith('%'):
            m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
            p = P(tokenize(m.group(2)), mod)
            mod.types[m.group(1)] = p.type()
            continue
        if ln.startswith('@'):
            _global(ln, mod)
            continue
        if ln.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
            mod.decls['@' + m.group(1)] = ln
            continue
        if ln.startswith('define'):
            j = i
            body = []
            while lines[j] != '}':
                body.append(lines[j])
                j += 1
            i = j + 1
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
            name = '@' + m.group(1)
            f = Func(name)
            f.hdr = ln
            f.body = body
            f.internal = ' internal ' in ln or ' private ' in ln
            f.parsed = False
            f.mod = mod
            mod.funcs[name] = f
            mod.lines += len(body)
            continue
        raise Unsupported('toplevel ' + ln[:100])
    return mod


def _global(ln, mod):
    m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
    name, rest = m.group(1), m.group(2)
    if name in ('@llvm.global_ctors', '@llvm.used', '@llvm.compiler.used'):
        mod.globals[name] = (None, ('raw', rest), True)
        return
    toks = tokenize(rest)
    p = P(toks, mod)
    ext = False
    while p.peek() in LINK or (p.peek() and p.peek().startswith('thread_local')):
        if p.next() in ('external', 'extern_weak'):
            ext = True
        if p.peek() == '(' and toks[p.i - 1] == 'thread_local':
            p._skip_paren()
    if p.peek() == 'alias':
        p.next()
        p.type()
        p.expect(',')
        p.expect('ptr')
        mod.aliases[name] = p.next()
        return
    cst = p.next()
    if cst not in ('global', 'constant'):
        raise Unsupported('global ' + ln[:100])
    ty = p.type()
    init = None
    if not ext and p.peek() != ',' and not p.eof():
        init = p.value(ty)
    mod.globals[name] = (ty, init, cst == 'constant')


def parse_func(f):
    if f.parsed:
        return f
    mod = f.mod
    p = P(tokenize(f.hdr), mod)
    p.expect('define')
    while True:
        t = p.peek()
        if t in LINK or t in P.ATTRS:
            p.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'align', 'range'):
            p.attrs()
        else:
            break
    f.ret = p.type()
    p.next()
    p.expect('(')
    k = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                p.expect(')')
                break
            ty = p.type()
            sret = None
            p.attrs()
            nm = p.peek()
            if nm and nm[0] == '%':
                p.next()
            else:
                nm = '%' + str(k)
            k += 1
            f.params.append((ty, nm))
            if p.accept(')'):
                break
            p.expect(',')
    lab = None
    cnt = None
    cur = None
    i = 0
    body = f.body
    # implicit entry label number = number of unnamed params
    while i < len(body):
        ln = body[i]
        i += 1
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        m = re.match(r'^("(?:[^"])*"|[-\w$.]+):', ln)
        if m and not ln.startswith(' '):
            lab = '%' + m.group(1)
            cur = f.blocks[lab] = []
            f.order.append(lab)
            continue
        if cur is None:
            lab = '%entry#'
            cur = f.blocks[lab] = []
            f.order.append(lab)
        if s.startswith('switch') or ' switch ' in s:
            while ']' not in s:
                s += ' ' + body[i].strip()
                i += 1
        elif 'landingpad' in s or s.startswith('invoke') or ' = invoke' in s or ' invoke ' in s:
            while i < len(body) and body[i].startswith('          '):
                s += ' ' + body[i].strip()
                i += 1
        cur.append(_inst(s, mod))
    f.parsed = True
    return f


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}


def _inst(s, mod):
    """returns tuple (op, dst, ...)"""
    toks = tokenize(s)
    p = P(toks, mod)
    dst = None
    if len(toks) > 1 and toks[1] == '=':
        dst = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return ('bin', dst, op, ty, a, b)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect('to')
        return ('cast', dst, op, ty, a, p.type())
    if op == 'icmp':
        while p.peek() in ('samesign',):
            p.next()
        pr = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return ('icmp', dst, pr, ty, a, b)
    if op == 'select':
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return ('select', dst, c, a, b)
    if op == 'phi':
        ty = p.type()
        l = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            l.append((p.next(), v))
            p.expect(']')
            if not p.accept(','):
                break
            if p.peek() and p.peek()[0] == '!':
                break
        return ('phi', dst, ty, dict(l))
    if op == 'load':
        vol = p.accept('volatile')
        p.accept('atomic')
        ty = p.type()
        p.expect(',')
        a = p.tv()
        rng = None
        return ('load', dst, ty, a, vol)
    if op == 'store':
        vol = p.accept('volatile')
        p.accept('atomic')
        v = p.tv()
        p.expect(',')
        a = p.tv()
        return ('store', None, v, a, vol)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        ty = p.type()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(p.tv())
        return ('gep', dst, ty, idx)
    if op == 'alloca':
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        return ('alloca', dst, ty, cnt)
    if op == 'br':
        if p.accept('label'):
            return ('jmp', None, p.next())
        c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return ('br', None, c, a, b)
    if op == 'switch':
        v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            c = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((c[1][1], p.next()))
        return ('switch', None, v, d, cases)
    if op == 'ret':
        if p.accept('void'):
            return ('ret', None, None)
        return ('ret', None, p.tv())
    if op in ('call', 'invoke'):
        while p.peek() in LINK or p.peek() in P.ATTRS or p.peek() in ('dereferenceable', 'align', 'dereferenceable_or_null', 'range'):
            if p.peek() in LINK:
                p.next()
            else:
                p.attrs()
        ty = p.type()
        # possible function type  ty (args...)
        if p.peek() == '(':
            p._skip_paren()
        if p.peek() == 'asm':
            p.next()
            side = []
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                side.append(p.next())
            a = p.next()
            p.expect(',')
            b = p.next()
            callee = ('asm', a, b)
        else:
            callee = p.value(('p',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek() == 'metadata':
                    # skip metadata argument
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        t = p.next()
                        if t == '(':
                            d += 1
                        elif t == ')':
                            d -= 1
                    args.append((('metadata',), ('undef',)))
                else:
                    args.append(p.tv())
                if p.accept(')'):
                    break
                p.expect(',')
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            n = p.next()
            p.expect('unwind')
            p.expect('label')
            u = p.next()
            return ('invoke', dst, ty, callee, args, n, u)
        return ('call', dst, ty, callee, args)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'extractvalue':
        v = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return ('extractvalue', dst, v, idx)
    if op == 'insertvalue':
        v = p.tv()
        p.expect(',')
        e = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return ('insertvalue', dst, v, e, idx)
    if op == 'freeze':
        return ('freeze', dst, p.tv())
    if op == 'landingpad':
        return ('landingpad', dst, p.type(), toks)
    if op == 'resume':
        return ('resume', None, p.tv())
    if op in ('fence',):
        return ('nop', None)
    return ('unsupported', dst, s)


def sizeof(ty, mod):
    return _sa(ty, mod)[0]


_sac = {}


def _sa(ty, mod):
    k = (ty, id(mod))
    r = _sac.get(k)
    if r is None:
        r = _sa2(ty, mod)
        _sac[k] = r
    return r


def _sa2(ty, mod):
    k = ty[0]
    if k == 'i':
        n = (ty[1] + 7) // 8
        a = 1
        while a < n and a < 16:
            a *= 2
        s = (n + a - 1) // a * a
        return s, a
    if k == 'p':
        return 8, 8
    if k == 'n':
        return _sa(mod.types[ty[1]], mod)
    if k == 'a':
        s, a = _sa(ty[2], mod)
        return s * ty[1], a
    if k == 'vec':
        s, a = _sa(ty[2], mod)
        return s * ty[1], s * ty[1]
    if k == 's':
        off = 0
        al = 1
        for e in ty[1]:
            s, a = _sa(e, mod)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        off = (off + al - 1) // al * al
        return off, al
    if k == 'double':
        return 8, 8
    if k == 'float':
        return 4, 4
    if k == 'opaque':
        return 0, 1
    if k == 'x86_fp80':
        return 16, 16
    raise Unsupported('sizeof %s' % (ty,))


def field_off(ty, idx, mod):
    if ty[0] == 'n':
        ty = mod.types[ty[1]]
    off = 0
    for j, e in enumerate(ty[1]):
        s, a = _sa(e, mod)
        if ty[2]:
            a = 1
        off = (off + a - 1) // a * a
        if j == idx:
            return off, e
        off += s
    raise Unsupported('field')


def resolve(ty, mod):
    while ty[0] == 'n':
        ty = mod.types[ty[1]]
    return ty


if __name__ == '__main__':
    import sys, time
    t0 = time.time()
    m = parse(open(sys.argv[1]).read())
    for f in m.funcs.values():
        parse_func(f)
    print(len(m.funcs), m.lines, time.time() - t0)
