"""C01..C04: base16 / base64"""
import base64
import ctypes
import random

import build
import core
import execu
import ghost
import guarded
import hashth
import irparse
import prover
import terms as t
from core import Refuted, NotProved
from execu import Exec, State, Ptr
from terms import const
from hashth import must_equal

SRC = '''
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
using namespace milo; using namespace milo::primitive;
using A = codec::apie<codec::%(alias)s<>>;
''' + ghost.GBOX.replace('%', '%%') + '''
extern "C" {
size_t h_enc(const uint8_t* s, size_t n, char* d){ return A::encode(s, n, d); }
size_t h_encsize(const uint8_t* s, size_t n){ return A::encode_size(s, n); }
size_t h_dec(const char* s, size_t n, uint8_t* d, error* e){ return A::decode(s, n, d, *e); }
size_t h_dect(const char* s, size_t n, uint8_t* d){ return A::decode(s, n, d); }
size_t h_decsize(const char* s, size_t n){ return A::decode_size(s, n); }
size_t h_fenc(const uint8_t* s, size_t n, char* d){ return codec::encode<codec::%(alias)s<>>(s, n, d); }
size_t h_fdec(const char* s, size_t n, uint8_t* d, error* e){ return codec::decode<codec::%(alias)s<>>(s, n, d, *e); }
size_t h_fdect(const char* s, size_t n, uint8_t* d){ return codec::decode<codec::%(alias)s<>>(s, n, d); }
size_t h_cenc(const gbox<uint8_t>* s, gbox<char>* d){ return codec::encode<codec::%(alias)s<>>(*s, *d); }
size_t h_cdec(const gbox<char>* s, gbox<uint8_t>* d, error* e){ return codec::decode<codec::%(alias)s<>>(*s, *d, *e); }
size_t h_cdect(const gbox<char>* s, gbox<uint8_t>* d){ return codec::decode<codec::%(alias)s<>>(*s, *d); }
size_t h_crenc(const gbox<uint8_t>* s, gbox<char>* d){ *d = codec::encode<codec::%(alias)s<>, gbox<char>>(*s); return d->n; }
size_t h_tcuenc(const char* s, size_t n, uint8_t* d){ return codec::encode<codec::%(alias)s<>>(s, n, d); }
size_t h_tssenc(const signed char* s, size_t n, signed char* d){ return codec::encode<codec::%(alias)s<>>(s, n, d); }
size_t h_tucdec(const uint8_t* s, size_t n, char* d, error* e){ return codec::decode<codec::%(alias)s<>>(s, n, d, *e); }
size_t h_tucdect(const uint8_t* s, size_t n, char* d){ return codec::decode<codec::%(alias)s<>>(s, n, d); }
size_t h_tssdec(const signed char* s, size_t n, signed char* d, error* e){ return codec::decode<codec::%(alias)s<>>(s, n, d, *e); }
size_t h_c2enc(const gbox<char>* s, gbox<uint8_t>* d){ return codec::encode<codec::%(alias)s<>>(*s, *d); }
size_t h_c2dec(const gbox<uint8_t>* s, gbox<char>* d, error* e){ return codec::decode<codec::%(alias)s<>>(*s, *d, *e); }
size_t h_encsizec(const char* s, size_t n){ return A::encode_size(s, n); }
size_t h_encsizes(const signed char* s, size_t n){ return A::encode_size(s, n); }
size_t h_decsizeu(const uint8_t* s, size_t n){ return A::decode_size(s, n); }
size_t h_decsizes(const signed char* s, size_t n){ return A::decode_size(s, n); }
size_t h_crdect(const gbox<char>* s, gbox<uint8_t>* d){ *d = codec::decode<codec::%(alias)s<>, gbox<uint8_t>>(*s); return d->n; }
size_t h_errsize(){ return sizeof(error); }
int h_code16(){ return error::codec_base_16_decode; }
int h_code64(){ return error::codec_base_64_decode; }
}'''

NMAX = 1 << 54
DECSIZE = ('@h_decsize', '@h_decsizeu', '@h_decsizes')


def X(o):
    return t.app('in', 8, (o,))


def rng(c, lo, hi):
    return t.and_(t.not_(t.ult(c, const(lo, 8))), t.not_(t.ult(const(hi, 8), c)))


def hexchar(v):
    """character for a nibble value (8 bit term < 16)"""
    return t.ite(t.ult(v, const(10, 8)), t.add(v, const(0x30, 8)), t.add(v, const(0x57, 8)))


def hexval(c):
    """(valid, value) of a character"""
    d, u, l = rng(c, 0x30, 0x39), rng(c, 0x41, 0x46), rng(c, 0x61, 0x66)
    v = t.ite(d, t.sub(c, const(0x30, 8)), t.ite(u, t.sub(c, const(0x37, 8)), t.sub(c, const(0x57, 8))))
    return t.or_(d, t.or_(u, l)), v


def b64char(v):
    """character of a 6 bit value (8 bit term)"""
    k = lambda x: const(x, 8)
    return t.ite(t.ult(v, k(26)), t.add(v, k(0x41)), t.ite(t.ult(v, k(52)), t.add(v, k(0x47)), t.ite(
        t.ult(v, k(62)), t.sub(v, k(4)), t.ite(t.eq(v, k(62)), k(0x2b), k(0x2f)))))


def b64val(c):
    k = lambda x: const(x, 8)
    U, L, D = rng(c, 0x41, 0x5a), rng(c, 0x61, 0x7a), rng(c, 0x30, 0x39)
    v = t.ite(U, t.sub(c, k(0x41)), t.ite(L, t.sub(c, k(0x47)), t.ite(D, t.add(c, k(4)), t.ite(t.eq(c, k(0x2b)), k(62), k(63)))))
    ok = t.or_(U, t.or_(L, t.or_(D, t.or_(t.eq(c, k(0x2b)), t.eq(c, k(0x2f))))))
    return ok, v


def u8(x):
    return t.slc(x, 0, 8)


def reads(x, out=None):
    """offsets of the input read in a term"""
    return [l.a[2] for l in t.leaves(x) if l.op == 'app' and l.a[0] == 'in']


def selftest():
    n = 0
    for c in range(256):
        ok, v = hexval(const(c, 8))
        want = chr(c) in '0123456789abcdefABCDEF'
        assert (ok.a[0] == 1) == want
        if want:
            assert v.a[0] == int(chr(c), 16)
        ok, v = b64val(const(c, 8))
        al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
        assert (ok.a[0] == 1) == (chr(c) in al)
        if chr(c) in al:
            assert v.a[0] == al.index(chr(c)) and b64char(v).a[0] == c
        n += 2
    for v in range(16):
        assert chr(hexchar(const(v, 8)).a[0]) == '%x' % v
    return n


def inst(st, targets):
    """instances of the loop facts of a path at every iteration that reads one of the target input offsets; plus the path condition"""
    out = list(st.pc)
    for kvar, bound, facts in st.facts:
        for f in facts:
            for r in reads(f):
                lin = dict(r.a[1]) if r.op == '+' else {r: 1}
                if kvar not in lin:
                    continue
                a = t.sgn(lin[kvar], 64)
                if a <= 0:
                    continue
                b = t.sub(r, t.mulc(kvar, a))
                for o in targets:
                    j = t.udiv(t.sub(o, b), const(a, 64))
                    jj = t.subst(r, {kvar: j})
                    if jj is not o:
                        continue
                    g = t.or_(t.not_(t.ult(j, bound)), t.subst(f, {kvar: j}))
                    if g not in out:
                        out.append(g)
    return out


def out_byte(ex, st, obj, off):
    ex.cur = st
    return ex.byte(st, Ptr(obj, off))


def outcome(ex, sts):
    r = []
    for s in sts:
        if s.pc and hashth.infeasible_pc(s):
            continue
        r.append(s)
    if not r:
        raise NotProved('vacuous')
    return r


def need(ex, hyps, c, what):
    ex.oblig += 1
    r = prover.valid(c, hyps)
    if r is True:
        return
    if r is False:
        ce = prover.counterexample(c, hyps)
        raise Refuted(what, ce and {t.show(k, 2): v for k, v in list(ce.items())[:30]})
    raise NotProved(what)


# ------------------------------------------------------------------ ghost container and error plumbing

def mkex(mod):
    ex = Exec(mod)
    ex.hooks['@ghost_resize'] = ghost.resize_hook
    return ex


def cval(mod, f):
    return Exec(mod).run_function(State(), f, [])[0].out[1].a[0]


def run_decode(mod, form, content, n, cap, size_pc=None):
    """-> executor, [(state, error code term or None, returned size or None, output object)]"""
    ex = mkex(mod)
    st = State()
    if size_pc:
        size_pc(st)
    s = st.new('src', n, base=content, writable=False)
    es = cval(mod, '@h_errsize')
    e = st.new('err', es)
    d = st.new('dst', cap)
    code16 = form
    if form[2] != 'c' and form.endswith('dec'):
        outs = ex.run_function(st, '@' + form, [s, n, d, e])
    elif form[2] != 'c':
        outs = ex.run_function(st, '@' + form, [s, n, d])
    else:
        sb = ghost.box(ex, st, 'sbox', s, n)
        db = ghost.box(ex, st, 'dbox', None, const(0, 64))
        outs = ex.run_function(st, '@' + form, [sb, db] + ([e] if form.endswith('dec') else []))
    res = []
    for x in outcome(ex, outs):
        ex.cur = x
        obj = 'grown' if form[2] == 'c' else 'dst'
        if form[2] == 'c':
            rs = [v[1] for v in x.events if v[0] == 'resize']
            if not rs:
                raise Refuted('%s: the output container is never sized' % form)
            must_equal(ex, x, rs[0], cap, '%s: container capacity requested before decoding' % form)
            if any(v[0] == 'grow' for v in x.events):
                raise Refuted('%s: the container is resized beyond decode_size' % form)
        if x.out[0] == 'throw':
            if form[-1] != 't':
                raise Refuted('%s (noexcept form) throws' % form)
            ev = thrown(ex, x)
            res.append((x, ev, None, obj))
        elif x.out[0] == 'ret':
            err = ex.load(x, Ptr('err', const(0, 64)), 4) if form[-1] != 't' else const(0, 32)
            if form[2] == 'c':
                must_equal(ex, x, rs[-1], x.out[1], '%s: final container size' % form)
            res.append((x, err, x.out[1], obj))
        else:
            raise Refuted('%s ends in %s' % (form, x.out), pc=x.pc)
    return ex, res


def thrown(ex, x):
    p = x.out[1]
    if not isinstance(p, Ptr):
        raise NotProved('thrown value')
    return ex.load(x, p, 4)


# ------------------------------------------------------------------ encode

def enc(mod, alias, form, r):
    per_in, per_out = (1, 2) if alias == 'base_16' else (3, 4)
    q = t.var('q', 64, 0, NMAX)
    n = t.add(t.mulc(q, per_in), const(r, 64))
    want = t.add(t.mulc(q, per_out), const(per_out if r else 0, 64))
    ex = mkex(mod)
    st = State()
    s = st.new('src', n, base=X, writable=False)
    z = [y for f in ('@h_encsize', '@h_encsizec', '@h_encsizes') for y in ex.run_function(st.fork(), f, [s, n])]
    for y in outcome(ex, z):
        must_equal(ex, y, y.out[1], want, 'encode_size')
    if form[2] == 'c':
        sb = ghost.box(ex, st, 'sbox', s, n)
        db = ghost.box(ex, st, 'dbox', None, const(0, 64))
        outs = ex.run_function(st, '@' + form, [sb, db])
        obj = 'grown'
    else:
        outs = ex.run_function(st, '@' + form, [s, n, st.new('dst', want)])
        obj = 'dst'
    k = lambda v: const(v, 8)
    for y in outcome(ex, outs):
        if y.out[0] != 'ret':
            raise Refuted('encode ends in %s' % (y.out,), pc=y.pc)
        must_equal(ex, y, y.out[1], want, 'encode return value')
        if form[2] == 'c':
            rs = [v[1] for v in y.events if v[0] == 'resize']
            for v in rs:
                must_equal(ex, y, v, want, 'container size')
        if y.pc:
            ex.cur = y
        g = y.fork()
        i = t.var('i', 64, 0, NMAX)
        g.assume(t.ult(i, q))
        hyp = g.pc
        src = [X(t.add(t.mulc(i, per_in), const(c, 64))) for c in range(per_in)]
        for c in range(per_out):
            v = out_byte(ex, g, obj, t.add(t.mulc(i, per_out), const(c, 64)))
            need(ex, hyp, t.eq(v, text(alias, src, c)), 'character %d of group i (of q full groups)' % c)
        if r:
            src = [X(t.add(t.mulc(q, per_in), const(c, 64))) for c in range(r)]
            for c in range(per_out):
                v = out_byte(ex, y, obj, t.add(t.mulc(q, per_out), const(c, 64)))
                need(ex, y.pc, t.eq(v, text(alias, src, c)), 'character %d of the final group of %d bytes' % (c, r))
    return {}


def text(alias, src, c):
    k = lambda v: const(v, 8)
    if alias == 'base_16':
        return hexchar(t.lshr(src[0], k(4)) if c == 0 else t.and_(src[0], k(15)))
    s = list(src)
    if c >= len(s) + 1:
        return k(0x3d)
    s += [k(0)] * (3 - len(s))
    v = t.cat([s[2], s[1], s[0]])    # low part first
    return b64char(t.zext(t.slc(v, 18 - 6 * c, 6), 8))


# ------------------------------------------------------------------ decode

def dec16(mod, form, odd):
    q = t.var('q', 64, 0, NMAX)
    n = t.add(t.mulc(q, 2), const(odd, 64))
    total = t.add(q, const(odd, 64))
    code = const(cval(mod, '@h_code16'), 32)
    sizes(mod, X, n, total)
    ex, res = run_decode(mod, form, X, n, total)
    kinds = set()
    for x, err, ret, obj in res:
        e = cclass(ex, x, err, code)
        kinds.add(e)
        if e == 'ok':
            if ret is None:
                raise Refuted('throws without an error')
            must_equal(ex, x, ret, total, 'returned size on success')
            r = total
        else:
            badwitness(ex, x, n, lambda o: hexval(X(o))[0], 'base16 decode reports an error although every character examined is a hex digit')
            if ret is None:
                continue
            r = ret
            need(ex, inst(x, []), t.not_(t.ult(total, r)), 'returned size on error exceeds decode_size')
        # first byte for odd
        if odd:
            h = x.fork()
            if h.assume(t.ult(const(0, 64), r)) and not hashth.infeasible_pc(h):
                ok, v = hexval(X(const(0, 64)))
                hy = inst(h, [const(0, 64)])
                need(ex, hy, ok, 'the first (odd) character of an accepted prefix is a hex digit')
                need(ex, hy, t.eq(out_byte(ex, h, obj, const(0, 64)), v), 'byte 0 of odd length text')
        i = t.var('i', 64, odd, NMAX)
        h = x.fork()
        if not h.assume(t.ult(i, r)) or hashth.infeasible_pc(h):
            continue
        base = t.sub(t.mulc(i, 2), const(odd, 64))
        o1, o2 = base, t.add(base, const(1, 64))
        (k1, v1), (k2, v2) = hexval(X(o1)), hexval(X(o2))
        hy = inst(h, [o1, o2])
        need(ex, hy, t.and_(k1, k2), 'both characters of byte i of an accepted prefix are hex digits')
        need(ex, hy, t.eq(out_byte(ex, h, obj, i), t.or_(t.shlc(v1, 4) if hasattr(t, 'shlc') else t.mulc(v1, 16), v2)), 'value of decoded byte i')
    if kinds != {'ok', 'err'} and not (form == '' ):
        raise Refuted('base16 decode never %s' % ('fails' if 'ok' in kinds else 'succeeds'))
    return {}


def sizes(mod, content, n, total):
    ex = mkex(mod)
    st = State()
    s = st.new('src', n, base=content, writable=False)
    for y in outcome(ex, [z for f in DECSIZE for z in ex.run_function(st.fork(), f, [s, n])]):
        must_equal(ex, y, y.out[1], total, 'decode_size')


def cclass(ex, x, err, code):
    if err.op != 'c':
        if prover.valid(t.eq(err, const(0, 32)), x.pc) is True:
            return 'ok'
        if prover.valid(t.eq(err, code), x.pc) is True:
            return 'err'
        raise NotProved('error code')
    if err.a[0] == 0:
        return 'ok'
    if err.a[0] != code.a[0]:
        raise Refuted('error code %d instead of %d' % (err.a[0], code.a[0]))
    return 'err'


def badwitness(ex, x, n, ok, what, extra=None):
    """some character read on this path is invalid"""
    rs = []
    for c in x.pc:
        for r in reads(c):
            if r not in rs:
                rs.append(r)
    if extra is not None:
        bad = extra
    else:
        bad = const(0, 1)
    for r in rs:
        bad = t.or_(bad, t.and_(t.not_(ok(r)), t.ult(r, n)))
    need(ex, x.pc, bad, what)


def roundtrip16(mod, form):
    nib = lambda o: t.app('nib', 8, (o,), 15)
    content = lambda o: hexchar(nib(o))
    n = t.var('n', 64, 0, NMAX)
    ex, res = run_decode(mod, form, content, t.mulc(n, 2), n)
    for x, err, ret, obj in res:
        if err.op != 'c' or err.a[0] != 0:
            raise Refuted('decoding an encoded text reports an error', None)
        must_equal(ex, x, ret, n, 'size of the decoded text')
        i = t.var('i', 64, 0, NMAX)
        h = x.fork()
        h.assume(t.ult(i, n))
        o = t.mulc(i, 2)
        need(ex, h.pc, t.eq(out_byte(ex, h, obj, i), t.add(t.mulc(nib(o), 16), nib(t.add(o, const(1, 64))))), 'decoded byte i of an encoded text')
    return {}


def dec64(mod, form, case, roundtrip=False):
    """case: 'r1' 'r2' 'r3' (length not a multiple of 4), 'empty', 'p0' 'p1' 'p2' (number of final '=')"""
    code = const(cval(mod, '@h_code64'), 32)
    m = t.var('m', 64, 0, NMAX)
    six = lambda o: t.zext(t.app('six', 6, (o,)), 8)
    plain = (lambda o: b64char(six(o))) if roundtrip else X
    pre = None
    p = 0
    if case[0] == 'r':
        n = t.add(t.mulc(m, 4), const(int(case[1]), 64))
        content = plain
        total = None
    elif case == 'empty':
        n = const(0, 64)
        content = plain
        total = n
    else:
        p = int(case[1])
        n = t.add(t.mulc(m, 4), const(4, 64))
        total = t.add(t.mulc(m, 3), const(3 - p, 64))

        def content(o):
            d = t.sub(o, n)
            if d.op == 'c':
                if (1 << 64) - p <= d.a[0]:
                    return const(0x3d, 8)
                if roundtrip and p and d.a[0] == (1 << 64) - p - 1:
                    # encoders leave the unused low bits of the last character zero
                    return b64char(t.and_(six(o), const(0x30 if p == 2 else 0x3c, 8)))
                return plain(o)
            r = plain(o)
            for j in range(1, p + 1):
                r = t.ite(t.eq(o, t.sub(n, const(j, 64))), const(0x3d, 8), r)
            return r
        if p < 2 and not roundtrip:
            def pre(st):
                # with one '=' the character before it is not '='; with none the last is not '='
                st.assume(t.not_(t.eq(X(t.sub(n, const(p + 1, 64))), const(0x3d, 8))))
    # decode_size
    ex0 = mkex(mod)
    st0 = State()
    if pre:
        pre(st0)
    s0 = st0.new('src', n, base=content, writable=False)
    zs = outcome(ex0, [z for f in DECSIZE for z in ex0.run_function(st0.fork(), f, [s0, n])])
    if total is not None:
        for y in zs:
            must_equal(ex0, y, y.out[1], total, 'decode_size')
        runs = [(total, pre)]
    else:
        runs = []
        seen = set()
        for y in zs:
            if (y.out[1], tuple(y.pc)) in seen:
                continue
            seen.add((y.out[1], tuple(y.pc)))
            runs.append((y.out[1], lambda st, y=y: [st.assume(c) for c in y.pc]))
    for cap, pc in runs:
        ex, res = run_decode(mod, form, content, n, cap, pc)
        for x, err, ret, obj in res:
            e = cclass(ex, x, err, code)
            if roundtrip and e != 'ok':
                raise Refuted('decoding an encoded text reports an error')
            if case[0] == 'r' and e == 'ok':
                raise Refuted('text whose length is not a multiple of 4 is accepted')
            if case == 'empty':
                if e != 'ok':
                    raise Refuted('empty text is rejected')
                must_equal(ex, x, ret, const(0, 64), 'size of the empty text')
                continue
            last = False
            if e == 'ok':
                if ret is None:
                    raise Refuted('throws without an error')
                must_equal(ex, x, ret, total, 'returned size on success')
                g = m
                last = True
            elif ret is None:
                g = None
            else:
                g = t.udiv(ret, const(3, 64))
                must_equal(ex, x, t.mulc(g, 3), ret, 'bytes returned on error are whole groups')
                need(ex, inst(x, []), t.not_(t.ult(cap, ret)), 'returned size on error exceeds decode_size')
                if case[0] != 'r':
                    need(ex, inst(x, []), t.not_(t.ult(m, g)), 'more groups reported than the text has')
            if e == 'err' and case[0] != 'r':
                rs = []
                for c in x.pc:
                    for r in reads(c):
                        if r not in rs:
                            rs.append(r)
                bad = const(0, 1)
                for r in rs:
                    c = t.and_(t.not_(b64val(X(r))[0]), t.ult(r, n))
                    if g is not None:
                        d = t.sub(r, t.mulc(g, 4))
                        c = t.and_(c, t.ult(d, const(4, 64)))
                    bad = t.or_(bad, c)
                need(ex, x.pc, bad, 'base64 decode reports an error although every character of the group is valid')
            if g is not None:
                i = t.var('i', 64, 0, NMAX)
                h = x.fork()
                if h.assume(t.ult(i, g)) and not hashth.infeasible_pc(h):
                    offs = [t.add(t.mulc(i, 4), const(c, 64)) for c in range(4)]
                    vs = [b64val(content(o)) if not roundtrip else (const(1, 1), six(o)) for o in offs]
                    hy = inst(h, offs)
                    for c in range(4):
                        need(ex, hy, vs[c][0], 'character %d of group i of an accepted prefix is in the alphabet' % c)
                    for c in range(3):
                        need(ex, hy, t.eq(out_byte(ex, h, obj, t.add(t.mulc(i, 3), const(c, 64))), val64(vs, c)), 'decoded byte %d of group i' % c)
            if last:
                offs = [t.add(t.mulc(m, 4), const(c, 64)) for c in range(4 - p)]
                vs = [b64val(content(o)) if not roundtrip else (const(1, 1), six(o)) for o in offs]
                if roundtrip and p:
                    vs[-1] = (vs[-1][0], t.and_(vs[-1][1], const(0x30 if p == 2 else 0x3c, 8)))
                hy = inst(x, offs)
                for c in range(4 - p):
                    need(ex, hy, vs[c][0], 'character %d of the final group is in the alphabet' % c)
                for c in range(3 - p):
                    need(ex, hy, t.eq(out_byte(ex, x, obj, t.add(t.mulc(m, 3), const(c, 64))), val64(vs, c)), 'decoded byte %d of the final group' % c)
    return {}


def val64(vs, c):
    v = [x[1] for x in vs] + [const(0, 8)] * (4 - len(vs))
    w = t.cat([t.slc(v[3], 0, 6), t.slc(v[2], 0, 6), t.slc(v[1], 0, 6), t.slc(v[0], 0, 6)])
    return t.slc(w, 16 - 8 * c, 8)


# ------------------------------------------------------------------ concrete

NSRC = '''
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <vector>
using namespace milo; using namespace milo::primitive;
#define D(N, A) \\
extern "C" size_t N##_enc(const uint8_t* s, size_t n, char* d){ return codec::encode<A>(s, n, d); } \\
extern "C" size_t N##_encsize(const uint8_t* s, size_t n){ return codec::apie<A>::encode_size(s, n); } \\
extern "C" size_t N##_decsize(const char* s, size_t n){ return codec::apie<A>::decode_size(s, n); } \\
extern "C" size_t N##_dec(const char* s, size_t n, uint8_t* d, int* e){ error r; size_t k = codec::decode<A>(s, n, d, r); *e = (bool)r ? (int)static_cast<error::code>(r) : 0; return k; } \\
extern "C" size_t N##_dect(const char* s, size_t n, uint8_t* d, int* e){ *e = 0; try { return codec::decode<A>(s, n, d); } catch (const error& r) { *e = (int)static_cast<error::code>(r); } return 0; } \\
extern "C" size_t N##_decv(const char* s, size_t n, uint8_t* d, int* e){ std::vector<char> v(s, s+n); std::vector<uint8_t> o(3, 7); error r; size_t k = codec::decode<A>(v, o, r); *e = (int)static_cast<error::code>(r); if (k != o.size()) *e = -5; for (size_t i=0;i<o.size();i++) d[i]=o[i]; return k; } \\
extern "C" size_t N##_decr(const char* s, size_t n, uint8_t* d, int* e){ std::vector<char> v(s, s+n); *e = 0; try { auto o = codec::decode<A>(v); for (size_t i=0;i<o.size();i++) d[i]=o[i]; return o.size(); } catch (const error& r) { *e = (int)static_cast<error::code>(r); } return 0; } \\
extern "C" size_t N##_encr(const uint8_t* s, size_t n, char* d){ std::vector<uint8_t> v(s, s+n); auto o = codec::encode<A, std::vector<char>>(v); for (size_t i=0;i<o.size();i++) d[i]=o[i]; return o.size(); }
#define D2(N, A) \\
extern "C" size_t N##_encc(const char* s, size_t n, uint8_t* d){ return codec::encode<A>(s, n, d); } \\
extern "C" size_t N##_encs(const signed char* s, size_t n, signed char* d){ return codec::encode<A>(s, n, d); } \\
extern "C" size_t N##_decu(const uint8_t* s, size_t n, char* d, int* e){ error r; size_t k = codec::decode<A>(s, n, d, r); *e = (bool)r ? (int)static_cast<error::code>(r) : 0; return k; } \\
extern "C" size_t N##_decs(const signed char* s, size_t n, signed char* d, int* e){ error r; size_t k = codec::decode<A>(s, n, d, r); *e = (bool)r ? (int)static_cast<error::code>(r) : 0; return k; }
D2(b16, codec::base_16<>)
D2(b64, codec::base_64<>)
D(b16, codec::base_16<>)
D(b64, codec::base_64<>)
'''

AL64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def ref16(s):
    """(error, bytes or decoded prefix)"""
    out = bytearray()
    i = 0
    if len(s) % 2:
        s = b'0' + s
    hexd = b'0123456789abcdefABCDEF'
    while i < len(s):
        if s[i] not in hexd or s[i + 1] not in hexd:
            return True, bytes(out)
        out.append(int(s[i:i + 2], 16))
        i += 2
    return False, bytes(out)


def ref64(s):
    if len(s) % 4:
        return True, b''
    out = bytearray()
    for g in range(0, len(s), 4):
        c = s[g:g + 4]
        last = g + 4 == len(s)
        p = 0
        if last:
            p = 2 if c[2:] == b'==' else 1 if c[3:] == b'=' else 0
        if any(x not in AL64 for x in c[:4 - p]):
            return True, bytes(out)
        v = 0
        for x in c:
            v = v * 64 + (AL64.index(x) if x in AL64 else 0)
        out += v.to_bytes(3, 'big')[:3 - p]
    return False, bytes(out)


def diff(chk, pid):
    lib = ctypes.CDLL(build.native(NSRC, 'codec_' + pid))
    nm = 'b16' if pid in ('C01', 'C02') else 'b64'
    ref = ref16 if nm == 'b16' else ref64
    code = 6 if nm == 'b16' else 4
    fns = {f: getattr(lib, '%s_%s' % (nm, f)) for f in ('enc', 'encsize', 'decsize', 'dec', 'dect', 'decv', 'decr', 'encr', 'encc', 'encs', 'decu', 'decs')}
    for f in fns.values():
        f.restype = ctypes.c_size_t
    Z = ctypes.c_size_t
    rnd = random.Random(core.SEED)
    fails = []
    n = 0
    mult = 10 if core.TIER == 'thorough' else 1

    def encode(x, f='enc'):
        buf = ctypes.create_string_buffer(bytes([0xa7]) * (len(x) * 2 + 100), len(x) * 2 + 100)
        r = fns[f](x, Z(len(x)), buf)
        return r, buf.raw

    def decode(s, f):
        buf = ctypes.create_string_buffer(bytes([0xa7]) * (len(s) + 100), len(s) + 100)
        e = ctypes.c_int(0)
        r = fns[f](s, Z(len(s)), buf, ctypes.byref(e))
        return r, e.value, buf.raw

    if pid in ('C01', 'C03'):
        cases = [bytes([c]) for c in range(256)] + [bytes([a, 255 - a]) for a in range(256)] + [b'']
        cases += [rnd.randbytes(k) for k in range(0, 300)] + [rnd.randbytes(rnd.randrange(5000)) for _ in range(60 * mult)]
        for x in cases:
            want = x.hex().encode() if nm == 'b16' else base64.b64encode(x)
            for f in ('enc', 'encr', 'encc', 'encs'):
                r, buf = encode(x, f)
                n += 1
                if r != len(want) or buf[:r] != want or buf[r:] != bytes([0xa7]) * (len(buf) - r) or fns['encsize'](x, Z(len(x))) != r:
                    fails.append({'codec': nm, 'call': 'encode ' + f, 'bytes': x.hex()[:200], 'returned': r, 'text': repr(buf[:min(r, 200)]), 'expected': repr(want[:200])})
            for f in ('dec', 'dect', 'decv', 'decr', 'decu', 'decs'):
                r, e, buf = decode(want, f)
                if e or r != len(x) or buf[:r] != x or buf[r:] != bytes([0xa7]) * (len(buf) - r) or fns['decsize'](want, Z(len(want))) != r:
                    fails.append({'codec': nm, 'call': 'decode of the encoding ' + f, 'text': repr(want[:200]), 'error': e, 'bytes': buf[:min(r, 100)].hex(), 'expected': x.hex()[:200]})
            if len(fails) > 3:
                break
    else:
        al = (b'0123456789abcdefABCDEF' if nm == 'b16' else AL64)
        cases = [b'']
        for ln in range(1, 14):
            base = bytes(rnd.choice(al) for _ in range(ln))
            cases.append(base)
            for pos in range(ln):
                for c in range(256):
                    cases.append(base[:pos] + bytes([c]) + base[pos + 1:])
        for ln in (4, 8, 12):
            for k in range(3000 * mult):
                cases.append(bytes(rnd.choice(al + b'====') for _ in range(ln - 4)) + bytes(rnd.choice(al + b'=' * 30 + b'\xff\x80 ') for _ in range(4)))
        for _ in range(1500 * mult):
            ln = rnd.randrange(0, 200)
            s = bytearray(rnd.choice(al) for _ in range(ln))
            for _ in range(rnd.randrange(0, 3)):
                if s:
                    s[rnd.randrange(ln)] = rnd.randrange(256)
            cases.append(bytes(s))
        for s in cases:
            bad, pre = ref(s)
            cap = fns['decsize'](s, Z(len(s)))
            for f in ('dec', 'dect') if n % 7 else ('dec', 'dect', 'decv', 'decr', 'decu', 'decs'):
                r, e, buf = decode(s, f)
                n += 1
                ok = e == (code if bad else 0)
                if not bad:
                    ok = ok and r == len(pre) == cap and buf[:r] == pre and buf[r:] == bytes([0xa7]) * (len(buf) - r)
                elif ok:
                    if f in ('dec', 'decv', 'decu', 'decs'):
                        ok = r <= len(pre) and buf[:r] == pre[:r] and (nm == 'b16' or r == len(pre))
                    ok = ok and buf[cap:] == bytes([0xa7]) * (len(buf) - cap)
                if not ok:
                    fails.append({'codec': nm, 'call': 'decode ' + f, 'text': repr(s), 'error': e, 'returned': r, 'bytes': buf[:60].hex(), 'expected': ('error %d after ' % code if bad else '') + pre.hex()})
            if len(fails) > 3:
                break
    n, fails = guarded.merge(n, fails, guarded.codec(lib, nm, pid in ('C01', 'C03'), ref))
    return n, fails, 'real library (g++ -O2) against python hex/base64 and a reference decoder; buffers between unreadable pages'


ASSUME = ['text and byte lengths below 2^56; the output buffer holds encode_size / decode_size bytes and does not overlap the input',
          'a dynamic container follows the ghost contract of resize/data/size (irvc hook ghost_resize); static containers are at least that large']
TRUST = ['irvc IR semantics and loop rule', 'irvc term normaliser', 'z3', 'clang++-18 / opt-18', 'reference tables in c_codecs.py (self-tested against int(.,16), the RFC 4648 alphabet)']


def lemma(mod):
    selftest()
    return 1


def add(chk, pid, consteval=False, tag='', forms=None):
    alias = 'base_16' if pid in ('C01', 'C02') else 'base_64'
    try:
        mod = irparse.parse(build.ir(SRC % dict(alias=alias), consteval=consteval))
    except Exception as e:
        chk.fail_early('ir' + tag, repr(e)[:500])
        return
    tag = (' ' + pid if consteval else '') + tag
    for form in ('h_enc', 'h_fenc', 'h_cenc', 'h_crenc', 'h_tcuenc', 'h_tssenc', 'h_c2enc') if pid in ('C01', 'C03') else ():
        for r in range(1 if pid == 'C01' else 3):
            chk.ob('%s tail %d%s' % (form, r, tag), enc, mod, alias, form, r)
    for form in forms or ('h_dec', 'h_fdec', 'h_dect', 'h_fdect', 'h_cdec', 'h_cdect', 'h_crdect', 'h_tucdec', 'h_tucdect', 'h_tssdec', 'h_c2dec'):
        if pid == 'C01':
            chk.ob('%s of an encoded text%s' % (form, tag), roundtrip16, mod, form)
        elif pid == 'C02':
            for odd in (0, 1):
                chk.ob('%s length %s%s' % (form, 'odd' if odd else 'even', tag), dec16, mod, form, odd)
        elif pid == 'C03':
            for c in ('empty', 'p0', 'p1', 'p2'):
                chk.ob('%s of an encoded text %s%s' % (form, c, tag), dec64, mod, form, c, True)
        else:
            for c in ('empty', 'p0', 'p1', 'p2', 'r1', 'r2', 'r3'):
                chk.ob('%s %s%s' % (form, c, tag), dec64, mod, form, c)


def main(pid):
    chk = core.Check(pid, assumptions=ASSUME, trusted=TRUST)
    chk.extra['spec_selftest_cases'] = selftest()
    add(chk, pid)
    chk.differential('codec', diff, pid)
    return chk.finish()
