"""M03: key and IV material of any length (poly_1305, chacha_20)"""
import build
import c_ciphers
import c_poly
import core
import hashth
import irparse
import terms as t
from core import NotProved
from execu import Exec, State
from terms import const

ESRC = '''
extern "C" {
void e_ctor(C* o, const uint8_t* k, size_t kn%(va)s){ new (o) C(k, kn%(vb)s); }
void e_initc(C* o, const char* k, size_t kn%(vc)s){ o->initialize(k, kn%(vb)s); }
void e_initb(C* o, const gbox<uint8_t>* k%(vd)s){ o->initialize(*k%(ve)s); }
void e_ctorb(C* o, const gbox<uint8_t>* k%(vd)s){ new (o) C(*k%(ve)s); }
}'''


def esrc(iv):
    return (ESRC.replace('void e_ctor(', '// ') if iv else ESRC) % (dict(va=', const uint8_t* v, size_t vn', vb=', v, vn', vc=', const char* v, size_t vn', vd=', const gbox<uint8_t>* v', ve=', *v') if iv else
                   dict(va='', vb='', vc='', vd='', ve=''))


def size_term(n, nominal, name):
    """None: any length from the nominal one up"""
    return t.var(name, 64, nominal, (1 << 57)) if n is None else const(n, 64)


def padded(f, n):
    return lambda o: (f(o) if n is None or (o.op == 'c' and o.a[0] < n) else const(0, 8))


def one(mod, f, kn, vn, iv):
    """f(key of kn bytes[, iv of vn bytes]) leaves the object as initialize(padded or truncated to the nominal size)"""
    import ghost
    ex = Exec(mod)
    st = State()
    sz = hashth.const_ret(mod, '@h_sizeof')
    o1, o2 = st.new('obj', sz), st.new('ref', sz)
    KN = size_term(kn, 32, 'kn')
    VN = size_term(vn, 16, 'vn')
    K = st.new('k1', KN, base=c_poly.KEYB, writable=False)
    V = st.new('v1', VN, base=c_ciphers.IVB, writable=False)
    K2 = st.new('k2', const(32, 64), base=padded(c_poly.KEYB, kn), writable=False)
    V2 = st.new('v2', const(16, 64), base=padded(c_ciphers.IVB, vn), writable=False)
    if f in ('@e_initb', '@e_ctorb'):
        args = [o1, ghost.box(ex, st, 'kb', K, KN)] + ([ghost.box(ex, st, 'vb', V, VN)] if iv else [])
    else:
        args = [o1, K, KN] + ([V, VN] if iv else [])
    sts = hashth.paths(ex, [st], f, args)
    sts = hashth.paths(ex, sts, '@h_init', [o2, K2, const(32, 64)] + ([V2, const(16, 64)] if iv else []))
    if not sts:
        raise NotProved('vacuous')
    c = 0
    for x in sts:
        c += hashth.compare_objects(ex, x, 'ref', 'obj', sz, '%s with a key of %s bytes%s' % (f, kn, ' and an iv of %s bytes' % vn if iv else ''))
    if c < (48 if iv else 60):
        raise NotProved('vacuous: %d bytes determined' % c)
    return c


def many(mod, fs, kns, vns, iv):
    n = 0
    for f in fs:
        for k in kns:
            for v in vns:
                n += one(mod, f, k, v, iv)
    return {'obligations': n}


def main(pid):
    chk = core.Check(pid, assumptions=['key and IV buffers below 2^57 bytes, disjoint from the object'] , trusted=c_poly.TRUST)
    try:
        pm = irparse.parse(build.ir(c_poly.SRC % dict(cls='mac::poly_1305<>') + esrc(False), noinline=c_poly.LEAFFN))
        for i in range(0, 33, 8):
            r = [x if x < 32 else None for x in range(i, min(33, i + 8))]
            chk.ob('poly_1305 keys of %s bytes' % ('%d..%d' % (i, i + 7) if i < 32 else '32 and more'), many, pm, ['@h_init', '@e_initc', '@e_ctor', '@e_initb', '@e_ctorb'], r, [None], False)
    except Exception as e:
        chk.fail_early('ir poly_1305', repr(e)[:600])
    for nm, opt in (('default', ''), ('sw', 'option::impl_enforce<detail::cipher_chacha_impl_sw_ietf>'),
                    ('ssse3', 'option::impl_enforce<detail::cipher_chacha_impl_hw_x86_64_ssse_3_ietf>'), ('avx2', 'option::impl_enforce<detail::cipher_chacha_impl_hw_x86_64_avx_2_ietf>')):
        try:
            cm = irparse.parse(build.ir(c_ciphers.SRC % dict(opt=opt) + esrc(True), noinline='cipher_chacha_impl_sw\\w*(transform|generate)'))
        except Exception as e:
            chk.fail_early('ir chacha_20 ' + nm, repr(e)[:600])
            continue
        ks = [None] + list(range(32))
        vs = [None] + list(range(16))
        if nm == 'default':
            for i in range(0, 33, 3):
                chk.ob('chacha_20 keys of %s bytes, every iv length' % ks[i:i + 3], many, cm, ['@h_init'], ks[i:i + 3], vs, True)
        chk.ob('chacha_20 %s: key lengths, all forms' % nm, many, cm, ['@h_init', '@e_initc', '@e_initb', '@e_ctorb'], ks, [None], True)
        chk.ob('chacha_20 %s: iv lengths, all forms' % nm, many, cm, ['@h_init', '@e_initc', '@e_initb', '@e_ctorb'], [None, 0, 31], vs, True)
    chk.differential('poly_1305', c_poly.diff, pid, True)
    chk.differential('chacha_20', c_ciphers.diff, pid, True)
    return chk.finish()
