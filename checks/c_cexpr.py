"""X04: the constant-evaluated branches satisfy the same contracts as the run-time branches"""
import concurrent.futures as cf
import hashlib
import hmac
import os
import random
import subprocess
import base64

import build
import core
import c_aeads
import c_ciphers
import c_codecs
import c_hashes
import c_kdfs
import c_macs
import c_poly
import irparse
import spec

TAG = ' [constant evaluation]'

ASSUME = ['the branches are selected by std::is_constant_evaluated() (or if consteval) inside milo\'s own files; the C++ library itself is compiled as at run time',
          'a constant expression is evaluated with the semantics the compiler gives the same code at run time; that the evaluation is permitted (no reinterpret_cast, '
          'no call of a non-constexpr function) is covered by the labelled concrete cases compiled by g++ only',
          'length and overlap assumptions as in H01-H03, M01, M02, S01, A01, K01, K02, C01-C04']

HEAD = '''
#include <array>
#include <cstdio>
#include <cstdint>
#include <vector>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/detail/alias.h>
using namespace milo; using namespace milo::primitive;
#ifdef RUNTIME
#define CE const
#else
#define CE constexpr
#endif
template<size_t N> struct R { uint8_t d[N ? N : 1] {}; size_t n = 0; size_t e = 0; };
#define OUT(name, v) { printf("%s %zu %zu ", name, v.n, v.e); for (size_t i = 0; i < sizeof(v.d); i++) printf("%02x", v.d[i]); puts(""); }
'''


def arr(b):
    return '{' + ','.join(str(x) for x in b) + '}' if b else '{0}'


def chars(b):
    return '{' + ','.join('char(%d)' % x for x in b) + '}' if b else '{0}'


def parts(rnd, n):
    """a way of cutting n bytes into at most three calls"""
    a = rnd.choice([0, n, rnd.randrange(n + 1)])
    b = rnd.choice([0, n - a, rnd.randrange(n - a + 1)])
    return [a, b, n - a - b]


def upd(obj, f, data, cut, extra=''):
    out = ''
    p = 0
    for c in cut:
        out += '%s.%s(m + %d, %s%d); ' % (obj, f, p, extra, c)
        p += c
    return out


def case(k, body, n, inputs):
    """(source, description)"""
    # alternately unsigned and plain characters
    decl = ''.join('constexpr uint8_t %s[] = %s; ' % (nm, arr(v)) if (k + i) % 2 else 'constexpr char %s[] = %s; ' % (nm, chars(v)) for i, (nm, v) in enumerate(inputs))
    return 'namespace c%d { %s CE auto r = []{ R<%d> r; %s return r; }(); }\n' % (k, decl, n, body)


def cases(rnd):
    """-> list of groups; a group is a list of (source, expected bytes or None, expected n, expected e, description)"""
    groups = []
    k = [0]

    def add(g, body, n, inputs, want, wn, we, desc):
        k[0] += 1
        g.append((k[0], case(k[0], body, n, inputs), want + bytes(max(1, n) - len(want)), wn, we, desc))
    thorough = core.TIER == 'thorough'
    mul = 12 if thorough else 3
    for s in spec.HASHES:
        g = []
        B = s.block
        lens = [0, 1, B - s.lenbytes - 1, B - s.lenbytes, B, B + 1] + [rnd.randrange(3 * B) for _ in range(4 * mul)]
        for n in lens:
            m = rnd.randbytes(n)
            cut = parts(rnd, n)
            w = hashlib.new(s.name, m).digest()
            d = rnd.choice([s.digest, s.digest, rnd.randrange(s.digest), s.digest + 3])
            add(g, 'hash::apie<hash_%s> h; h.initialize(); %s r.n = h.digest(r.d, %d);' % (s.alias.replace('hash_', ''), upd('h', 'update', m, cut), d), s.digest + 3,
                [('m', m)], w[:d], min(d, s.digest), 0, {'hash': s.name, 'message': m.hex(), 'cut': cut, 'requested': d})
        m = rnd.randbytes(B + 7)
        add(g, 'r.n = hash::digest<hash_%s>(m, %d, r.d, %d);' % (s.alias.replace('hash_', ''), len(m), s.digest), s.digest,
            [('m', m)], hashlib.new(s.name, m).digest(), s.digest, 0, {'hash': s.name, 'message': m.hex(), 'form': 'one-shot'})
        groups.append(g)
    for s in spec.HASHES:
        g = []
        a = s.alias.replace('hash_', '')
        for kl in [0, s.block - 1, s.block, s.block + 1, rnd.randrange(3 * s.block)]:
            key = rnd.randbytes(kl)
            n = rnd.randrange(2 * s.block)
            m = rnd.randbytes(n)
            cut = parts(rnd, n)
            add(g, 'mac::apie<mac_hmac_%s> h; h.initialize(k, %d); %s r.n = h.digest(r.d, %d);' % (a, kl, upd('h', 'update', m, cut), s.digest), s.digest,
                [('m', m), ('k', key)], hmac.new(key, m, s.name).digest(), s.digest, 0, {'hmac': s.name, 'key': key.hex(), 'message': m.hex(), 'cut': cut})
        if s.name in ('sha1', 'sha256', 'sha512'):
            key, salt, info = rnd.randbytes(rnd.randrange(40)), rnd.randbytes(rnd.randrange(40)), rnd.randbytes(rnd.randrange(30))
            n = 2 * s.digest + rnd.randrange(1, s.digest)
            c1 = rnd.randrange(n)
            import c_kdfs as ck
            prk = hmac.new(salt, key, s.name).digest()
            out, tt = b'', b''
            i = 1
            while len(out) < n:
                tt = hmac.new(prk, tt + info + bytes([i]), s.name).digest()
                out += tt
                i += 1
            add(g, 'kdf::apie<kdf_hkdf_hmac_%s> h; h.initialize(k, %d, s, %d, f, %d); r.n = h.derive(r.d, %d); r.n += h.derive(r.d + %d, %d);' % (a, len(key), len(salt), len(info), c1, c1, n - c1), n,
                [('k', key), ('s', salt), ('f', info)], out[:n], n, 0, {'hkdf': s.name, 'key': key.hex(), 'salt': salt.hex(), 'info': info.hex(), 'sizes': [c1, n - c1]})
            it = rnd.randrange(1, 4)
            n = s.digest + rnd.randrange(1, s.digest)
            c1 = rnd.randrange(n)
            want = hashlib.pbkdf2_hmac(s.name, key, salt, it, n)
            add(g, 'kdf::apie<kdf_pbkdf_2_hmac_%s> h; h.initialize(k, %d, s, %d, uint32_t(%d)); r.n = h.derive(r.d, %d); r.n += h.derive(r.d + %d, %d);' % (a, len(key), len(salt), it, c1, c1, n - c1), n,
                [('k', key), ('s', salt)], want, n, 0, {'pbkdf2': s.name, 'key': key.hex(), 'salt': salt.hex(), 'iterations': it, 'sizes': [c1, n - c1]})
        groups.append(g)
    g = []
    for i in range(8 * mul):
        key = rnd.choice([rnd.randbytes(32), b'\xff' * 32])
        n = rnd.choice([0, 15, 16, 17, 32, rnd.randrange(70)])
        m = rnd.choice([rnd.randbytes(n), b'\xff' * n])
        cut = parts(rnd, n)
        add(g, 'mac::apie<mac_poly_1305> h; h.initialize(k, 32); %s r.n = h.digest(r.d, 16);' % upd('h', 'update', m, cut), 16,
            [('m', m), ('k', key)], c_poly.poly1305(key, m), 16, 0, {'poly1305': key.hex(), 'message': m.hex(), 'cut': cut})
    groups.append(g)
    g = []
    for i in range(6 * mul):
        key, iv = rnd.randbytes(32), rnd.randbytes(12)
        n = rnd.choice([0, 1, 63, 64, 65, rnd.randrange(200), rnd.randrange(200)])
        m = rnd.randbytes(n)
        cut = parts(rnd, n)
        ks = c_ciphers.keystream(key, iv, n)
        body = 'cipher::apie<cipher_chacha_20> h; h.initialize(k, 32, v, 12); '
        p = 0
        for c in cut:
            body += 'r.n += h.%s(m + %d, %d, r.d + %d); ' % (rnd.choice(['encrypt', 'decrypt']), p, c, p)
            p += c
        add(g, body, n, [('m', m), ('k', key), ('v', iv)], bytes(x ^ y for x, y in zip(m, ks)), n, 0, {'chacha20': key.hex(), 'iv': iv.hex(), 'text': m.hex(), 'cut': cut})
    groups.append(g)
    g = []
    for i in range(6 * mul):
        key, iv = rnd.randbytes(32), rnd.randbytes(12)
        aad = rnd.randbytes(rnd.choice([0, 1, 16, rnd.randrange(40)]))
        n = rnd.choice([0, 1, 16, 64, rnd.randrange(150)])
        m = rnd.randbytes(n)
        ca, cm = parts(rnd, len(aad)), parts(rnd, n)
        ct, tag = c_aeads.reference(key, iv, aad, m, False)
        body = 'aead::apie<aead_chacha_20_poly_1305> h; h.initialize(k, 32, v, 12); '
        p = 0
        for c in ca:
            body += 'h.aad(a + %d, %d); ' % (p, c)
            p += c
        p = 0
        for c in cm:
            body += 'r.n += h.encrypt(m + %d, %d, r.d + %d); ' % (p, c, p)
            p += c
        body += 'r.n += h.digest(r.d + %d, 16);' % n
        add(g, body, n + 16, [('m', m), ('k', key), ('v', iv), ('a', aad)], ct + tag, n + 16, 0, {'aead': key.hex(), 'iv': iv.hex(), 'aad': aad.hex(), 'text': m.hex(), 'cuts': [ca, cm]})
    for i in range(4 * mul):
        key, iv = rnd.randbytes(32), rnd.randbytes(12)
        aad, m = rnd.randbytes(rnd.randrange(20)), rnd.randbytes(rnd.randrange(70))
        ct, tag = c_aeads.reference(key, iv, aad, m, False)
        tg = bytearray(tag)
        good = i % 3 == 0
        if not good:
            tg[rnd.randrange(16)] ^= 1 << rnd.randrange(8)
        add(g, 'aead::apie<aead_chacha_20_poly_1305> h; error x; h.initialize(k, 32, v, 12); h.aad(a, %d); r.n = h.decrypt(m, %d, r.d); h.verify(t, 16, x); r.e = bool(x) ? size_t(static_cast<error::code>(x)) : 0;' % (len(aad), len(ct)),
            len(m), [('m', ct), ('k', key), ('v', iv), ('a', aad), ('t', bytes(tg))], m, len(m), 0 if good else 2,
            {'aead verify': key.hex(), 'iv': iv.hex(), 'aad': aad.hex(), 'ciphertext': ct.hex(), 'tag': bytes(tg).hex()})
    groups.append(g)
    g = []
    for i in range(10 * mul):
        m = rnd.randbytes(rnd.choice([0, 1, 2, 3, 4, rnd.randrange(20)]))
        for a, e in (('base_16', m.hex().encode()), ('base_64', base64.b64encode(m))):
            add(g, 'r.n = codec::encode<codec_%s>(m, %d, r.d);' % (a, len(m)), len(e), [('m', m)], e, len(e), 0, {'encode': a, 'bytes': m.hex()})
            ok = rnd.random() < 0.5 or not m
            tx = bytearray(e)
            if ok:
                add(g, 'error x; r.n = codec::decode<codec_%s>(m, %d, r.d, x); r.e = bool(x) ? size_t(static_cast<error::code>(x)) : 0;' % (a, len(tx)), len(m) + 3, [('m', bytes(tx))], m, len(m), 0, {'decode': a, 'text': repr(bytes(tx))})
            else:
                tx[rnd.randrange(len(tx))] = rnd.choice(b'!`{@:[-_ \x00\xff~')
                add(g, 'error x; codec::decode<codec_%s>(m, %d, r.d, x); for (auto& c : r.d) c = 0; r.e = bool(x) ? size_t(static_cast<error::code>(x)) : 0;' % (a, len(tx)), len(m) + 3, [('m', bytes(tx))], b'', 0,
                    6 if a == 'base_16' else 4, {'decode': a, 'text': repr(bytes(tx))})
    groups.append(g)
    return groups


def compile_group(i, g, runtime):
    src = HEAD + ''.join(c[1] for c in g) + 'int main(){' + ''.join('OUT("%d", c%d::r)' % (c[0], c[0]) for c in g) + '}'
    try:
        exe = build.native(src, 'ce%d%s' % (i, 'r' if runtime else ''), flags=('-O0', '-fconstexpr-ops-limit=4000000000', '-fconstexpr-loop-limit=10000000', '-fconstexpr-depth=2000') + (('-DRUNTIME',) if runtime else ()),
                           shared=False)
    except build.BuildError as e:
        return None, str(e)
    r = subprocess.run([exe], stdout=subprocess.PIPE, timeout=60)
    out = {}
    for l in r.stdout.decode().splitlines():
        f = l.split(' ')
        out[int(f[0])] = (int(f[1]), int(f[2]), bytes.fromhex(f[3]))
    return out, ''


def wrong(g, out):
    bad = []
    for k, src, want, wn, we, desc in g:
        got = out.get(k)
        if got is None or got != (wn, we, want):
            bad.append(dict(desc, returned=got and got[0], error=got and got[1], bytes=got and got[2].hex(), expected=want.hex(), expected_returned=wn, expected_error=we))
    return bad


def diff(chk):
    rnd = random.Random(core.SEED)
    gs = cases(rnd)
    build.scratch()
    build.asm_objects()
    n, fails, skipped = 0, [], []

    def one(i):
        g = gs[i]
        out, err = compile_group(i, g, False)
        if out is not None:
            return len(g), wrong(g, out), None
        # is it the constant evaluation that is refused, or the harness as such?
        out, err2 = compile_group(i, g, True)
        if out is None:
            return 0, [], err2
        if wrong(g, out):
            return 0, [], 'the run-time results differ as well'
        for c in g:
            o, e = compile_group(1000 + c[0], [c], False)
            if o is None:
                return len(g), [dict(c[5], what='correct at run time, but the constant evaluation is refused', compiler=e[-600:])], None
        return 0, [], 'group refused, every case accepted'
    with cf.ThreadPoolExecutor(8) as ex:
        for a, b, c in ex.map(one, range(len(gs))):
            n += a
            fails += b
            if c:
                skipped.append(c[-300:])
    if skipped and not n:
        raise Exception(skipped[0])
    return n, fails, 'constexpr objects evaluated by g++ against hashlib/python models%s' % (', %d groups skipped (%s)' % (len(skipped), skipped[0]) if skipped else '')


def main(pid):
    chk = core.Check(pid, assumptions=ASSUME, trusted=c_hashes.TRUST)
    chk.extra['spec_selftest_cases'] = spec.selftest() + c_codecs.selftest()
    try:
        build.overlay(True)
    except Exception as e:
        chk.fail_early('no constant-evaluation branches found', repr(e)[:300])
    else:
        for p in ('H01', 'H02', 'H03'):
            c_hashes.add(chk, p, True, TAG)
        for p in ('C01', 'C02', 'C03', 'C04'):
            c_codecs.add(chk, p, True, TAG, ('h_dec', 'h_fdec', 'h_crdect'))
        c_poly.add(chk, c_poly.load(chk, True, TAG), TAG)
        c_macs.add_m01(chk, True, TAG, [(64, 32), (128, 64)])
        c_ciphers.add_leaf(chk, True, TAG)
        c_ciphers.add_ratio(chk, 1, True, TAG)
        m, one = c_aeads.module(chk, True, TAG)
        if m is not None:
            c_aeads.add_a01(chk, m, one, TAG)
            c_aeads.add_a02(chk, m, one, TAG + ' A02')
        for p in ('K01', 'K02'):
            c_kdfs.add(chk, p, True, TAG + ' ' + p, [32])
    if os.environ.get('X04_ONLY'):
        import re
        chk.jobs = [j for j in chk.jobs if re.search(os.environ['X04_ONLY'], j[0])]
    chk.differential('constant expressions', diff)
    return chk.finish()
