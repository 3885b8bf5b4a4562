"""the documented public forms are usable: each statement below is a user program that g++ must accept against the real headers"""
import concurrent.futures
import os
import subprocess

import build

PRE = '''
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/detail/alias.h>
#include <array>
#include <string>
#include <vector>
using namespace milo; using namespace milo::primitive;
using V = std::vector<unsigned char>; using S = std::string; using A8 = std::array<unsigned char, 8>; using A99 = std::array<char, 99>;
extern const unsigned char* k; extern const char* p; extern unsigned char* d; extern char* dc; extern size_t n; extern V v; extern const S s; extern A8 a8; extern A99 a99; extern error e;
'''


def codec(T, ops):
    r = []
    for ns in ('codec::apie<%s>::' % T, 'codec::'):
        tp = '' if 'apie' in ns else '<%s>' % T
        tq = '' if 'apie' in ns else T + ', '
        tk = 'template ' if 'apie' in ns else ''
        tk = ''
        for op in ops:
            f = ns + tk + op
            if op == 'encode':
                r += [f + tp + '(k, n, d)', f + tp + '(p, n, dc)', f + tp + '(p, n, d)', f + tp + '(s, v)', f + tp + '(v, a99)', f + '<' + tq + 'S>(v)', f + '<' + tq + 'V>(s)']
            else:
                r += [f + tp + '(k, n, d, e)', f + tp + '(p, n, dc, e)', f + tp + '(p, n, d)', f + tp + '(s, v, e)', f + tp + '(v, a99, e)', f + tp + '(s, v)', f + '<' + tq + 'S>(v)', f + '<' + tq + 'V>(s)']
            if 'apie' in ns:
                r += [f + '_size(k, n)', f + '_size(p, n)', f + '_size(s)']
    return r


def hashes(T):
    o = 'hash::apie<%s> o; ' % T
    r = [o + x for x in ('o.initialize()', 'o.update(k, n)', 'o.update(p, n)', 'o.update(s)', 'o.update(v)', 'o.digest(d)', 'o.digest(dc, n)', 'o.digest(a8)', 'o.digest(v, n)', 'o.digest(a99, n)', 'o.template digest<V>(n)', 'o.digest<S>(n)', 'o.digest()')]
    f = 'hash::digest<%s>' % T
    r += [f + '(k, n, d)', f + '(p, n, dc, n)', f + '(s, v)', f + '(v, a8, n)', 'hash::digest<%s, V>(s, n)' % T, f + '(s)']
    o += 'auto c = o; hash::apie<%s> m(static_cast<hash::apie<%s>&&>(o)); ' % (T, T)
    return r + [o + 'c = m']


def macs(T):
    C = 'mac::apie<%s> ' % T
    o = C + 'o; '
    r = [o + x for x in ('o.initialize(k, n)', 'o.initialize(p, n)', 'o.initialize(s)', 'o.update(k, n)', 'o.update(p, n)', 'o.update(v)', 'o.digest(d)', 'o.digest(dc, n)', 'o.digest(a8)', 'o.digest(v, n)', 'o.digest<V>(n)', 'o.digest()')]
    r += [C + 'o(k, n)', C + 'o(s)', C + 'o(v)']
    f = 'mac::digest<%s>' % T
    r += [f + '(k, n, p, n, d)', f + '(p, n, k, n, dc, n)', f + '(s, v, v)', f + '(v, s, a8, n)', 'mac::digest<%s, V>(s, v, n)' % T, f + '(s, v)']
    return r + [o + 'auto c = o; c = o']


def ciphers(T):
    C = 'cipher::apie<%s> ' % T
    o = C + 'o; '
    r = [C + 'o(s, v)', C + 'o(a8, a99)', o + 'o.initialize(k, n, p, n)', o + 'o.initialize(s, v)', o + 'auto c = o; c = o']
    for x in ('encrypt', 'decrypt'):
        r += [o + y % x for y in ('o.%s(k, n, d)', 'o.%s(p, n, dc)', 'o.%s(d, n, d)', 'o.%s(s, v)', 'o.%s(v, a99)', 'o.%s<V>(s)', 'o.%s<S>(v)', 'o.%s_size(k, n)', 'o.%s_size(s)')]
        f = 'cipher::%s<%s>' % (x, T)
        r += [f + '(k, n, k, n, p, n, d)', f + '(p, n, p, n, k, n, dc)', f + '(s, v, s, v)', f + '(v, a8, v, a99)', 'cipher::%s<%s, V>(s, s, s)' % (x, T)]
    return r


def aeads(T, part):
    C = 'aead::apie<%s> ' % T
    o = C + 'o; '
    if part == 'verify':
        r = [o + x for x in ('o.verify(k, n, e)', 'o.verify(p, n)', 'o.verify(s, e)', 'o.verify(a8)', 'o.verify(v)')]
        f = 'aead::decrypt<%s>' % T
        g = 'aead::decrypt<%s, V>' % T
        kp = '(k, n, k, n, k, n, k, n, k, n, d'
        r += [f + kp + ', e)', f + kp + ')', f + '(p, n, p, n, p, n, p, n, p, n, dc, e)', f + '(s, s, s, s, a8, v, e)', f + '(v, v, v, s, v, v)', f + '(v, v, v, s, v, a99, e)', g + '(s, s, s, s, a8, e)', g + '(v, v, v, v, v)']
        return r
    r = [C + 'o(k, n, p, n)', C + 'o(s, v)', o + 'o.initialize(k, n, p, n)', o + 'o.initialize(s, v)', o + 'auto c = o; c = o', o + 'o.aad(k, n)', o + 'o.aad(p, n)', o + 'o.aad(s)']
    for x in ('encrypt', 'decrypt'):
        r += [o + y % x for y in ('o.%s(k, n, d)', 'o.%s(p, n, dc)', 'o.%s(d, n, d)', 'o.%s(s, v)', 'o.%s(v, a99)', 'o.%s<V>(s)', 'o.%s<S>(v)', 'o.%s_size(k, n)', 'o.%s_size(s)')]
    r += [o + x for x in ('o.digest(d)', 'o.digest(dc, n)', 'o.digest(a8)', 'o.digest(v, n)', 'o.digest<V>(n)', 'o.digest()')]
    f = 'aead::encrypt<%s>' % T
    r += [f + '(k, n, k, n, k, n, k, n, d, d)', f + '(p, n, p, n, p, n, p, n, dc, dc)', 'std::array<unsigned char, 16> t; ' + f + '(s, s, s, s, v, t)', 'std::array<char, 16> t; ' + f + '(v, v, v, v, a99, t)', 'aead::encrypt<%s, V>(s, s, s, s)' % T]
    return r


def kdfs(T, kind):
    C = 'kdf::apie<%s> ' % T
    o = C + 'o; '
    last = ('p, n', 's') if kind == 'hkdf' else ('7u', '7u')
    P = 'k, n, p, n, ' + last[0]
    B = 's, v, ' + last[1]
    r = [C + 'o(%s)' % P, C + 'o(%s)' % B, o + 'o.initialize(%s)' % P, o + 'o.initialize(%s)' % B, o + 'auto c = o; c = o']
    r += [o + x for x in ('o.derive(d, n)', 'o.derive(dc, n)', 'o.derive(v, n)', 'o.derive(a8, n)', 'o.derive(a99, n)', 'o.derive<V>(n)', 'o.derive<A8>()')]
    f = 'kdf::derive<%s>' % T
    r += [f + '(%s, d, n)' % P, f + '(%s, v, n)' % B, f + '(%s, a8, n)' % B, 'kdf::derive<%s, V>(%s, n)' % (T, B), 'kdf::derive<%s, A8>(%s)' % (T, B)]
    return r


FORMS = {
    'C01': lambda: codec('codec::base_16<>', ['encode']),
    'C02': lambda: codec('codec::base_16<>', ['decode']),
    'C03': lambda: codec('codec::base_64<>', ['encode']),
    'C04': lambda: codec('codec::base_64<>', ['decode']),
    'H01': lambda: hashes('hash::sha_1_160<>')[:5],
    'H02': lambda: hashes('hash::sha_2_256<>')[:5] + hashes('hash::sha_2_224<>')[:1],
    'H03': lambda: hashes('hash::sha_2_512<>')[:5] + hashes('hash::sha_2_384<>')[:1] + hashes('hash::sha_2_512_256<>')[:1],
    'H05': lambda: hashes('hash::sha_1_160<>') + hashes('hash::sha_2_256<>') + hashes('hash::sha_2_512<>'),
    'M01': lambda: macs('mac::hmac<hash::sha_2_256<>>'),
    'M02': lambda: macs('mac::poly_1305<>'),
    'M03': lambda: macs('mac::poly_1305<>')[:3] + ciphers('cipher::chacha_20<>')[:4],
    'S01': lambda: ciphers('cipher::chacha_20<>'),
    'A01': lambda: aeads('aead::chacha_20_poly_1305<>', 'seal'),
    'A02': lambda: aeads('aead::chacha_20_poly_1305<>', 'verify'),
    'K01': lambda: kdfs('kdf::hkdf<mac::hmac<hash::sha_2_256<>>>', 'hkdf'),
    'K02': lambda: kdfs('kdf::pbkdf_2<mac::hmac<hash::sha_2_256<>>>', 'pbkdf_2'),
}


def gxx(path):
    r = subprocess.run(['g++', '-std=c++20', '-w', '-fsyntax-only', '-I' + os.path.join(build.REPO, 'src')] + build.DEFS + [path], capture_output=True, text=True)
    return r.returncode, r.stderr


def check(chk, pid, only=None):
    fs = FORMS[pid]()
    base = os.path.join(build.scratch(), 'forms_' + pid)
    open(base + '.cpp', 'w').write(PRE + ''.join('void f%d(){ %s; }\n' % x for x in enumerate(fs)))
    rc, err = gxx(base + '.cpp')
    fails = []
    if rc:
        open(base + 'pre.cpp', 'w').write(PRE)
        if gxx(base + 'pre.cpp')[0]:
            raise Exception('the headers themselves do not compile: ' + err[:300])

        def one(x):
            i, f = x
            q = '%s_%d.cpp' % (base, i)
            open(q, 'w').write(PRE + 'void f(){ %s; }\n' % f)
            rc, err = gxx(q)
            return f, rc, err
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for f, rc, err in ex.map(one, enumerate(fs)):
                if rc:
                    errs = [l for l in err.split('\n') if 'error' in l]
                    fails.append({'program': 'void f(){ %s; }' % f, 'what': 'the public form is not accepted by g++', 'error': (errs or [''])[0][:400]})
    return len(fs), fails, 'public forms accepted by g++ against the real headers'


if __name__ == '__main__':
    import sys
    for q in sys.argv[1:] or FORMS:
        n, f, dsc = check(None, q)
        print(q, n, len(f))
        for x in f:
            print('   ', x['program'], '\n        ', x['error'][:250])
