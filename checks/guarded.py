"""guard-page cases (guard.py) for each family of calls; the buffers hold exactly what the property grants"""
import ctypes
import os
import random

import core
import guard

Z = ctypes.c_size_t
RW = dict(readonly=False)


def both(cases):
    """each case with all buffers ending at, and with all buffers starting after, an unreadable page"""
    for d, f in cases:
        for high in (True, False):
            yield dict(d, buffers='end at an unreadable page' if high else 'start after an unreadable page'), lambda a, f=f, high=high: f(lambda x, ro=True: a.put(x, high, ro))


def codec(lib, nm, enc, refdec):
    rnd = random.Random(core.SEED + 99)
    g = lambda f: getattr(lib, nm + '_' + f)
    cases = []
    if enc:
        for n in list(range(0, 20)) + [63, 64, 65]:
            x = rnd.randbytes(n)
            out = 2 * n if nm == 'b16' else 4 * ((n + 2) // 3)
            for f in ('enc', 'encc', 'encs'):
                cases.append(({'codec': nm, 'call': 'encode ' + f, 'bytes': x.hex()}, lambda put, x=x, f=f, n=n, out=out: (g(f)(put(x), Z(n), put(bytes(out), False)), None)[1]))
    al = b'0123456789abcdefABCDEF' if nm == 'b16' else b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    texts = []
    for n in range(0, 18):
        s = bytes(rnd.choice(al) for _ in range(n))
        texts.append(s)
        if not enc and n:
            i = rnd.randrange(n)
            texts.append(s[:i] + b'*' + s[i + 1:])
            texts.append(s[:-1] + b'=')
            if n > 1:
                texts.append(s[:-2] + b'==')
    if enc:
        texts = [s for s in texts if refdec(s)[0] is False]
    for s in texts:
        n = len(s)

        def dec(put, s=s, n=n, f='dec'):
            src = put(s)
            cap = g('decsize')(src, Z(n))
            g(f)(src, Z(n), put(bytes(cap), False), ctypes.byref(ctypes.c_int(0)))
        for f in ('dec', 'decu', 'decs', 'dect'):
            cases.append(({'codec': nm, 'call': 'decode ' + f, 'text': repr(s)}, lambda put, dec=dec, f=f: dec(put, f=f)))
    return guard.run(both(cases))


def hashes(lib, names, block):
    rnd = random.Random(core.SEED + 98)
    cases = []
    for nm in names:
        g = lambda f, nm=nm: getattr(lib, nm + '_' + f)
        g('sizeof').restype = Z
        size = g('sizeof')()
        for parts in [[x] for x in (0, 1, block - 9, block - 1, block, block + 1, 2 * block, 3 * block + 5)] + [[1, block - 1], [3, block, 2], [block - 1, 2 * block + 1], [block + 3, 5 * block]]:
            for k in (0, 1, 7, 200):
                data = [rnd.randbytes(x) for x in parts]

                def f(put, data=data, k=k, g=g, size=size):
                    o = put(bytes(size), False)
                    g('ctor')(o)
                    for i, d in enumerate(data):
                        g('updc' if i % 2 else 'upd')(o, put(d), Z(len(d)))
                    full = ctypes.create_string_buffer(64)
                    n = g('dig')(o, full, Z(k))
                    g('digc')(o, put(bytes(n), False), Z(k))
                cases.append(({'hash': nm, 'update_sizes': parts, 'digest_request': k}, f))
    return guard.run(both(cases))


def keyed(lib, nm, keys, sizes, iv=None):
    """mac: init, upd, dig; cipher (iv given): init, enc, dec"""
    rnd = random.Random(core.SEED + 97)
    g = lambda f: getattr(lib, nm + '_' + f)
    g('sizeof').restype = Z
    size = g('sizeof')()
    cases = []
    for kn in keys:
        for parts in sizes:
            key, v, data = rnd.randbytes(kn), rnd.randbytes(iv or 0), [rnd.randbytes(x) for x in parts]

            def f(put, key=key, v=v, data=data):
                o = put(bytes(size), False)
                if iv is None:
                    g('init')(o, put(key), Z(len(key)))
                    for d in data:
                        g('upd')(o, put(d), Z(len(d)))
                    full = ctypes.create_string_buffer(64)
                    g('dig').restype = Z
                    n = g('dig')(o, full, Z(64))
                    g('dig')(o, put(bytes(n), False), Z(n))
                    return
                for op in ('enc', 'dec'):
                    g('init')(o, put(key), Z(len(key)), put(v), Z(len(v)))
                    for i, d in enumerate(data):
                        if i % 2:
                            p = put(d, False)
                            g(op)(o, p, Z(len(d)), p)
                        else:
                            g(op)(o, put(d), Z(len(d)), put(bytes(len(d)), False))
            cases.append(({'object': nm, 'key_size': kn, 'iv_size': iv, 'call_sizes': parts}, f))
    return guard.run(both(cases))


def aead(lib, nm):
    rnd = random.Random(core.SEED + 96)
    g = lambda f: getattr(lib, nm + '_' + f)
    g('sizeof').restype = Z
    size = g('sizeof')()
    cases = []
    for an in (0, 1, 16, 33):
        for parts in ([], [0], [1], [16], [64], [65, 3], [511], [512, 1], [513, 100, 700]):
            for op in ('enc', 'dec'):
                def f(put, an=an, parts=parts, op=op):
                    o = put(bytes(size), False)
                    g('init')(o, put(rnd.randbytes(32)), Z(32), put(rnd.randbytes(12)), Z(12))
                    g('aad')(o, put(rnd.randbytes(an)), Z(an))
                    for i, n in enumerate(parts):
                        if i % 2:
                            p = put(bytes(n), False)
                            g(op)(o, p, Z(n), p)
                        else:
                            g(op)(o, put(rnd.randbytes(n)), Z(n), put(bytes(n), False))
                    g('dig')(o, put(bytes(16), False), Z(16))
                    g('dig')(o, put(bytes(5), False), Z(5))
                    for n in (0, 3, 16, 40):
                        g('ver')(o, put(bytes(n)), Z(n))
                cases.append(({'object': nm, 'aad_size': an, 'calls': op, 'call_sizes': parts}, f))
    return guard.run(both(cases))


def kdf(lib, nm, hk):
    rnd = random.Random(core.SEED + 95)
    g = lambda f: getattr(lib, nm + '_' + f)
    g('sizeof').restype = Z
    size = g('sizeof')()
    cases = []
    for a, b, c, parts in ((0, 0, 0, [1]), (7, 9, 3, [20, 1, 100]), (64, 64, 64, [64]), (65, 129, 200, [0, 3, 128]), (300, 1, 17, [33, 63, 65])):
        def f(put, a=a, b=b, c=c, parts=parts):
            o = put(bytes(size), False)
            x = [put(rnd.randbytes(a)), Z(a), put(rnd.randbytes(b)), Z(b)] + ([put(rnd.randbytes(c)), Z(c)] if hk else [3])
            g('init')(o, *x)
            for n in parts:
                g('der')(o, put(bytes(n), False), Z(n))
        cases.append(({'object': nm, 'ikm_size': a, 'salt_size': b, 'info_size': c, 'derive_calls': parts}, f))
    return guard.run(both(cases))


def asmsha(lib, fam, sym, nw):
    cases = []
    for nb in (0, 1, 2, 3, 7):
        def f(put, nb=nb):
            getattr(lib, 'x_' + fam)(ctypes.c_uint64(nb), put(os.urandom(4 * nw), False), put(os.urandom(64 * nb)))
        cases.append(({'function': sym, 'blocks': nb}, f))
    return guard.run(both(cases))


def asmchacha(lib, name, sym, unit, gen):
    cases = []
    for nb in (0, 1, 2, 5):
        for inplace in ((False,) if gen else (False, True)):
            def f(put, nb=nb, inplace=inplace):
                d = put(bytes(unit * nb), False)
                getattr(lib, name)(ctypes.c_uint64(nb), put(os.urandom(64)), d, d if inplace else put(bytes(unit * nb)))
            cases.append(({'function': sym, 'units': nb, 'in_place': inplace}, f))
    return guard.run(both(cases))


def merge(n, fails, *rs):
    return n + sum(r[0] for r in rs), fails + [f for r in rs for f in r[1]]
