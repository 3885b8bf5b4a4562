"""messages larger than memory: a private zero mapping (untouched pages cost nothing) with random first and last bytes"""
import ctypes
import mmap


class Big:
    def __init__(self, size, rnd, ends=4096):
        self.size = size
        self.m = mmap.mmap(-1, max(1, size), flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | getattr(mmap, 'MAP_NORESERVE', 0x4000))
        self.head = rnd.randbytes(min(ends, size))
        self.tail = rnd.randbytes(min(ends, size - len(self.head)))
        self.m[:len(self.head)] = self.head
        if self.tail:
            self.m[size - len(self.tail):] = self.tail
        self.zeros = size - len(self.head) - len(self.tail)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.m))

    def at(self, off=0):
        return ctypes.c_void_p(self.addr + off)

    def feed(self, h):
        """into a hashlib/hmac object"""
        h.update(self.head)
        z = bytes(1 << 24)
        n = self.zeros
        while n:
            k = min(n, len(z))
            h.update(z if k == len(z) else z[:k])
            n -= k
        h.update(self.tail)


P1305 = (1 << 130) - 5


def poly_affine(msgs, r):
    """the accumulator map a -> x a + y (mod p) of a sequence of pieces: bytes, or ('z', n) for n zero bytes; every piece but the last a multiple of 16 long"""
    x, y = 1, 0
    for m in msgs:
        if isinstance(m, tuple):
            n, rest = divmod(m[1], 16)
            # (a + 2^128) r, n times
            px, py = 1, 0
            bx, by = r % P1305, (r << 128) % P1305
            while n:
                if n & 1:
                    px, py = px * bx % P1305, (py * bx + by) % P1305
                bx, by = bx * bx % P1305, (by * bx + by) % P1305
                n >>= 1
            x, y = x * px % P1305, (y * px + py) % P1305
            m = bytes(rest)
        for i in range(0, len(m), 16):
            b = m[i:i + 16]
            x, y = x * r % P1305, (y + int.from_bytes(b, 'little') + (1 << 8 * len(b))) * r % P1305
    return x, y


def poly(key, pieces):
    """Poly1305 of a piece sequence; pieces are regrouped so that boundaries fall on multiples of 16"""
    r = int.from_bytes(key[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:32], 'little')
    out, pend = [], b''
    for p in pieces:
        if isinstance(p, tuple):
            n = p[1]
            k = min(n, -len(pend) % 16)
            pend += bytes(k)
            n -= k
            if n >= 16:
                out += [pend, ('z', n - n % 16)]
                pend = bytes(n % 16)
            else:
                pend += bytes(n)
        else:
            pend += p
            k = len(pend) - len(pend) % 16
            out.append(pend[:k])
            pend = pend[k:]
    out.append(pend)
    x, y = poly_affine(out, r)
    return ((y + s) & ((1 << 128) - 1)).to_bytes(16, 'little')
