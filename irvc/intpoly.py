"""Unsigned bit-vector terms as integer polynomials with floor atoms: sound translation used for
congruences modulo a prime over multi-limb arithmetic.

int(x) is a polynomial over integer atoms whose value is the unsigned value of x.
For an integer polynomial E let E~ be E with coefficients reduced modulo 2^n; the atom Q(E~, n)
stands for floor(E~ / 2^n), so that E mod 2^n = E~ - 2^n Q(E~, n) and
floor(E / 2^n) = (E - E~) / 2^n + Q(E~, n)."""
import terms as t
from terms import T


class NoInt(Exception):
    pass


class P:
    """integer polynomial: {monomial (sorted tuple of atom keys): coefficient}"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return P({(): c} if c else {})

    @staticmethod
    def atom(a):
        return P({(a,): 1})

    def add(self, o, c=1):
        d = dict(self.d)
        for m, v in o.d.items():
            n = d.get(m, 0) + c * v
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return P(d)

    def scale(self, c):
        return P({m: v * c for m, v in self.d.items()} if c else {})

    def mul(self, o):
        d = {}
        for m, v in self.d.items():
            for n, w in o.d.items():
                k = tuple(sorted(m + n))
                d[k] = d.get(k, 0) + v * w
                if len(d) > 200000:
                    raise NoInt('too many monomials')
        return P({k: v for k, v in d.items() if v})

    def key(self):
        return tuple(sorted(self.d.items()))

    def mod_zero(self, p):
        return all(v % p == 0 for v in self.d.values())


class Tr:
    def __init__(self):
        self.atoms = []          # key -> (description, lo, hi)
        self.ids = {}
        self.memo = {}

    def atom(self, key, lo, hi):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.atoms)
            self.atoms.append((key, lo, hi))
        return P.atom(i)

    def bounds(self, p):
        lo = hi = 0
        for m, v in p.d.items():
            a, b = 1, 1
            for x in m:
                _, l, h = self.atoms[x]
                c = (a * l, a * h, b * l, b * h)
                a, b = min(c), max(c)
            lo += min(v * a, v * b)
            hi += max(v * a, v * b)
        return lo, hi

    def canon(self, p, n):
        m = 1 << n
        d = {}
        for k, v in p.d.items():
            v %= m
            if v:
                d[k] = v
        return P(d)

    def q(self, e, n):
        """floor(e / 2^n) for canonical e"""
        lo, hi = self.bounds(e)
        if lo >= 0 and hi < (1 << n):
            return P()
        return self.atom(('Q', e.key(), n), lo >> n, hi >> n)

    def mod(self, e, n):
        c = self.canon(e, n)
        return c.add(self.q(c, n), -(1 << n))

    def div(self, e, n):
        if n == 0:
            return e
        c = self.canon(e, n)
        r = e.add(c, -1)
        return P({m: v >> n for m, v in r.d.items()}).add(self.q(c, n))

    def slc(self, e, w, lo, n):
        """bits lo..lo+n of an integer known to lie in [0, 2^w)"""
        if lo >= w:
            return P()
        a = self.div(e, lo)
        if lo + n >= w:
            return a
        return a.add(self.div(e, lo + n), -(1 << n))

    def tr(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._tr(x)
        return r

    def _tr(self, x):
        if x.op == 'c':
            return P.const(x.a[0])
        if x.op in ('v', 'app'):
            lo, hi = t.iv(x)
            return self.atom(x, lo, hi)
        if x.op == '+':
            c, ts = x.a
            w = x.w
            sc = [(y, t.sgn(k, w)) for y, k in ts]
            lo = hi = 0
            for y, k in sc:
                a, b = t.iv(y)
                lo += min(k * a, k * b)
                hi += max(k * a, k * b)
            best = None
            for cc in (c, t.sgn(c, w)):
                if lo + cc >= 0 and hi + cc < (1 << w):
                    best = cc
                    break
            e = P.const(c if best is None else best)
            for y, k in sc:
                e = e.add(self.tr(y), k)
            return e if best is not None else self.mod(e, w)
        if x.op == '*':
            e = P.const(1)
            hi = 1
            for y in x.a:
                e = e.mul(self.tr(y))
                hi *= t.iv(y)[1]
            return e if hi < (1 << x.w) else self.mod(e, x.w)
        if x.op == 'x':
            y, lo = x.a
            return self.slc(self.tr(y), min(y.w, t.iv(y)[1].bit_length()), lo, x.w)
        if x.op == 'cat':
            e = P()
            s = 0
            for y in x.a:
                e = e.add(self.tr(y), 1 << s)
                s += y.w
            return e
        if x.op == 'ult':
            a, b = x.a
            return self.div(self.tr(a).add(self.tr(b), -1), a.w).scale(-1)
        if x.op == '^' and x.w == 1:
            r = P()
            for y in _bits(x):
                # a xor b = a + b - 2ab
                z = self.tr(y)
                r = r.add(z).add(r.mul(z), -2)
            return r
        if x.op == 'ite' and x.a[0].w == 1:
            c = self.tr(x.a[0])
            a, b = self.tr(x.a[1]), self.tr(x.a[2])
            return c.mul(a.add(b, -1)).add(b)
        raise NoInt('integer meaning of %s' % x.op)


def _bits(x):
    raise NoInt('xor')
