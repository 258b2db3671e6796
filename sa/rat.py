"""Rational functions in one symbolic field element, extended by square roots: exact canonical forms.
A value is (sum over sets of root symbols of n(u) * product of the roots) / d(u), d monic and coprime to the numerators."""
from engine import Unsupported
import random


class UP:
    """dense univariate polynomials (tuples, lowest coefficient first, no trailing zeros) over a ring"""
    def __init__(self, r, quad):
        self.r, self.quad = r, quad
        self.p = r.p
        self.q = r.p * r.p if quad else r.p
        self.one = (r.one,)
        if not quad:
            self.bits = 2 * r.p.bit_length() + 10
            self.by = (self.bits + 7) // 8

    def trim(self, a):
        a = list(a)
        while a and self.r.is_zero(a[-1]):
            a.pop()
        return tuple(a)
    def add(self, a, b):
        if len(a) < len(b):
            a, b = b, a
        r = self.r
        return self.trim([r.add(x, b[i]) if i < len(b) else x for i, x in enumerate(a)])
    def neg(self, a): return tuple(self.r.neg(x) for x in a)
    def sub(self, a, b): return self.add(a, self.neg(b))
    def scale(self, a, c): return self.trim([self.r.mul(x, c) for x in a])
    def mul(self, a, b):
        if not a or not b:
            return ()
        if len(a) == 1:
            return self.scale(b, a[0])
        if len(b) == 1:
            return self.scale(a, b[0])
        if not self.quad:
            return self.trim(self.kron(a, b))
        p, nr = self.p, self.r.nr
        u = UP.base(self)
        a0, a1 = [x[0] for x in a], [x[1] for x in a]
        b0, b1 = [x[0] for x in b], [x[1] for x in b]
        v0, v1 = u.kron(a0, b0), u.kron(a1, b1)
        v2 = u.kron([(x + y) % p for x, y in zip(a0, a1)], [(x + y) % p for x, y in zip(b0, b1)])
        return self.trim([((x + nr * y) % p, (z - x - y) % p) for x, y, z in zip(v0, v1, v2)])
    def base(self):
        if not hasattr(self, '_b'):
            from poly import PrimeRing
            self._b = UP(PrimeRing(self.p), False)
        return self._b
    def kron(self, a, b):
        by, p = self.by, self.p
        x = int.from_bytes(b''.join(c.to_bytes(by, 'little') for c in a), 'little')
        y = int.from_bytes(b''.join(c.to_bytes(by, 'little') for c in b), 'little')
        n = len(a) + len(b) - 1
        z = (x * y).to_bytes(by * (n + 1), 'little')
        return [int.from_bytes(z[i * by:(i + 1) * by], 'little') % p for i in range(n)]
    def divmod(self, a, b):
        r = self.r
        a = list(a)
        ib = r.inv(b[-1])
        n = len(b)
        q = [r.zero] * max(0, len(a) - n + 1)
        for i in range(len(a) - n, -1, -1):
            c = r.mul(a[i + n - 1], ib)
            if r.is_zero(c):
                continue
            q[i] = c
            for j in range(n):
                a[i + j] = r.sub(a[i + j], r.mul(c, b[j]))
        return self.trim(q), self.trim(a[:n - 1])
    def monic(self, a): return self.scale(a, self.r.inv(a[-1])) if a else a
    def gcd(self, a, b):
        while b:
            a, b = b, self.divmod(a, b)[1]
        return self.monic(a)
    def deriv(self, a):
        return self.trim([self.r.mul(c, self.r.norm(i)) for i, c in enumerate(a)][1:])
    def odd_part(self, a):
        """monic product of the irreducible factors of odd multiplicity"""
        a = self.monic(a)
        out = self.one
        if len(a) <= 1:
            return out
        g = self.gcd(a, self.deriv(a))
        w = self.divmod(a, g)[0]
        i = 1
        while len(w) > 1:
            y = self.gcd(w, g)
            z = self.divmod(w, y)[0]
            if i % 2:
                out = self.mul(out, z)
            w, g = y, self.divmod(g, y)[0]
            i += 1
        return out
    def powmod(self, a, e, m):
        r = self.one
        a = self.divmod(a, m)[1]
        while e:
            if e & 1:
                r = self.divmod(self.mul(r, a), m)[1]
            a = self.divmod(self.mul(a, a), m)[1]
            e >>= 1
        return r
    def roots(self, a):
        """roots in the field"""
        a = self.monic(a)
        out = []
        if len(a) <= 1:
            return out
        x = (self.r.zero, self.r.one)
        g = self.gcd(self.sub(self.powmod(x, self.q, a), x), a) if len(a) > 2 else a
        rng = random.Random(1)
        todo = [g]
        while todo:
            f = todo.pop()
            if len(f) <= 1:
                continue
            if len(f) == 2:
                out.append(self.r.neg(f[0]))
                continue
            while True:
                c = rng.randrange(self.p)
                s = (self.r.norm((c, rng.randrange(self.p))) if self.quad else c, self.r.one)
                h = self.gcd(self.sub(self.powmod(s, (self.q - 1) // 2, f), self.one), f)
                if 1 < len(h) < len(f):
                    todo += [h, self.divmod(f, h)[0]]
                    break
        return out
    def eval(self, a, x):
        r = self.r
        v = r.zero
        for c in reversed(a):
            v = r.add(r.mul(v, x), c)
        return v


class Rat:
    __slots__ = ('s', 'n', 'd', 'u')

    def __init__(self, s, n, d, u):
        self.s, self.n, self.d, self.u = s, n, d, u

    @staticmethod
    def make(s, n, d, u):
        """canonical form"""
        up = s.up
        n = {k: v for k, v in n.items() if v}
        if not n:
            return Rat(s, {}, up.one, None)
        if len(d) > 1:
            g = d
            for v in n.values():
                g = up.gcd(g, v)
                if len(g) == 1:
                    break
            if len(g) > 1:
                n = {k: up.divmod(v, g)[0] for k, v in n.items()}
                d = up.divmod(d, g)[0]
        if d[-1] != s.r.one:
            c = s.r.inv(d[-1])
            n = {k: up.scale(v, c) for k, v in n.items()}
            d = up.scale(d, c)
        if len(d) == 1 and all(len(v) == 1 for v in n.values()) and all(not k for k in n):
            u = None
        return Rat(s, n, d, u)

    def key(self): return (self.u, tuple(sorted(self.n.items())), self.d)
    def __eq__(self, o): return isinstance(o, Rat) and self.n == o.n and self.d == o.d and self.u == o.u
    def __hash__(self): return hash(self.key())
    def is_zero(self): return not self.n
    def is_const(self): return self.u is None and all(not k for k in self.n)
    def const_val(self): return self.n[()][0] if self.n else self.s.r.zero
    def __repr__(self):
        if self.is_const():
            c = self.const_val()
            return hex(c) if isinstance(c, int) else f'({hex(c[0])}, {hex(c[1])})'
        return f'[expression in {self.u} of degree {max(len(v) for v in self.n.values()) - 1}/{len(self.d) - 1}' + \
            (', roots ' + ' '.join(sorted({y for k in self.n for y in k})) if any(self.n) else '') + ']'

    def mix(self, o):
        if self.u is not None and o.u is not None and self.u != o.u:
            raise Unsupported('expression in two hashed field elements')
        return self.u if self.u is not None else o.u

    def __add__(self, o):
        u, up, s = self.mix(o), self.s.up, self.s
        if not self.n:
            return o
        if not o.n:
            return self
        if self.d == o.d:
            n = dict(self.n)
            for k, v in o.n.items():
                n[k] = up.add(n.get(k, ()), v)
            return Rat.make(s, n, self.d, u)
        n = {k: up.mul(v, o.d) for k, v in self.n.items()}
        for k, v in o.n.items():
            n[k] = up.add(n.get(k, ()), up.mul(v, self.d))
        return Rat.make(s, n, up.mul(self.d, o.d), u)

    def __neg__(self): return Rat(self.s, {k: self.s.up.neg(v) for k, v in self.n.items()}, self.d, self.u)
    def __sub__(self, o): return self + (-o)
    def scale(self, c):
        c = self.s.r.norm(c)
        if self.s.r.is_zero(c):
            return self.s.const(0)
        return Rat(self.s, {k: self.s.up.scale(v, c) for k, v in self.n.items()}, self.d, self.u)

    def __mul__(self, o):
        u, up, s = self.mix(o), self.s.up, self.s
        out = None
        d = up.mul(self.d, o.d)
        acc = {}
        extra = None
        for k, v in self.n.items():
            for k2, v2 in o.n.items():
                c = set(k) & set(k2)
                m = up.mul(v, v2)
                kk = tuple(sorted(set(k) ^ set(k2)))
                if not c:
                    acc[kk] = up.add(acc.get(kk, ()), m)
                    continue
                t = Rat.make(s, {kk: m}, d, u)
                for y in c:
                    t = t * s.sqrts[y]
                extra = t if extra is None else extra + t
        out = Rat.make(s, acc, d, u)
        return out if extra is None else out + extra

    def pow(self, k):
        r = self.s.const(1)
        a = self
        while k:
            if k & 1:
                r = r * a
            a = a * a
            k >>= 1
        return r

    def inv(self):
        s, up = self.s, self.s.up
        if list(self.n) == [()]:
            return Rat.make(s, {(): self.d}, self.n[()], self.u)
        if len(self.n) == 1:
            (k, v), = self.n.items()
            t = Rat.make(s, {k: self.d}, v, self.u)
            for y in k:
                t = t * s.sqrts[y].inv()
            return t
        # multiply by the conjugate in one root symbol
        y = max(y for k in self.n for y in k)
        cj = Rat(s, {k: (up.neg(v) if y in k else v) for k, v in self.n.items()}, self.d, self.u)
        return cj * (self * cj).inv()

    def norm(self):
        """root-free numerator that vanishes wherever the value does"""
        a = self
        while any(a.n):
            y = max(y for k in a.n for y in k)
            up = self.s.up
            a = a * Rat(self.s, {k: (up.neg(v) if y in k else v) for k, v in a.n.items()}, a.d, a.u)
        return a.n.get((), ())
