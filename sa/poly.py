"""Polynomials over a finite ring: the value-numbering domain for field elements.

A monomial is a sorted tuple of (variable, exponent); exponents may be negative for variables that
are known to be invertible.  Coefficients live in a Ring (a prime field, or a quadratic extension of
one given as pairs)."""

class TooLarge(Exception):
    pass


class PrimeRing:
    def __init__(self, p):
        self.p = p
        self.zero = 0
        self.one = 1
    def norm(self, a): return a % self.p
    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def mul(self, a, b): return a * b % self.p
    def neg(self, a): return -a % self.p
    def inv(self, a): return pow(a, -1, self.p)
    def pow(self, a, e): return pow(a, e, self.p)
    def is_zero(self, a): return a == 0
    def order(self): return self.p

class QuadRing:
    """Fp[u]/(u^2 - nr)"""
    def __init__(self, p, nr):
        self.p = p
        self.nr = nr % p
        self.zero = (0, 0)
        self.one = (1, 0)
    def norm(self, a):
        if isinstance(a, int):
            return (a % self.p, 0)
        return (a[0] % self.p, a[1] % self.p)
    def add(self, a, b): return ((a[0] + b[0]) % self.p, (a[1] + b[1]) % self.p)
    def sub(self, a, b): return ((a[0] - b[0]) % self.p, (a[1] - b[1]) % self.p)
    def neg(self, a): return (-a[0] % self.p, -a[1] % self.p)
    def mul(self, a, b):
        return ((a[0] * b[0] + self.nr * a[1] * b[1]) % self.p, (a[0] * b[1] + a[1] * b[0]) % self.p)
    def inv(self, a):
        n = pow(a[0] * a[0] - self.nr * a[1] * a[1], -1, self.p)
        return (a[0] * n % self.p, -a[1] * n % self.p)
    def pow(self, a, e):
        r = self.one
        while e:
            if e & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            e >>= 1
        return r
    def is_zero(self, a): return a == (0, 0)
    def order(self): return self.p * self.p


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) + e
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('ring', 't', '_h')
    def __init__(self, ring, terms):
        self.ring = ring
        self.t = terms
        self._h = None

    @staticmethod
    def const(ring, c):
        c = ring.norm(c)
        return Poly(ring, {} if ring.is_zero(c) else {(): c})

    @staticmethod
    def var(ring, v, e=1):
        return Poly(ring, {((v, e),): ring.one})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_val(self):
        return self.t.get((), self.ring.zero)

    def __add__(self, o):
        r = self.ring
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        for m, c in b.items():
            x = d.get(m)
            if x is None:
                d[m] = c
            else:
                x = r.add(x, c)
                if r.is_zero(x):
                    del d[m]
                else:
                    d[m] = x
        return Poly(r, d)

    def __neg__(self):
        r = self.ring
        return Poly(r, {m: r.neg(c) for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        r = self.ring
        c = r.norm(c)
        if r.is_zero(c):
            return Poly(r, {})
        return Poly(r, {m: r.mul(x, c) for m, x in self.t.items()})

    def __mul__(self, o):
        r = self.ring
        if len(self.t) * len(o.t) > 2000000:
            raise TooLarge('polynomial too large')
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = r.mul(c1, c2)
                x = d.get(m)
                d[m] = c if x is None else r.add(x, c)
        return Poly(r, {m: c for m, c in d.items() if not r.is_zero(c)})

    def pow(self, e):
        r = self.ring
        if len(self.t) == 1 and self.t:
            (m, c), = self.t.items()
            return Poly(r, {tuple((v, k * e) for v, k in m): r.pow(c, e)}) if e else Poly.const(r, 1)
        if not self.t:
            return self if e else Poly.const(r, 1)
        out = Poly.const(r, 1)
        b = self
        while e:
            if e & 1:
                out = out * b
            e >>= 1
            if e:
                b = b * b
        return out

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def subst(self, env):
        """substitute variables by polynomials (non-negative exponents only)"""
        r = self.ring
        out = Poly(r, {})
        for m, c in self.t.items():
            t = Poly(r, {(): c})
            keep = []
            for v, e in m:
                if v in env:
                    q = env[v]
                    if e < 0:
                        if len(q.t) != 1:
                            raise ZeroDivisionError('inverse of a non-monomial')
                        (m2, c2), = q.t.items()
                        t = t * Poly(r, {tuple((w, k * e) for w, k in m2): r.pow(r.inv(c2), -e)})
                    else:
                        t = t * q.pow(e)
                else:
                    keep.append((v, e))
            out = out + t * Poly(r, {tuple(keep): r.one})
        return out

    def monic(self):
        """scale so that the leading (largest) monomial has coefficient one"""
        if not self.t:
            return self
        m = max(self.t)
        return self.scale(self.ring.inv(self.t[m]))

    def content(self):
        """the largest monomial dividing every term (handles negative exponents too)"""
        it = iter(self.t)
        g = dict(next(it))
        allv = set(g)
        for m in it:
            d = dict(m)
            allv |= set(d)
            for v in allv:
                g[v] = min(g.get(v, 0), d.get(v, 0))
        return tuple(sorted((v, e) for v, e in g.items() if e))

    def div_mono(self, m):
        inv = tuple((v, -e) for v, e in m)
        return Poly(self.ring, {mono_mul(k, inv): c for k, c in self.t.items()})

    def show(self, names=None, limit=8):
        names = names or (lambda v: str(v))
        if not self.t:
            return '0'
        s = []
        for m in sorted(self.t, reverse=True)[:limit]:
            c = self.t[m]
            cs = c
            if isinstance(c, int) and c > self.ring.p // 2:
                cs = c - self.ring.p
            if isinstance(cs, int) and abs(cs) > 10 ** 12:
                cs = hex(cs)[:14] + '..'
            ms = '*'.join(names(v) + (f'^{e}' if e != 1 else '') for v, e in m)
            s.append(f'{cs}*{ms}' if ms else f'{cs}')
        return ' + '.join(s) + (' + ...' if len(self.t) > limit else '')
