"""C15 prime-order subgroup: membership test, checked conversion, cofactor clearing"""
import math, random
from group import *
from c07 import run_items
from c06 import py_curve
import ecpy

OPS = ['clear_cof', 'torsion_free', 'into_sub']
x = pm.BLS_X
COFACTOR = {
    'bls_g1': (x - 1) ** 2 // 3,
    'bls_g2': (x**8 - 4 * x**7 + 5 * x**6 - 4 * x**4 + 6 * x**3 - 4 * x**2 - 4 * x + 13) // 9,
    'bn_g2': 2 * pm.bn_p - pm.bn_r,
    'pl_g2': 2 * pm.pluto_p - pm.pluto_q,
}


def sqrt_fp(p, a):
    """Tonelli-Shanks"""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    s, q = 0, p - 1
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) == 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


def fsqrt(F, a):
    if isinstance(F, ecpy.F1):
        return sqrt_fp(F.p, a)
    p, nr = F.p, F.nr
    a0, a1 = a
    if a1 == 0:
        r = sqrt_fp(p, a0)
        if r is not None:
            return (r, 0)
        r = sqrt_fp(p, a0 * pow(nr, -1, p))
        return None if r is None else (0, r)
    n = sqrt_fp(p, a0 * a0 - nr * a1 * a1)
    if n is None:
        return None
    for s in (n, -n):
        c = (a0 + s) * pow(2, -1, p) % p
        r = sqrt_fp(p, c)
        if r:
            o = (r, a1 * pow(2 * r, -1, p) % p)
            if F.mul(o, o) == F.c(a):
                return o
    return None


def rand_point(EC, rng):
    F = EC.F
    while True:
        X = F.c(rng.randrange(F.p)) if isinstance(F, ecpy.F1) else F.c((rng.randrange(F.p), rng.randrange(F.p)))
        y = fsqrt(F, F.add(F.add(F.mul(F.mul(X, X), X), F.mul(EC.a, X)), EC.b))
        if y is not None:
            return (X, y)


def small_factors(n, bound=200000):
    out, d = [], 2
    while d < bound and d * d <= n:
        if n % d == 0:
            out.append(d)
            while n % d == 0:
                n //= d
        d += 1 if d == 2 else 2
    return out


class Module:
    """E(F) as a module over Z[omega]: omega the map (z x, y), X^2 - t X + n its characteristic polynomial,
    delta an element of Z[omega] whose kernel is E(F)"""

    def __init__(self, mod):
        self.mod = mod
        self.EC, self.r = py_curve(mod)
        F = self.F = self.EC.F
        self.h = COFACTOR.get(mod, 1)
        self.N = self.h * self.r
        self.rng = random.Random(1)
        self.quad = isinstance(F, ecpy.F2)
        q = F.p ** 2 if self.quad else F.p
        assert (self.N - q - 1) ** 2 <= 4 * q, 'Hasse'
        self.P0 = rand_point(self.EC, self.rng)
        assert self.EC.mul(self.N, self.P0) is None, 'curve order'
        one = F.c(1)
        self.tab = {}
        if not F.zero(self.EC.a):
            self.tab[(0, one, one)] = (1, 0)
            self.tab[(0, one, F.sub(F.c(0), one))] = (-1, 0)
            self.t, self.n = 0, 1            # omega unused
            self.delta = (self.N, 0)
            self.lam = 0
            return
        self.t, self.n = -1, 1               # omega^2 + omega + 1 = 0
        cube = self.roots3()
        z = cube[1]
        om = (0, z, one)
        self.lam = self.eigen(om)
        mone = F.sub(F.c(0), one)
        units = [(1, 0), (0, 1), (-1, -1)]
        m = (0, one, one)
        for u in units:
            self.tab[m] = u
            self.tab[(0, m[1], mone)] = (-u[0], -u[1])
            m = self.comp(om, m)
        units += [(-a, -b) for a, b in units]
        p, r = F.p, self.r
        if not self.quad:
            # Frobenius pi = a + b omega of norm p acts as one on E(F)
            tr = p + 1 - self.N
            self.delta = self.of_trace(tr, 1)
            self.delta = (self.delta[0] - 1, self.delta[1])
        else:
            tr = {'bn_g2': p + 1 - r, 'pl_g2': p + 1 - r, 'bls_g2': pm.BLS_X + 1}[mod]
            # psi = (x, y) -> (al x^p, be y^p): al^3 = be^2, be^2 conj(b) = b, psi^2 - tr psi + p = 0
            be2 = F.mul(self.EC.b, F.inv(self.conj(self.EC.b)))
            be = fsqrt(F, be2)
            al0 = self.cuberoot(be2)
            T = self.sub_point()
            ok = []
            for al in [F.mul(al0, z) for z in cube]:
                for s in (be, F.sub(F.c(0), be)):
                    m = (1, al, s)
                    Q = self.app(m, T)
                    if self.EC.add(self.EC.add(self.app(m, Q), self.EC.neg(self.EC.mul(tr, Q))), self.EC.mul(p, T)) is None:
                        ok.append(m)
            psi, = ok
            # psi = a + b omega in the endomorphism ring Z[omega]
            lp = self.eigen_of(psi, tr, p)
            self.psi = self.of_trace(tr, lp)
            for m, u in list(self.tab.items()):
                if m[0] == 0:
                    self.tab[self.comp(m, psi)] = self.mulT(u, self.psi)
            assert len(self.tab) == 12
            # the p^2-Frobenius is psi^2 times a unit, and E(F) is the kernel of 1 - it
            ds = []
            for u in units:
                d = self.mulT(u, self.mulT(self.psi, self.psi))
                d = (1 - d[0], -d[1])
                if self.norm(d) == self.N and self.at_sub(d) == 0:
                    ds.append(d)
            self.delta, = ds
        assert self.norm(self.delta) == self.N, 'kernel size'

    def of_trace(self, tr, ev):
        """the element of Z[omega] with norm p and the trace, acting as ev on the subgroup"""
        p = self.F.p
        b = math.isqrt((4 * p - tr * tr) // 3)
        assert tr * tr + 3 * b * b == 4 * p
        for s in (b, -b):
            a = (tr + s) // 2                # trace of a + b omega is 2a - b
            if (a + s * self.lam - ev) % self.r == 0:
                return (a, s)
        raise AssertionError('Frobenius element')

    def eigen_of(self, m, t, n):
        T = self.sub_point()
        Q = self.app(m, T)
        r = self.r
        s = sqrt_fp(r, t * t - 4 * n)
        for c in (s, -s):
            l = (t + c) * pow(2, -1, r) % r
            if self.EC.mul(l, T) == Q:
                return l
        raise AssertionError('eigenvalue')

    def eigen(self, m): return self.eigen_of(m, self.t, self.n)

    def conj(self, c): return (c[0], -c[1] % self.F.p)

    def sub_point(self):
        while True:
            P = self.EC.mul(self.h, rand_point(self.EC, self.rng))
            if P is not None:
                return P

    def app(self, m, P):
        if P is None:
            return None
        F = self.F
        k, al, be = m
        X, Y = (self.conj(P[0]), self.conj(P[1])) if k else P
        return (F.mul(al, X), F.mul(be, Y))

    def comp(self, a, b):
        """a after b"""
        F = self.F
        s = self.conj if a[0] else (lambda c: c)
        return (a[0] ^ b[0], F.mul(a[1], s(b[1])), F.mul(a[2], s(b[2])))

    def roots3(self):
        F = self.F
        one = F.c(1)
        q = F.p ** 2 if self.quad else F.p
        if (q - 1) % 3:
            return [one]
        g = 2
        while True:
            z = ecpy.fpow(F, F.c((g, 1)) if self.quad else F.c(g), (q - 1) // 3)
            if z != one:
                return [one, z, F.mul(z, z)]
            g += 1

    def cuberoot(self, a):
        F = self.F
        q = F.p ** 2 if self.quad else F.p
        # a = c^3: find by Adleman-Manders-Miller for small 3-adic valuation: brute force over the 3-Sylow part
        s, m = 0, q - 1
        while m % 3 == 0:
            m //= 3
            s += 1
        k = pow(3, -1, m)
        c = ecpy.fpow(F, a, k)
        g = 2
        while True:
            z = ecpy.fpow(F, F.c((g, 1)) if self.quad else F.c(g), m)
            if ecpy.fpow(F, z, 3 ** (s - 1)) != F.c(1):
                break
            g += 1
        for i in range(3 ** s):
            if F.mul(c, F.mul(c, c)) == F.c(a):
                return c
            c = F.mul(c, z)
        raise AssertionError('cube root')

    # Z[omega]
    def mulT(self, a, b):
        # (a0 + a1 X)(b0 + b1 X), X^2 = t X - n
        h = a[1] * b[1]
        return (a[0] * b[0] - h * self.n, a[0] * b[1] + a[1] * b[0] + h * self.t)

    def conjT(self, a): return (a[0] + a[1] * self.t, -a[1])
    def norm(self, a): return a[0] * a[0] + a[0] * a[1] * self.t + a[1] * a[1] * self.n

    def combo(self, terms):
        """{map: coefficient} -> element of Z[omega]"""
        o = (0, 0)
        for m, c in terms.items():
            i = self.tab.get(m)
            if i is None:
                raise Bad(f'coordinate map {m} is not an endomorphism of the curve')
            o = (o[0] + c * i[0], o[1] + c * i[1])
        return o

    def kills_all(self, f):
        """f annihilates E(F)"""
        if f == (0, 0):
            return True
        if not any(v[1] for v in self.tab.values()):
            return f[0] % self.N == 0
        g = self.mulT(f, self.conjT(self.delta))
        return g[0] % self.N == 0 and g[1] % self.N == 0

    def at_sub(self, f): return (f[0] + f[1] * self.lam) % self.r

    def samples(self):
        EC = self.EC
        yield 'the identity', None
        for _ in range(3):
            yield 'a random point of the prime-order subgroup', self.sub_point()
        for _ in range(4):
            yield 'a random point of the whole curve', rand_point(EC, self.rng)
        for l in small_factors(self.h):
            k = self.N
            while k % l == 0:
                k //= l
            for _ in range(3):
                T = EC.mul(k, rand_point(EC, self.rng))
                while T is not None and EC.mul(l, T) is not None:
                    T = EC.mul(l, T)
                if T is not None:
                    yield f'a point of order {l}', T
                    yield f'a subgroup point plus a point of order {l}', EC.add(T, self.sub_point())
        if self.h > 1:
            T = EC.mul(self.r, rand_point(EC, self.rng))
            yield 'a random point of the cofactor torsion', T

    def eval(self, terms, P):
        o = None
        for m, c in terms.items():
            o = self.EC.add(o, self.EC.mul(c, self.app(m, P)))
        return o


def terms_of(c, p):
    """combination polynomial -> {map: integer}; every variable is an image of the one symbolic point"""
    out = {}
    for m, k in p.t.items():
        if len(m) != 1:
            raise Unsupported('not a linear combination of images of the point')
        v = m[0][0]
        i = c.gvars.info[v].get('pt')
        if i is None or i[0] != 'P':
            raise Unsupported('involves another point')
        out[i[1:]] = out.get(i[1:], 0) + k
    return out


_mods = {}
def module(mod):
    if mod not in _mods:
        _mods[mod] = Module(mod)
    return _mods[mod]


def membership(c, M, node, what):
    """node <=> r P = O"""
    e, D = c.eng, c.eng.bdd
    cls, tm = {}, {}
    for v in D.support(node):
        k = D.atoms[v]
        if k[0] != 'gz':
            raise Unsupported(f'{what}: condition {k}'[:200])
        t = tm[v] = terms_of(c, Poly(Z, dict(k[1])))
        f = M.combo(t)
        if M.kills_all(f):
            cls[v] = 1
        elif M.at_sub(f) == 0 and math.gcd(abs(M.norm(f)), M.N) == M.r:
            cls[v] = 'T'
        elif M.h > 1 and f[1] == 0 and math.gcd(f[0], M.N) == M.r:
            cls[v] = 'T'
    def ev(node, env):
        while node > 1:
            v, lo, hi = D.nodes[node]
            node = hi if env(v) else lo
        return node
    if all(v in cls for v in D.support(node)):
        t = ev(node, lambda v: True)
        f = ev(node, lambda v: cls[v] == 1)
        if t == 1 and (f == 0 or M.h == 1):
            return
        raise Bad(f'{what}: ' + ('rejects points of the prime-order subgroup' if t == 0 else 'accepts points outside the prime-order subgroup'))
    for nm, P in M.samples():
        want = M.EC.mul(M.r, P) is None
        got = ev(node, lambda v: M.eval(tm[v], P) is None)
        if bool(got) != want:
            raise Bad(f'{what}: the condition is {bool(got)} for {nm}, where membership is {want}')
    raise Unsupported(f'{what}: condition not decided')


def root(P, item, fid):
    mod, op = item
    c = GCtx(P, [mod])
    e = c.eng
    s = c.of[(mod, 'P')]
    pv = s.pt('P')
    fn = P.fns[fid]
    t = P.types[fn.locals[1]]
    r = e.call(fid, [e.ref(pv) if t.k == 'ref' else pv])
    no_panic(c, op)
    M = module(mod)
    if op == 'torsion_free':
        membership(c, M, e.bnode(choice(r)), 'is_torsion_free')
    elif op == 'into_sub':
        n = e.bnode(choice(r[1]))
        membership(c, M, n, 'into_subgroup')
        e.assume(n)
        c.same(r[0], pv, 'into_subgroup value')
    else:
        g = c.coerce(r, s)
        tm = terms_of(c, g.p)
        f = M.combo(tm)
        if M.at_sub(f) == 0:
            raise Bad('clear_cofactor sends the whole prime-order subgroup to the identity')
        if not M.kills_all((M.r * f[0], M.r * f[1])):
            for nm, Q in M.samples():
                if M.EC.mul(M.r, M.eval(tm, Q)) is not None:
                    raise Bad(f'clear_cofactor of {nm} is not in the prime-order subgroup')
            raise Unsupported('cofactor clearing not decided')
    return c


def main():
    chk = Check('C15', '', 'operations on points are combinations over the ring of coordinate endomorphisms; membership and clearing are decided by integer arithmetic in that ring',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'subtle behaves as documented', 'point operations form a group (C07, C08)',
                         'the published curve orders', 'the untwist-Frobenius-twist map has the characteristic polynomial X^2 - tX + p'])
    P = dump('C15', ['curve'])
    its = [((r, ('*',)), i) for r, i in sorted(P.roots.items()) if r.split('::')[-1] in OPS]
    if len(its) < 11 * len(OPS):
        print('probe roots missing')
        sys.exit(2)
    def fn(P, item, fid):
        mod, op = item[0].split('::')[-2:]
        return root(P, (mod, op), fid)
    run_items(P, chk, its, fn, 'membership and clearing with respect to the subgroup of order r')
    chk.finish()
