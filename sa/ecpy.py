"""Plain integer arithmetic on short Weierstrass curves over Fp and Fp2 (reference side of the checks)."""


class F1:
    def __init__(self, p): self.p = p
    def c(self, x): return x % self.p
    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def mul(self, a, b): return a * b % self.p
    def inv(self, a): return pow(a, -1, self.p)
    def zero(self, a): return a % self.p == 0


class F2:
    def __init__(self, p, nr): self.p = p; self.nr = nr
    def c(self, x): return (x[0] % self.p, x[1] % self.p) if isinstance(x, tuple) else (x % self.p, 0)
    def add(self, a, b): return ((a[0] + b[0]) % self.p, (a[1] + b[1]) % self.p)
    def sub(self, a, b): return ((a[0] - b[0]) % self.p, (a[1] - b[1]) % self.p)
    def mul(self, a, b):
        return ((a[0] * b[0] + self.nr * a[1] * b[1]) % self.p, (a[0] * b[1] + a[1] * b[0]) % self.p)
    def inv(self, a):
        n = pow(a[0] * a[0] - self.nr * a[1] * a[1], -1, self.p)
        return (a[0] * n % self.p, -a[1] * n % self.p)
    def zero(self, a): return a[0] % self.p == 0 and a[1] % self.p == 0


def fpow(F, a, k):
    r = F.c(1)
    while k:
        if k & 1:
            r = F.mul(r, a)
        a = F.mul(a, a)
        k >>= 1
    return r


class Curve:
    def __init__(self, F, a, b):
        self.F, self.a, self.b = F, F.c(a), F.c(b)

    def on(self, P):
        if P is None:
            return True
        F = self.F
        x, y = P
        return F.mul(y, y) == F.add(F.add(F.mul(F.mul(x, x), x), F.mul(self.a, x)), self.b)

    def add(self, P, Q):
        F = self.F
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or F.zero(P[1]):
                return None
            l = F.mul(F.add(F.mul(F.c(3), F.mul(P[0], P[0])), self.a), F.inv(F.add(P[1], P[1])))
        else:
            l = F.mul(F.sub(Q[1], P[1]), F.inv(F.sub(Q[0], P[0])))
        x = F.sub(F.sub(F.mul(l, l), P[0]), Q[0])
        return (x, F.sub(F.mul(l, F.sub(P[0], x)), P[1]))

    def neg(self, P):
        return None if P is None else (P[0], self.F.sub(self.F.c(0), P[1]))

    def mul(self, k, P):
        if k < 0:
            return self.mul(-k, self.neg(P))
        R = None
        for b in bin(k)[2:]:
            R = self.add(R, R)
            if b == '1':
                R = self.add(R, P)
        return R
