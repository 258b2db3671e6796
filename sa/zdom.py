"""Exact integers as polynomials over named unknowns, machine words as residue classes; questions the ranges do not settle
split the analysis (each run follows one list of answers)."""
from field import Dom
from engine import FE, B, G, Opq, Diverge, Unsupported, UNDEF


class Pol:
    """integer polynomial: {sorted tuple of unknowns: coefficient}"""
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __eq__(self, o): return isinstance(o, Pol) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __repr__(self):
        if not self.t:
            return '0'
        return ' + '.join((f'{c}*' if c != 1 or not m else '') + '*'.join(map(str, m)) if m else str(c) for m, c in list(self.t.items())[:8])[:200]

    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def cv(self): return self.t.get((), 0)
    def __add__(self, o): return self.axpy(o, 1)
    def __sub__(self, o): return self.axpy(o, -1)
    def __neg__(self): return self.scale(-1)

    def axpy(self, o, k):
        t = dict(self.t)
        for m, c in o.t.items():
            x = t.get(m, 0) + k * c
            if x:
                t[m] = x
            else:
                t.pop(m, None)
        return Pol(t)

    def scale(self, k): return Pol({m: c * k for m, c in self.t.items()} if k else {})

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                x = t.get(m, 0) + c1 * c2
                if x:
                    t[m] = x
                else:
                    t.pop(m, None)
        if len(t) > 5000:
            raise Unsupported('integer polynomial too large')
        return Pol(t)

    def atoms(self): return {a for m in self.t for a in m}
    def mod(self, k): return Pol({m: c % k for m, c in self.t.items() if c % k})


def con(c): return Pol({(): c} if c else {})
def var(a): return Pol({(a,): 1})


class Z:
    """an exactly known integer"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def __eq__(self, o): return isinstance(o, Z) and o.p == self.p
    def __hash__(self): return hash(('Z', self.p))
    def __repr__(self): return f'Z<{self.p!r}>'


class W:
    """a machine word known modulo 2^w"""
    __slots__ = ('p', 'w', 'signed')
    def __init__(self, p, w, signed): self.p = p; self.w = w; self.signed = signed
    def __eq__(self, o): return isinstance(o, W) and (o.p, o.w, o.signed) == (self.p, self.w, self.signed)
    def __hash__(self): return hash(('W', self.p, self.w))
    def __repr__(self): return f'W{self.w}<{self.p!r}>'


class A:
    __slots__ = ('id', 'name', 'lo', 'hi', 'mod', 'tf', 'div', 'odd', 'shr', 'op')


class Paths:
    """depth-first enumeration of the answers to undetermined questions"""
    def __init__(self):
        self.ans = []
        self.i = 0

    def ask(self):
        if self.i == len(self.ans):
            self.ans.append(0)
            if len(self.ans) > 400:
                raise Unsupported('too many undetermined questions on a path')
        self.i += 1
        return self.ans[self.i - 1]

    def next(self):
        while self.ans and self.ans[-1] == 1:
            self.ans.pop()
        if not self.ans:
            return False
        self.ans[-1] = 1
        self.i = 0
        return True


def explore(run, limit=4000):
    """run(paths) once per feasible combination of answers"""
    ps = Paths()
    n = 0
    while True:
        n += 1
        if n > limit:
            raise Unsupported('too many cases')
        try:
            run(ps)
        except Infeasible:
            pass
        if not ps.next():
            return n


class Infeasible(Exception):
    pass


class ZDom(Dom):
    def __init__(self, paths=None):
        super().__init__()
        self.paths = paths
        self.at = {}
        self.groups = []           # (a, b, N): |a| + |b| <= N
        self.facts = []            # (polynomial, k): divisible by 2^k
        self.cache = {}
        self.known = {}            # settled sign questions
        self.nonzero = set()
        self.log = []

    # ---- unknowns ------------------------------------------------------------------------------
    def atom(self, name, lo, hi, **kw):
        a = A()
        a.id = name if name not in self.at else f'{name}.{len(self.at)}'
        a.name, a.lo, a.hi = name, lo, hi
        a.mod, a.tf, a.div, a.odd = kw.get('mod'), kw.get('tf'), kw.get('div'), kw.get('odd', False)
        a.shr = None
        self.at[a.id] = a
        return Z(var(a.id))

    def poly(self, v):
        if type(v) is int:
            return con(v)
        if isinstance(v, (Z, W)):
            return v.p
        raise Unsupported(f'integer expected: {v!r}'[:160])

    def mk(self, p):
        p = self.fix(p)
        return p.cv() if p.is_const() else Z(p)

    def fix(self, p):
        """replace the unknowns whose value is settled"""
        s = [a for a in p.atoms() if self.at[a].lo == self.at[a].hi]
        for a in s:
            t = {}
            v = self.at[a].lo
            for m, c in p.t.items():
                n = m.count(a)
                m2 = tuple(x for x in m if x != a)
                x = t.get(m2, 0) + c * v ** n
                if x:
                    t[m2] = x
                else:
                    t.pop(m2, None)
            p = Pol(t)
        return p

    def iv(self, p):
        ats = p.atoms()
        gs = [g for g in self.groups if g[0] in ats or g[1] in ats]
        lin = []
        for a, b, n in gs:
            if all((m.count(a) + m.count(b)) <= 1 for m in p.t):
                lin.append((a, b, n))
        def go(i, env):
            if i == len(lin):
                return self.box(p, env)
            a, b, n = lin[i]
            r = [go(i + 1, {**env, a: x, b: y}) for x, y in ((n, 0), (-n, 0), (0, n), (0, -n))]
            return min(x[0] for x in r), max(x[1] for x in r)
        if len(lin) > 3:
            raise Unsupported('too many rows in one expression')
        lo, hi = go(0, {})
        l2, h2 = self.box(p, {})
        return max(lo, l2), min(hi, h2)

    def box(self, p, env):
        """interval of a polynomial; the terms are first collected by the unknowns left after the substitution"""
        t = {}
        for m, c in p.t.items():
            for x in m:
                if x in env:
                    c *= env[x]
            m = tuple(x for x in m if x not in env)
            t[m] = t.get(m, 0) + c
        lo = hi = 0
        for m, c in t.items():
            l = h = 1
            for x in set(m):
                a = self.at[x]
                for _ in range(m.count(x)):
                    q = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                    l, h = min(q), max(q)
                if m.count(x) % 2 == 0 and len(set(m)) == 1:
                    l = max(l, 0)
            q = (c * l, c * h)
            lo, hi = lo + min(q), hi + max(q)
        return lo, hi

    def l1(self, ps):
        """largest |p1| + |p2| + ..."""
        best = 0
        for k in range(1 << len(ps)):
            s = con(0)
            for i, p in enumerate(ps):
                s = s.axpy(p, -1 if k >> i & 1 else 1)
            best = max(best, self.iv(s)[1])
        return best

    # ---- residues ------------------------------------------------------------------------------
    def reduce(self, p, k):
        """p modulo 2^k with every residue definition that is precise enough unfolded"""
        M = 1 << k
        for _ in range(200):
            p = self.fix(p).mod(M)
            a = next((a for a in sorted(p.atoms(), key=lambda a: -len(str(a))) if self.at[a].mod and self.at[a].mod[0] >= k), None)
            if a is None:
                return p
            d = self.at[a].mod[1]
            out = con(0)
            for m, c in p.t.items():
                n = m.count(a)
                q = Pol({tuple(x for x in m if x != a): c})
                for _ in range(n):
                    q = q * d
                out = out + q
            p = out
        raise Unsupported('residue definitions')

    def divisible(self, p, k):
        """is p a multiple of 2^k for all values? True / False (a residue shows it is not) / None"""
        q = self.reduce(p, k)
        if not q.t:
            return True
        for f, j in self.facts:
            if j >= k:
                g = self.reduce(f, k)
                if g.t and (not (q - g).mod(1 << k).t or not (q + g).mod(1 << k).t):
                    return True
        if k > 10:
            return None
        base = set()
        def leaves(p):
            for a in p.atoms():
                x = self.at[a]
                if x.mod and x.mod[0] >= k:
                    leaves(x.mod[1])
                elif x.tf:
                    for y in x.tf[1]:
                        leaves(y)
                elif x.mod or x.div:
                    raise Unsupported('residues of a derived value')
                else:
                    base.add(a)
        leaves(q)
        base = sorted(base)
        n = 1
        doms = []
        for a in base:
            d = [v for v in range(1 << k) if not self.at[a].odd or v & 1]
            doms.append(d)
            n *= len(d)
        if n > 70000:
            return None
        import itertools
        for vs in itertools.product(*doms):
            if self.eval(q, dict(zip(base, vs)), k):
                self.witness = dict(zip(base, vs))
                return False
        return True

    def eval(self, p, env, k):
        M = (1 << k) - 1
        r = 0
        for m, c in p.t.items():
            for a in m:
                if a not in env:
                    x = self.at[a]
                    if x.mod and x.mod[0] >= k:
                        env[a] = self.eval(x.mod[1], env, k)
                    elif x.tf:
                        env[a] = x.tf[0](*[self.eval(y, env, k) for y in x.tf[1]]) & M
                    else:
                        raise Unsupported('residue of an unknown')
                c = c * env[a] & M
            r += c
        return r & M

    def bits_at(self, p, env, k):
        """p modulo 2^k for base unknowns given modulo env[a] = (value, bits known)"""
        M = (1 << k) - 1
        r = 0
        for m, c in self.fix(p).t.items():
            for a in m:
                x = self.at[a]
                if a in env:
                    if env[a][1] < k:
                        # a multiple of 2^j needs j fewer bits
                        j = (c & -c).bit_length() - 1
                        if env[a][1] < k - j:
                            raise Unsupported('more bits of a variable matter than are tracked')
                    v = env[a][0]
                elif x.mod and x.mod[0] >= k:
                    v = self.bits_at(x.mod[1], env, k)
                elif x.mod and x.name == 'low':
                    v = self.bits_at(x.mod[1], env, x.mod[0])
                elif x.tf:
                    if any(q.is_const() and k > 8 for q in x.tf[1]) and all(q.is_const() and 0 <= q.cv() < 256 or not q.is_const() for q in x.tf[1]) and x.name == 'bits' and x.op == 'BitAnd':
                        v = x.tf[0](*[self.bits_at(q, env, 8) if not q.is_const() else q.cv() for q in x.tf[1]])
                    else:
                        v = x.tf[0](*[self.bits_at(q, env, k) for q in x.tf[1]])
                elif x.shr:
                    v = self.bits_at(x.shr[1], env, k + x.shr[0]) >> x.shr[0]
                else:
                    raise Unsupported('bits of an unknown')
                c = c * v
            r += c
        return r & M

    def parity(self, p):
        """1 / 0 when every value of p is odd / even, else None"""
        odd = 0
        q = self.reduce(p, 1)
        for m, c in q.t.items():
            if all(self.at[a].odd for a in m):
                odd ^= c & 1
            else:
                return None
        return odd

    # ---- questions -----------------------------------------------------------------------------
    def ask(self, what):
        if self.paths is None:
            raise Unsupported('undetermined: ' + what)
        r = self.paths.ask()
        self.log.append(what + (' yes' if r else ' no'))
        return r

    def lt0(self, p):
        """p < 0 ?"""
        p = self.fix(p)
        lo, hi = self.iv(p)
        if lo >= 0:
            return 0
        if hi < 0:
            return 1
        if p in self.known:
            return self.known[p]
        n = con(-1) - p
        if n in self.known:
            return 1 - self.known[n]
        r = self.ask(f'{p!r} < 0')
        self.known[p] = r
        s = self.single(p)
        if s:
            a, c, k = s                 # c a + k
            x = self.at[a]
            if (c > 0) == bool(r):      # upper bound: c a + k <= -1, or -|c| a + k >= 0
                b = (-1 - k) // c if r else k // -c
                x.hi = min(x.hi, b)
            else:
                b = -((k + 1) // c) if r else -(k // c)
                if r:                   # -|c| a <= -1 - k  =>  a >= (1 + k) / |c|
                    b = -(-(1 + k) // -c)
                x.lo = max(x.lo, b)
            if x.lo > x.hi:
                raise Infeasible()
        return r

    def single(self, p):
        """(a, c, k) when p = c a + k"""
        t = {m: c for m, c in p.t.items() if m}
        if len(t) == 1:
            (m, c), = t.items()
            if len(m) == 1:
                return m[0], c, p.cv()
        return None

    def eq0(self, p):
        p = self.fix(p)
        lo, hi = self.iv(p)
        if lo > 0 or hi < 0:
            return 0
        if not p.t:
            return 1
        if p in self.nonzero or -p in self.nonzero:
            return 0
        s = self.single(p)
        if s and s[2] % s[1]:
            return 0
        r = self.ask(f'{p!r} = 0')
        if r:
            if not s:
                raise Unsupported('equation between several unknowns')
            x = self.at[s[0]]
            x.lo = x.hi = -s[2] // s[1]
        else:
            self.nonzero.add(p)
            if s and abs(s[1]) == 1:
                x, v = self.at[s[0]], -s[2] // s[1]
                if x.lo == v:
                    x.lo += 1
                if x.hi == v:
                    x.hi -= 1
                if x.lo > x.hi:
                    raise Infeasible()
        return r

    def pick(self, v):
        """settle a small integer"""
        if type(v) is int:
            return v
        lo, hi = self.iv(v.p)
        if hi - lo > 130:
            raise Unsupported('undetermined shift amount')
        for x in range(lo, hi):
            if self.eq0(v.p - con(x)):
                return x
        p = self.fix(v.p)
        return p.cv() if p.is_const() else self.last(v.p, hi)

    def last(self, p, hi):
        s = self.single(p)
        if not s:
            raise Unsupported('undetermined shift amount')
        x = self.at[s[0]]
        x.lo = x.hi = (hi - s[2]) // s[1]
        return hi

    # ---- words ---------------------------------------------------------------------------------
    def fit(self, p, t):
        if t is None or not t.bits:
            raise Unsupported('integer of unknown width')
        p = self.fix(p)
        lo, hi = self.iv(p)
        a, b = self.limits(t)
        if a <= lo and hi <= b:
            return self.mk(p)
        return self.word(p, t.bits, t.signed)

    def limits(self, t):
        return (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)

    def word(self, p, w, signed):
        p = p.mod(1 << w)
        if p.is_const():
            v = p.cv()
            return v - (1 << w) if signed and v >> (w - 1) else v
        return W(p, w, signed)

    def value(self, v):
        """the exact value of a word, as a fresh unknown"""
        if not isinstance(v, W):
            return v
        k = ('val', v)
        if k not in self.cache:
            lo, hi = (-(1 << (v.w - 1)), (1 << (v.w - 1)) - 1) if v.signed else (0, (1 << v.w) - 1)
            self.cache[k] = self.atom('val', lo, hi, mod=(v.w, v.p))
        return self.cache[k]

    def low(self, v, k):
        """v modulo 2^k as an exact non-negative integer"""
        if type(v) is int:
            return v & ((1 << k) - 1)
        if isinstance(v, W) and v.w < k:
            raise Unsupported('low bits of a narrow word')
        p = v.p
        if isinstance(v, Z):
            lo, hi = self.iv(p)
            if lo >= 0 and hi < 1 << k:
                return v
        q = p.mod(1 << k)
        if q.is_const():
            return q.cv()
        key = ('low', q, k)
        if key not in self.cache:
            self.cache[key] = self.atom('low', 0, (1 << k) - 1, mod=(k, q))
        return self.mk(self.cache[key].p)

    def shr(self, v, k):
        p = self.fix(self.poly(v))
        if all(c % (1 << k) == 0 for c in p.t.values()):
            return self.mk(Pol({m: c >> k for m, c in p.t.items()}))
        key = ('fl', p, k)
        if key not in self.cache:
            lo, hi = self.iv(p)
            self.cache[key] = self.atom('fl', lo >> k, hi >> k)
            self.at[self.cache[key].p.atoms().copy().pop()].shr = (k, p)
        return self.mk(self.cache[key].p)

    # ---- engine interface ----------------------------------------------------------------------
    def nb(self, v):
        return v if type(v) is int or isinstance(v, (Z, W)) else None

    def binop(self, eng, op, a, b, t, t2):
        if self.nb(a) is None or self.nb(b) is None:
            raise Unsupported(f'{op} on {a!r}, {b!r}'[:300])
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            p, q = self.poly(a), self.poly(b)
            r = p + q if op[0] == 'A' else p - q if op[0] == 'S' else p * q
            if isinstance(a, W) or isinstance(b, W):
                return self.word(r, t.bits, t.signed)
            return self.fit(r, t)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            p, q = self.poly(self.value(a)), self.poly(self.value(b))
            if op in ('Eq', 'Ne'):
                return self.eq0(p - q) ^ (op == 'Ne')
            if op == 'Lt':
                return self.lt0(p - q)
            if op == 'Gt':
                return self.lt0(q - p)
            if op == 'Le':
                return 1 - self.lt0(q - p)
            return 1 - self.lt0(p - q)
        if op in ('Shl', 'ShlUnchecked'):
            k = self.pick(b)
            if not 0 <= k < t.bits:
                raise Unsupported('shift out of range')
            if type(a) is int:
                return eng.ibin('Shl', a, k, t, t2)
            r = self.poly(a).scale(1 << k)
            return self.word(r, t.bits, t.signed) if isinstance(a, W) else self.fit(r, t)
        if op in ('Shr', 'ShrUnchecked'):
            k = self.pick(b)
            if not 0 <= k < t.bits:
                raise Unsupported('shift out of range')
            if type(a) is int:
                return eng.ibin('Shr', a, k, t, t2)
            return self.shr(self.value(a), k)
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if type(x) is int and x >= 0 and x & (x + 1) == 0:
                    return self.low(y, x.bit_length()) if x else 0
                if x == -1:
                    return y
        if op == 'BitAnd' and t.bits:
            for x, y in ((a, b), (b, a)):
                if type(x) is int:
                    c = x % (1 << t.bits)
                    k = (c & -c).bit_length() - 1
                    if c and c + (1 << k) == 1 << t.bits:
                        # everything but the low k bits
                        v = self.low(y, k)
                        r = self.poly(y) - self.poly(v)
                        return self.word(r, t.bits, t.signed) if isinstance(y, W) else self.fit(r, t)
        if op == 'BitOr' and t.bits:
            for x, y in ((a, b), (b, a)):
                if x == 0:
                    return y
                if type(y) is int or isinstance(y, Z):
                    lo, hi = self.iv(self.poly(y))
                    k = hi.bit_length()
                    if lo >= 0 and k <= 64 and not self.reduce(self.poly(x), k).t:
                        r = self.poly(x) + self.poly(y)
                        return self.word(r, t.bits, t.signed) if isinstance(x, W) else self.fit(r, t)
        if op in ('BitXor', 'BitAnd', 'BitOr'):
            f = {'BitXor': lambda x, y: x ^ y, 'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y}[op]
            p, q = self.poly(a).mod(1 << t.bits), self.poly(b).mod(1 << t.bits)
            key = (op, p, q)
            if key not in self.cache:
                self.cache[key] = self.atom('bits', 0, (1 << t.bits) - 1, tf=(f, (p, q)))
                self.at[next(iter(self.cache[key].p.atoms()))].op = op
            return W(self.cache[key].p, t.bits, t.signed)
        raise Unsupported(f'{op} on {a!r}, {b!r}'[:300])

    def unop(self, eng, op, a, t):
        if op == 'Neg':
            return self.word(-a.p, t.bits, t.signed) if isinstance(a, W) else self.fit(-a.p, t)
        if op == 'Not' and t.bits:
            p = con(-1) - a.p
            if isinstance(a, W) or not t.signed:
                return self.word(p, t.bits, t.signed)
            return self.fit(p, t)
        raise Unsupported(f'{op} on {a!r}'[:300])

    def checked(self, eng, op, a, b, t):
        if self.nb(a) is None or self.nb(b) is None:
            raise Unsupported(f'checked {op} on {a!r}, {b!r}'[:300])
        p, q = self.poly(self.value(a)), self.poly(self.value(b))
        r = {'Add': lambda: p + q, 'Sub': lambda: p - q, 'Mul': lambda: p * q}[op]()
        lo, hi = self.iv(self.fix(r))
        a0, b0 = self.limits(t)
        if a0 <= lo and hi <= b0:
            return (self.mk(r), 0)
        raise Overflow(f'{op} may overflow: {lo}..{hi}')

    def int_cast(self, eng, v, ft, tt):
        if tt.k == 'bool':
            return v
        if isinstance(v, W):
            if tt.bits <= v.w:
                return self.word(v.p, tt.bits, tt.signed)
            v = self.value(v)
        return self.fit(v.p, tt)

    def tz(self, v, bits):
        """trailing zeros"""
        p = self.fix(v.p)
        c = min((x & -x).bit_length() - 1 for x in p.t.values())
        q = Pol({m: x >> c for m, x in p.t.items()})
        if self.parity(q) == 1:
            return c
        key = ('tz', p)
        if key not in self.cache:
            self.cache[key] = self.atom('tz', c, bits)
        return self.mk(self.cache[key].p)


class Overflow(Unsupported):
    pass
