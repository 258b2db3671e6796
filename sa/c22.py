"""C22 square roots: monomial domain.  A non-zero argument is c * w^2 for a symbolic non-zero w and a constant c (one, or
a fixed non-square); every value of the computation is a constant times a product of powers of a few symbols with known
relations (the group order, the defining relation of each root taken, the Frobenius of 1 + a for a of norm one)."""
from lib import *
from field import *
from summ import install
from c04 import TowerDom, Bad, no_panic, choice, run_items
from codec import split_name
import params as pm, math


class Need(Exception):
    pass


class Sys:
    """the symbols, their relations and the assumptions of one case"""
    def __init__(self, ring, p, quad, answers):
        self.r, self.p, self.quad = ring, p, quad
        self.order = p * p - 1 if quad else p - 1
        self.rel = {'w': (self.order, Mono(self, ring.one, {}))}        # symbol: (m, value of symbol^m)
        self.rank = ['w']                # relations of a symbol involve earlier symbols only
        self.answers, self.asked = answers, []
        self.neq = []

    def const(self, c):
        return Mono(self, self.r.norm(c), {})

    def fresh(self, nm, m, val):
        self.rel[nm] = (m, val)
        self.rank.append(nm)
        return Mono(self, self.r.one, {nm: 1})

    def nf(self, x):
        c, e = x.c, dict(x.e)
        for s in reversed(self.rank):
            k = e.get(s, 0)
            m, v = self.rel[s]
            if not 0 <= k < m:
                q, k = divmod(k, m)
                c = self.r.mul(c, self.r.pow(v.c, q % self.order))
                for t, j in v.e.items():
                    e[t] = e.get(t, 0) + j * q
            e[s] = k
        return Mono(self, c, {s: k for s, k in e.items() if k})

    def equal(self, a, b):
        za, zb = a.is_zero(), b.is_zero()
        if za or zb:
            return za and zb
        return self.is_one(a.div(b))

    def same(self, a, b):
        d = self.nf(a.div(b))
        return not d.e and d.c == self.r.one

    def is_one(self, d):
        d = self.nf(d)
        if not d.e:
            return d.c == self.r.one
        if any(d.c == x.c and d.e == x.e for x in self.neq):
            return False
        if set(d.e) != {'w'}:
            raise Unsupported(f'comparison {d!r} = 1')
        k = d.e['w']
        m, v = self.rel['w']
        # w^k = 1/c, given w^m = v, means w^g = h with g = gcd(k, m)
        r = self.r
        ci = r.inv(d.c)
        g, a, b = egcd(k, m)
        h = r.mul(r.pow(ci, a % self.order), r.pow(v.c, b % self.order))
        if r.pow(h, k // g) != ci or r.pow(h, m // g) != v.c or r.pow(h, self.order // g) != r.one:
            return False                # no element satisfies it
        old = self.rel['w']
        self.rel['w'] = (g, self.const(h))
        clash = any(not y.e and y.c == r.one for y in map(self.nf, self.neq))
        self.rel['w'] = old
        if g == m and not clash:
            return True
        if clash:
            return False
        i = len(self.asked)
        if i >= len(self.answers):
            raise Need(i)
        ans = self.answers[i]
        self.asked.append((repr(d), ans))
        if ans:
            self.rel['w'] = (g, self.const(h))
        elif m == 2 * g:                # w^g is the other root of its square
            self.rel['w'] = (g, self.const(r.neg(h)))
        else:
            self.neq.append(d)
        return ans

    def feasible(self):
        """some w satisfies the relation and none of the exclusions"""
        m = self.rel['w'][0]
        return sum(math.gcd(y.e.get('w', 0), m) for y in map(self.nf, self.neq) if y.e) < m


def egcd(a, b):
    x, y, u, v = 1, 0, 0, 1
    while b:
        q = a // b
        a, b, x, u, y, v = b, a - q * b, u, x - q * u, v, y - q * v
    return a, x, y


class Mono:
    __slots__ = ('s', 'c', 'e')

    def __init__(self, s, c, e):
        self.s, self.c, self.e = s, c, e
    def is_zero(self): return self.s.r.is_zero(self.c)
    def is_const(self): return not self.e
    def const_val(self): return self.c
    def __repr__(self):
        return f'{self.c if not isinstance(self.c, int) or self.c < 100 else "c"}' + ''.join(f' {s}^{k}' for s, k in self.e.items())
    def __mul__(self, o):
        if isinstance(o, Comp):
            return o * self
        if self.is_zero() or o.is_zero():
            return self.s.const(0)
        e = dict(self.e)
        for s, k in o.e.items():
            e[s] = e.get(s, 0) + k
        return self.s.nf(Mono(self.s, self.s.r.mul(self.c, o.c), e))
    def pow(self, k):
        if self.is_zero():
            return self.s.const(0 if k else 1)
        return self.s.nf(Mono(self.s, self.s.r.pow(self.c, k % self.s.order), {s: j * k for s, j in self.e.items()}))
    def div(self, o):
        return self * Mono(self.s, self.s.r.inv(o.c), {s: -k for s, k in o.e.items()})
    def __neg__(self): return Mono(self.s, self.s.r.neg(self.c), self.e)
    def scale(self, c):
        return self * self.s.const(c)
    def __add__(self, o):
        s = self.s
        if self.is_zero():
            return o
        if o.is_zero():
            return self
        d = s.nf(o.div(self))
        if not d.e:
            c = s.r.add(s.r.one, d.c)
            return s.const(0) if s.r.is_zero(c) else Mono(s, s.r.mul(self.c, c), self.e)
        # a + b = b (1 + a/b): the sum is a fresh symbol when a/b has norm one and is not -1
        if not s.quad:
            raise Unsupported('sum of field elements')
        a = self.div(o)
        if s.nf(a.pow(s.p + 1)).e or a.pow(s.p + 1).c != s.r.one:
            raise Unsupported('sum of field elements')
        if s.is_one(-a):
            return s.const(0)
        nm = 'u%d' % len(s.rank)
        u = s.fresh(nm, s.p - 1, s.const(1).div(a))      # (1 + a)^p = 1 + 1/a = (1 + a)/a
        return u * o
    def __sub__(self, o):
        return self + (-o)


class Comp:
    """coefficient i of an extension element, times an element of the base field"""
    __slots__ = ('s', 'par', 'i', 'fac')

    def __init__(self, par, i, fac):
        self.s, self.par, self.i, self.fac = par.s, par, i, fac
    def is_zero(self): raise Unsupported('zero test of a coefficient')
    def is_const(self): return False
    def __mul__(self, o):
        if isinstance(o, Comp):
            raise Unsupported('product of coefficients')
        return o if o.is_zero() else Comp(self.par, self.i, self.fac * o)
    def __neg__(self): return Comp(self.par, self.i, -self.fac)
    def bad(self, *a): raise Unsupported('arithmetic on coefficients')
    pow = div = __add__ = __sub__ = bad
    def __repr__(self): return f'coefficient {self.i} of {self.par!r} times {self.fac!r}'


class MSpec(FSpec):
    """base (or only) field"""
    def __init__(self, name, short, p, limbs, sys):
        super().__init__(name, short, p, limbs, Vars())
        self.sys = sys
    def const(self, c):
        return FE(self, self.sys.const(c))
    def decode(self, eng, hx):
        if '_' in hx:
            return UNDEF
        raw = int.from_bytes(bytes.fromhex(hx), 'little')
        return self.const(raw * self.Rinv % self.p)
    def project(self, eng, v, e):
        raise Unsupported('limbs of a symbolic element')
    def show(self, p): return repr(p)


class MQSpec(MSpec):
    def __init__(self, name, short, base, sys):
        super().__init__(name, short, base.p, base.n, sys)
        self.base, self.quad = base, True
    def decode(self, eng, hx):
        if '_' in hx:
            return UNDEF
        h = len(hx) // 2
        return self.build(eng, [self.base.decode(eng, hx[:h]), self.base.decode(eng, hx[h:])])
    def in_base(self, m):
        d = m.pow(self.p - 1)
        return not d.e and d.c == self.ring_one()
    def ring_one(self): return self.sys.r.one
    def project(self, eng, v, e):
        m = v.p
        if m.is_const():
            return FE(self.base, self.sys.const((m.c[e], 0)))
        if self.in_base(m):
            return FE(self.base, m) if e == 0 else self.base.const(0)
        return FE(self.base, Comp(m, e, self.sys.const(1)))
    def build(self, eng, vals):
        vals = tuple(vals)
        if not all(isinstance(x, FE) for x in vals):
            return UNDEF if any(x is UNDEF for x in vals) else vals
        a, b = vals[0].p, vals[1].p
        if isinstance(a, Mono) and isinstance(b, Mono):
            if b.is_zero():
                return FE(self, a)
            if a.is_zero():
                return FE(self, b * self.sys.const((0, 1)))
            if a.is_const() and b.is_const():
                return FE(self, self.sys.const((a.c[0], b.c[0])))
        if isinstance(a, Comp) and isinstance(b, Comp) and (a.i, b.i) == (0, 1) and self.sys.same(a.par, b.par) and self.sys.same(a.fac, b.fac):
            return FE(self, a.par * a.fac)
        return vals
    def store(self, eng, v, path, x):
        if len(path) != 1:
            raise Unsupported('limb store')
        c = [self.project(eng, v, 0), self.project(eng, v, 1)]
        c[path[0]] = x
        return self.build(eng, c)


class MOps(Ops):
    def is_zero(self, a): return int(self._fe(a).p.is_zero())
    def eq(self, a, b): return int(a.f.sys.equal(self._fe(a).p, self._fe(b).p))
    def invert(self, a):
        z = self._fe(a).p.is_zero()
        return (a if z else FE(a.f, a.f.sys.const(1).div(a.p)), (int(not z),))
    def fix(self, f):
        """operands stored coefficient by coefficient are put together first"""
        def g(*a):
            a = list(a)
            for i, x in enumerate(a):
                if isinstance(x, tuple):
                    a[i] = self.q.build(self.e, x)
            return f(*a)
        return g


class MCtx:
    def __init__(self, P, name, answers):
        self.P = P
        for t in P.types:
            t.fe = None
        self.eng = e = Engine(P, dom=TowerDom())
        quad = '<' in name
        base = name[name.index('<') + 1:-1] if quad else name
        short, p, n = pm.FIELDS[base]
        nr = [v[1] for v in pm.TOWERS.values() if v[0] == base] if quad else None
        from poly import PrimeRing, QuadRing
        self.sys = Sys(QuadRing(p, nr[0]) if quad else PrimeRing(p), p, quad, answers)
        self.p, self.quad = p, quad
        specs = {base: MSpec(base, short, p, n, self.sys)}
        if quad:
            specs[name] = MQSpec(name, short + '2', specs[base], self.sys)
        self.specs = specs
        self.T = specs[name]
        e.type_fe = lambda t: specs.get(t.s)
        self.ops = MOps(e)
        for k in ('add', 'sub', 'mul', 'neg', 'dbl', 'sqr', 'cube', 'is_zero', 'eq', 'invert'):
            setattr(self.ops, k, self.ops.fix(getattr(self.ops, k)))
        self.ops.q = self.T
        self.roots = 0
        self.install(base, name, quad)
        self.used = field_summaries(e, specs, self.ops)
        install(e)

    def root_of(self, x):
        """a square root in the (base) field and whether there is one"""
        s = self.sys
        if isinstance(x.p, Comp):
            raise Unsupported('square root of a coefficient')
        if x.p.is_zero():
            return x, 1
        if not s.is_one(x.p.pow((self.p - 1) // 2)):
            return x, 0
        self.roots += 1
        if x.p.is_const():
            self.unknown = True
        return FE(x.f, s.fresh('r%d' % len(s.rank), 2, x.p)), 1

    def install(self, base, name, quad):
        e = self.eng
        def ts(e, fn, a):
            """ff's Tonelli-Shanks routine, documented for p = 1 mod 16 with the second argument (t - 1)/2"""
            p = self.p
            t = p - 1
            while t % 2 == 0:
                t //= 2
            if p % 16 != 1:
                raise Bad('the Tonelli-Shanks routine is used for a modulus that is not 1 mod 16')
            ls = e.leaves(a[1])
            if any(type(l) is not int for l in ls):
                raise Unsupported('exponent')
            v = sum(l << (64 * i) for i, l in enumerate(ls))
            if v != (t - 1) // 2:
                raise Bad(f'the exponent passed to the Tonelli-Shanks routine is {hex(v)}, not (t - 1)/2 = {hex((t - 1) // 2)}')
            r, ok = self.root_of(e.load(a[0]))
            return (r, (ok,))
        def bsqrt(e, fn, a):
            r, ok = self.root_of(e.load(a[0]))
            return (r, (ok,))
        def frob(e, fn, a):
            x = e.load(a[0])
            if isinstance(x, tuple):
                x = self.T.build(e, x)
            k = a[1]
            if type(k) is not int:
                raise Unsupported('Frobenius power')
            if k % 2:
                e.store(a[0], FE(x.f, x.p.pow(self.p)))
            return ()
        def conj(e, fn, a):
            return frob(e, fn, [a[0], 1])
        cache = {}
        def find(fn):
            n = fn.name
            if n.startswith('ff::helpers::sqrt_tonelli_shanks::<'):
                return ts if n.startswith(f'ff::helpers::sqrt_tonelli_shanks::<{base},') else None
            if not quad:
                return None
            m = n.split('::')[-1]
            if m == 'sqrt' and n == f'<{base} as ff::Field>::sqrt':
                return bsqrt
            if m == 'sqrt':
                r = split_name(n, [base])
                return bsqrt if r is not None and r[1] == 'Field' else None
            r = split_name(n, [name])
            if r is not None and r[3] in ('frobenius_map', 'conjugate'):
                return frob if r[3] == 'frobenius_map' else conj
            return None
        def pred(fn):
            if fn.id not in cache:
                cache[fn.id] = find(fn)
            return cache[fn.id] is not None
        e.prefix_summaries.append((pred, lambda e, fn, a: cache[fn.id](e, fn, a)))

    def nonsquare(self):
        r = self.sys.r
        k = 1
        while True:
            k += 1
            c = r.norm((k, 1) if self.quad else k)
            if r.pow(c, self.sys.order // 2) != r.one:
                return c


FIELDT = {'bn_fq': 'bn256::Fq', 'bn_fr': 'bn256::Fr', 'bls_fq': 'bls12381::Fq', 'bls_fr': 'bls12381::Fr', 'pl_fp': 'pluto_eris::Fp',
          'pl_fq': 'pluto_eris::Fq', 'k1_fp': 'secp256k1::Fp', 'k1_fq': 'secp256k1::Fq', 'r1_fp': 'secp256r1::Fp', 'r1_fq': 'secp256r1::Fq',
          'bn_fq2': 'bn256::Fq', 'bls_fq2': 'bls12381::Fq', 'pl_fp2': 'pluto_eris::Fp'}


def cases(P, mod, fn):
    """run fn(ctx) for every combination of answers to the comparisons that the case leaves open"""
    name = 'halo2curves::' + FIELDT[mod]
    if mod.endswith('2'):
        name = pm.Q % name
    todo = [()]
    n = 0
    while todo:
        ans = todo.pop()
        c = MCtx(P, name, ans)
        try:
            fn(c)
            n += 1
        except Need:
            todo += [ans + (True,), ans + (False,)]
            if len(ans) > 6:
                raise Unsupported('too many cases')
        except Bad as x:
            if not c.sys.feasible():
                raise Unsupported(f'{x}, in a case that may be empty')
            raise Bad(f'{x}' + (f' (when {"; ".join(q + (" = 1" if t else " is not 1") for q, t in c.sys.asked)})' if c.sys.asked else ''))
    if not n:
        raise Unsupported('no case')
    return c


def sqrt(P, mod, op, case, fid):
    def one(c):
        s, e = c.sys, c.eng
        w = Mono(s, s.r.one, {'w': 1})
        n = c.nonsquare()
        x = {'zero': s.const(0), 'square': w * w, 'nonsquare': w * w * s.const(n)}[case]
        if op == 'sqrt_ratio':
            d = s.fresh('d', s.order, s.const(1))
            x, y = x * d, x
            ret = e.call(fid, [e.ref(FE(c.T, x)), e.ref(FE(c.T, d))])
            want = y
        elif op == 'ratio_zero':
            ret = e.call(fid, [e.ref(FE(c.T, x)), e.ref(c.T.const(0))])
            want = None
        else:
            ret = e.call(fid, [e.ref(FE(c.T, x))])
            want = x
        no_panic(c, 'square root')
        if op == 'sqrt':
            r, ok = ret[0], choice(ret[1])
        else:
            ok, r = choice(ret[0]), ret[1]
        if isinstance(r, tuple):
            r = c.T.build(e, r)
        if type(ok) is not int:
            raise Unsupported('undetermined outcome')
        if op == 'ratio_zero':
            if ok != int(case == 'zero') or not r.p.is_zero():
                raise Bad(f'the ratio of {"zero" if case == "zero" else "a non-zero element"} and zero gives ({ok}, {r.p!r})')
            return
        want_ok = int(case != 'nonsquare')
        if ok != want_ok:
            raise Bad(f'a {case + " element" if case != "zero" else "zero"} is reported as {"a square" if ok else "having no square root"}')
        if op == 'sqrt' and not ok:
            return
        if not ok and isinstance(r, FE) and isinstance(r.p, Mono):
            g = s.nf((r.p * r.p).div(want))
            if g.e or s.r.pow(g.c, s.order // 2) == s.r.one:
                raise Bad(f'the square of the root returned for a non-square is {g!r} times the ratio, which is no fixed non-square')
            return
        if not isinstance(r, FE) or isinstance(r.p, Comp) or not s.equal(r.p * r.p, want):
            raise Bad(f'the square of the result is {r.p * r.p!r}, not {want!r}' if isinstance(r, FE) and isinstance(r.p, Mono) else f'the result is {r!r}'[:200])
    return cases(P, mod, one)


def main():
    chk = Check('C22', '', rule='in the monomial domain a square x = w^2 gives (true, r) with r^2 = x, a non-square (false, ..), zero (true, 0)',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'field arithmetic, Frobenius and inversion (C01, C04, C05)',
                         "ff's sqrt_tonelli_shanks for p = 1 mod 16 and exponent (t - 1)/2", 'the published constants (C02)'])
    P = dump('C22', ['sqrt'])
    its = []
    for r, i in sorted(P.roots.items()):
        if '::sqrt::' not in r:
            continue
        mod, op = r.split('::')[-2:]
        for case in ('zero', 'square', 'nonsquare'):
            its.append(((r, (op, case)), i))
            if op == 'sqrt_ratio':
                its.append(((r, ('ratio_zero', case)), i))
    if len(its) < 120:
        print('probe roots missing')
        sys.exit(2)
    def fn(P, item, fid):
        return sqrt(P, item[0].split('::')[-2], item[1][0], item[1][1], fid)
    run_items(P, chk, its, fn, 'square root of zero, squares and non-squares')
    chk.finish()
