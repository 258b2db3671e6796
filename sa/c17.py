"""C17 pairings: exponent domain for the target group, divisors of Miller functions"""
from group import *
from c07 import run_items
from curves import CCtx
import params as pm
import math

ENG = {
    'bn': ('halo2curves::bn256', 'bn_g1', 'bn_g2'),
    'bls': ('halo2curves::bls12381', 'bls_g1', 'bls_g2'),
    'pl': ('halo2curves::pluto_eris', 'pl_g1', 'pl_g2'),
}


# final exponent over (p^12 - 1)/r; divisor of the optimal ate function at the Frobenius images of the second point
BN_U, BLS_X, PLUTO_U = 4965661367192848881, -0xd201000000010000, -0x4000000000001000008780000000
STD = {
    'bn': (1, {0: 6 * BN_U + 2, 1: 1, 2: -1, 3: 1}),
    'bls': (3, {0: BLS_X, 1: -1}),
    'pl': (1, {0: -6 * PLUTO_U - 2, 1: -1, 2: 1, 3: -1}),        # the reciprocal
}


class XSpec(GSpec):
    """elements of the multiplicative group of Fp12 as integer combinations (exponents) of symbols"""
    def __init__(self, name, ctx):
        self.name, self.short, self.kind, self.ctx, self.vars = name, 'Fp12', 'X', ctx, ctx.gvars
        self.ring = ctx.Z
        self.n = 2
        self.base = None

    def const(self, c):
        if c == 1:
            return FE(self, Poly(self.ring, {}))
        raise Unsupported('constant of the target field')

    def pt(self, name):
        return FE(self, Poly.var(self.ring, self.var(name, 0, 1, 1)))

    def project(self, eng, v, e):
        return self.ctx.XH.comp(v, e)

    def ones(self, cs):
        def flat(v):
            if isinstance(v, tuple):
                return [y for x in v for y in flat(x)]
            return [v]
        cs = flat(cs)
        if any(not isinstance(x, FE) or not x.p.is_const() for x in cs):
            return None
        r = [x.p.const_val() for x in cs]
        k = [x.f.ring.is_zero(v) for x, v in zip(cs, r)]
        if not k[0] and all(k[1:]) and r[0] == cs[0].f.ring.one:
            return self.const(1)
        return None

    def decode(self, eng, hx):
        if '_' in hx:
            return UNDEF
        b = self.ctx.tower_base
        sz = len(hx) // 12
        r = self.ones([b.decode(eng, hx[i * sz:(i + 1) * sz]) for i in range(12)])
        if r is None:
            raise Unsupported('constant of the target field')
        return r

    def build(self, eng, vals):
        H = self.ctx.XH
        if len(vals) == 2 and all(isinstance(x, FE) and x.f is H for x in vals):
            for p in H.parents:
                for s in (1, -1):
                    if all((H.comp(FE(self, p), i).p.scale((1, s)[i]) - vals[i].p).is_zero() for i in (0, 1)):
                        return FE(self, p if s == 1 else p.scale(self.ctx.p ** 6))
        r = self.ones(tuple(vals))
        return r if r is not None else tuple(vals)

    def store(self, eng, v, path, x):
        if len(path) != 1:
            raise Unsupported('coefficient of a target field element')
        c = [self.project(eng, v, 0), self.project(eng, v, 1)]
        c[path[0]] = x
        return self.build(eng, c)


class HSpec(GSpec):
    """the two coefficients of an element of Fp12 over Fp6: symbols that can only be compared, negated and copied"""
    def __init__(self, name, ctx):
        self.name, self.short, self.kind, self.ctx, self.vars = name, 'Fp6', 'H', ctx, ctx.gvars
        self.ring = ctx.Z
        self.n = 3
        self.base = None
        self.parents = []

    def const(self, c):
        if c == 0:
            return FE(self, Poly(self.ring, {}))
        raise Unsupported('constant of the sextic field')

    def comp(self, v, e):
        p = self.ctx.red(v.p)
        if p.is_zero() and e == 1:
            return self.const(0)
        if not any((p - q).is_zero() for q in self.parents):
            self.parents.append(p)
        return FE(self, Poly.var(self.ring, self.vars.new(('coefficient', e, p.key()))))

    def project(self, eng, v, e):
        raise Unsupported('coefficient of a sextic field element')

    def build(self, eng, vals):
        return tuple(vals)

    decode = None
    store = project


class XCtx(GCtx):
    def __init__(self, P, k):
        self.k = k
        base, g1, g2 = ENG[k]
        b, nr, xi = pm.TOWERS[k]
        super().__init__(P, [g1, g2])
        e = self.eng
        self.tower_base = self.prime[b]
        self.p = self.tower_base.p
        self.xi = xi
        self.q2 = self.specs[pm.Q % b]
        name = pm.Q % (pm.C % (pm.Q % b))
        self.N = self.p ** 12 - 1
        self.cyc = (self.p ** 6 - 1) * (self.p ** 2 + 1)
        self.r = self.of[(g1, 'A')].scalar.ring.p
        self.X = XSpec(name, self)
        old = e.type_fe
        self.XH = HSpec(pm.C % (pm.Q % b), self)
        self.hname = pm.C % (pm.Q % b)
        self.halves = False
        e.type_fe = lambda t: self.X if t.s == name else old(t)
        for t in P.types:
            t.fe = None
        self.gt_order = False           # symbols have order r (target group elements)
        self.install_target(name)

    def exps(self, p):
        return all(c % self.cyc == 0 for c in p.t.values()) or self.gt_order

    def install_target(self, name):
        e, X = self.eng, self.X
        ld = e.load
        def val(v):
            if isinstance(v, Ptr):
                v = ld(v)
            return self.coerce(v, X)
        def put(a, p):
            e.store(a[0], FE(X, p))
            return ()
        ch = lambda n: (e.simp_bool(n),)
        def cyc(a):
            v = val(a[0])
            if not self.exps(v.p):
                raise Bad('a cyclotomic squaring is applied to an element that need not lie in the cyclotomic subgroup')
            return v.p.scale(2)
        def frob(a):
            if type(a[1]) is not int:
                raise Unsupported('undetermined Frobenius power')
            return put(a, val(a[0]).p.scale(self.p ** a[1]))
        def inv(a):
            v = val(a[0])
            return (FE(X, -v.p), ch(1))
        def sel(a):
            n = e.bnode(choice(a[2]))
            if n < 2:
                return val(a[n])
            return self.select(n, val(a[1]), val(a[0]))
        def eq(a): return e.simp_bool(self.zero(self.red(val(a[0]).p - val(a[1]).p)))
        def sparse(pos):
            def h(a):
                self.sparse.append((pos, [ld(x) if isinstance(x, Ptr) else x for x in a[1:]]))
                return ()
            return h
        self.sparse = []
        T = {
            'mul': lambda a: FE(X, val(a[0]).p + val(a[1]).p),
            'mul_assign': lambda a: put(a, val(a[0]).p + val(a[1]).p),
            'square': lambda a: FE(X, val(a[0]).p.scale(2)),
            'square_assign': lambda a: put(a, val(a[0]).p.scale(2)),
            'cyclotomic_square': lambda a: put(a, cyc(a)),
            'conjugate': lambda a: put(a, val(a[0]).p.scale(self.p ** 6)),
            'frobenius_map': frob,
            'invert': inv,
            'one': lambda a: X.const(1),
            'clone': lambda a: val(a[0]),
            'ct_eq': lambda a: (eq(a),),
            'eq': eq,
            'ne': lambda a: e.unop_bool_not(eq(a)),
            'conditional_select': sel,
            'mul_by_014': sparse((0, 2, 3)),
            'mul_by_034': sparse((0, 1, 3)),
        }
        hv = lambda v: self.hval(ld(v) if isinstance(v, Ptr) else v)
        heq = lambda a: e.simp_bool(self.zero(hv(a[0]) - hv(a[1])))
        H = {
            'ct_eq': lambda a: (heq(a),),
            'eq': heq,
            'ne': lambda a: e.unop_bool_not(heq(a)),
            'clone': lambda a: ld(a[0]),
            'neg': lambda a: FE(self.XH, -hv(a[0])),
            'is_zero': lambda a: (e.simp_bool(self.zero(hv(a[0]))),),
        }
        H = {k: self.guard(h) for k, h in H.items()}
        cache = {}
        def classify(fn):
            n = fn.name
            if 'halo2curves' not in n or 'QuadExt' not in n:
                return None
            n = n.replace('&mut ', '').replace('&', '')
            r = split_name(n, [name])
            if r is None:
                r = split_name(n, [self.hname])
                if r is not None and r[3] in H and not r[4]:
                    return H[r[3]]
                return None
            t, tr, targ, m, gen = r
            if m not in T or gen:
                return None
            if m in ('mul', 'mul_assign') and targ and targ.strip() != name:
                return None
            return T[m]
        def pred(fn):
            if fn.id not in cache:
                cache[fn.id] = classify(fn)
            return cache[fn.id] is not None
        def handler(en, fn, a):
            r = cache[fn.id](a)
            if r is None:               # an element of the sextic field that is not a coefficient of a target field element
                return e.interp(fn, list(a))
            self.gused[fn.name] = self.gused.get(fn.name, 0) + 1
            return r
        e.prefix_summaries.insert(0, (pred, handler))

    def guard(self, h):
        """applies when one of the operands is a coefficient"""
        e = self.eng
        def g(a):
            vs = [e.load(x) if isinstance(x, Ptr) else x for x in a]
            if not any(isinstance(v, FE) and v.f is self.XH for v in vs):
                return None
            return h(a)
        return g

    def hval(self, v):
        if isinstance(v, FE) and v.f is self.XH:
            return v.p
        if isinstance(v, tuple) and all(isinstance(x, FE) and x.p.is_zero() for x in v):
            return Poly(self.Z, {})
        raise Unsupported('element of the sextic field')

    def red(self, p):
        """exponents modulo the order of the symbols"""
        m = self.r if self.gt_order else self.N
        return Poly(self.Z, {k: c % m for k, c in p.t.items() if c % m})


# ---- final exponentiation ------------------------------------------------------------------------------------------
def exponent(P, k, fid):
    c = XCtx(P, k)
    f = c.X.pt('f')
    r = c.eng.call(fid, [c.eng.ref(f)])
    no_panic(c, 'final exponentiation of a non-zero element')
    g = c.coerce(unwrap(r), c.X)
    if set(g.p.t) - set(f.p.t):
        raise Bad(f'the result is not a power of the argument: {g!r}'[:300])
    (m,) = f.p.t
    return c, g.p.t.get(m, 0) % c.N


def unwrap(v):
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return v


def final_exp(P, k, op, fid):
    c, E = exponent(P, k, fid)
    h = c.N // c.r
    if E % h:
        raise Bad('the exponent is not a multiple of (p^12 - 1)/r: results need not have order r')
    if (E // h) % c.r == 0:
        raise Bad('the exponent is a multiple of p^12 - 1: every result is one')
    if (E // h) % c.r != STD[k][0]:
        raise Bad(f'the exponent is (p^12 - 1)/r times {E // h % c.r}, not times {STD[k][0]}')
    for d, w in ((c.p ** 6 - 1, 'F_{p^6} (vertical lines)'), (c.p ** 4 - 1, 'F_{p^4} (line scaling)'), (c.p ** 2 - 1, 'F_{p^2} (line scaling)')):
        if E % d:
            raise Bad(f'elements of {w} survive the final exponentiation')
    return c


# ---- Miller loop --------------------------------------------------------------------------------------------------
def psi_table(c):
    """the twisted Frobenius powers on the second group as coordinate maps -> (power, sign)"""
    R = c.q2.ring
    b1, b2 = pm.CURVES[ENG[c.k][1]][3], R.norm(pm.CURVES[ENG[c.k][2]][3])
    xi = R.norm(c.xi)
    b1 = R.norm((b1, 0))
    if R.mul(b2, xi) == b1:
        tw = 'D'
    elif b2 == R.mul(b1, xi):
        tw = 'M'
    else:
        raise Bad('the second curve is not a sextic twist by the non-residue of the tower')
    tab = {}
    for i in range(6):
        q = c.p ** i - 1
        al, be = R.pow(xi, q // 3 % (c.p ** 2 - 1)), R.pow(xi, q // 2 % (c.p ** 2 - 1))
        if tw == 'M':
            al, be = R.inv(al), R.inv(be)
        tab[(i % 2, al, be)] = (i, 1)
        tab[(i % 2, al, R.neg(be))] = (i, -1)
    return tw, tab


class Miller:
    """double/add steps summarised on points; line values are symbols"""
    def __init__(self, c):
        self.c = c
        self.tw, self.tab = psi_table(c)
        self.lines = {}
        e = c.eng
        g1, g2 = ENG[c.k][1:]
        self.s1, self.s2 = c.of[(g1, 'A')], c.of[(g2, 'P')]
        c.zero = lambda p: int(p.is_zero())     # symbolic points are not the identity
        root = ENG[c.k][0] + '::engine::'
        self.found = set()
        def dbl(en, fn, a):
            f, r, p = a
            R = c.coerce(en.load(r), self.s2)
            self.line(f, R.p, R.p, p)
            en.store(r, FE(self.s2, R.p.scale(2)))
            return ()
        def add(en, fn, a):
            f, r, q, p = a
            R = c.coerce(en.load(r), self.s2)
            Q = c.coerce(en.load(q), self.s2.other)
            self.line(f, R.p, Q.p, p, True)
            en.store(r, FE(self.s2, R.p + Q.p))
            return ()
        for nm, h, n in (('double', dbl, 3), ('add', add, 4)):
            def pred(fn, nm=nm, n=n):
                if fn.defn == root + nm and fn.argc == n:
                    self.found.add(nm)
                    return True
                return False
            e.prefix_summaries.insert(0, (pred, h))

    def line(self, f, A, B, p, chord=False):
        c, e = self.c, self.c.eng
        if A.is_zero() or B.is_zero():
            raise Bad('a line through the identity')
        p = c.coerce(e.load(p), self.s1)
        v = c.X.pt(('line', A.key(), B.key(), p.p.key()))
        (m,) = v.p.t
        self.lines[m] = (A, B, p.p, chord)
        x = c.coerce(e.load(f), c.X)
        e.store(f, FE(c.X, x.p + v.p))

    def at(self, q):
        """{point name: multiple} of a combination, the twisted Frobenius acting as multiplication by p"""
        c = self.c
        out = {}
        for m, k in q.t.items():
            (v, _), = m
            n, s, al, be = c.gvars.info[v]['pt']
            t = self.tab.get((s, al, be))
            if t is None:
                raise Bad('a point is mapped by something other than a power of the twisted Frobenius')
            out[n] = (out.get(n, 0) + k * t[1] * pow(c.p, t[0], c.r)) % c.r
        return {n: k for n, k in out.items() if k}

    def divisor(self, f):
        """{first point: {(second point): {multiple: coefficient}}} modulo vertical lines"""
        c = self.c
        M = c.p ** 6 + 1
        out = {}
        def put(P, Q, s, k):
            s %= c.r
            if s == 0:
                return
            if s > c.r - s:
                s, k = c.r - s, -k
            d = out.setdefault(P, {}).setdefault(Q, {})
            d[s] = d.get(s, 0) + k
        for m, k in f.t.items():
            k %= M                      # conjugation acts as inversion under the final exponentiation
            if k > M // 2:
                k -= M
            A, B, pp, chord = self.lines[m]
            if len(pp.t) != 1 or set(pp.t.values()) != {1}:
                raise Bad('a line is evaluated at something other than one of the first points')
            ((pv, _),), = pp.t
            pn = c.gvars.info[pv]['pt'][0]
            a, b = self.at(A), self.at(B)
            if len(set(a) | set(b)) != 1:
                raise Bad('a line through multiples of different points')
            (qn,) = set(a) | set(b)
            a, b = a.get(qn, 0), b.get(qn, 0)
            if not a or not b or chord and (a == b or (a + b) % c.r == 0):
                raise Bad('an addition step meets an exceptional case of the chord rule for points of order r')
            put(pn, qn, a, k)
            put(pn, qn, b, k)
            put(pn, qn, a + b, -k)
        return {P: {Q: {s: k for s, k in d.items() if k} for Q, d in q.items()} for P, q in out.items()}


def check_div(c, d):
    """the function with this divisor is a bilinear, non-degenerate pairing after the final exponentiation (Vercauteren)"""
    co = {}
    pw = {}
    for i in range(6):
        s = pow(c.p, i, c.r)
        pw[s] = (i, 1)
        pw[c.r - s] = (i, -1)
    for s, k in d.items():
        if s not in pw:
            raise Bad(f'the accumulated function has the point [{s}]Q in its divisor with multiplicity {k}, which is no Frobenius image of Q')
        i, sg = pw[s]
        co[i] = co.get(i, 0) + sg * k
    S = sum(k * c.p ** i for i, k in co.items())
    if S % c.r:
        raise Bad(f'the Miller function has divisor coefficients {co} at the Frobenius images of Q, which do not sum to a multiple of r')
    m = S // c.r
    rhs = (c.N // c.r) * sum(i * k * c.p ** (i - 1) for i, k in co.items() if i)
    if (m * 12 * c.p ** 11 - rhs) % c.r == 0:
        raise Bad('the Miller function gives a degenerate pairing')
    return co


CASES = {'mml1': [('f',), ('p',), ('q',), ('b',)], 'mml2': [('f', 'f'), ('f', 'p'), ('q', 'f'), ('b', 'b')],
         'mml3': [('f', 'f', 'f'), ('f', 'p', 'f'), ('q', 'f', 'b')], 'mml0': [()],
         'pair': [('f',), ('p',), ('q',), ('b',)], 'pair_1': [('f',), ('p',), ('q',)], 'pair_2': [('f',), ('p',), ('q',)]}


def miller(P, k, op, case, fid, fe):
    c = XCtx(P, k)
    e = c.eng
    M = Miller(c)
    s1, s2 = M.s1, M.s2.other
    args = []
    for i, x in enumerate(case):
        p = s1.const(0) if x in 'pb' else s1.pt(f'P{i}')
        q = s2.const(0) if x in 'qb' else s2.pt(f'Q{i}')
        args += [e.ref(p), e.ref(q)]
    r = e.call(fid, args)
    no_panic(c, op)
    if len(M.found) < 2 and 'f' in case:
        raise Unsupported('line steps not found')
    f = c.coerce(unwrap(r), c.X).p
    if op.startswith('pair'):
        # the final exponent times the Miller function
        E = exponent(P, k, P.roots[f'probe::pairing::{k}::fexp'])[1]
        one = Miller.__new__(Miller)
        g = c.red(f)
        c2 = XCtx(P, k)
        M2 = Miller(c2)
        a2 = [c2.eng.ref(c2.coerce(e.load(a)).f is s1 and M2.s1.pt('P0') or M2.s2.other.pt('Q0')) for a in args] if 'f' in case else None
        if a2 is None:
            if not g.is_zero():
                raise Bad(f'the pairing with an identity is {g!r}, not one'[:300])
            return c
        f2 = c2.coerce(c2.eng.call(P.roots[f'probe::pairing::{k}::mml1'], a2), c2.X).p
        def name(c, M, p): return {(M.lines[m][0].key(), M.lines[m][1].key(), M.lines[m][2].key()): v for m, v in p.t.items()}
        x, y = name(c, M, g), name(c2, M2, c2.red(f2.scale(E)))
        if x != y:
            raise Bad('the pairing is not the final exponentiation of the Miller loop of the two points')
        return c
    d = M.divisor(f)
    for i, x in enumerate(case):
        mine = d.pop(f'P{i}', {})
        if x != 'f':
            if any(v for v in mine.values()):
                raise Bad(f'a pair with the identity contributes to the product: {mine}'[:300])
            continue
        q = mine.pop(f'Q{i}', {})
        if any(v for v in mine.values()):
            raise Bad(f'pair {i}: lines of another second point are evaluated at this first point')
        c.coeffs = check_div(c, q)
        if c.coeffs != STD[k][1]:
            raise Bad(f'the Miller function has divisor coefficients {c.coeffs} at the Frobenius images of Q, the optimal ate function has {STD[k][1]}')
    if any(any(v.values()) for v in d.values()):
        raise Bad('lines evaluated at a point that is not among the arguments')
    return c


# ---- line steps on coordinates ---------------------------------------------------------------------------------------
def step(P, k, which, fid):
    """double/add: the point is updated to 2R or R + Q (Jacobian coordinates), and the accumulator is multiplied by the line
    through the untwisted points, evaluated at the first point, up to a factor that the final exponentiation removes"""
    g2 = ENG[k][2]
    c = CCtx(P, g2)
    e = c.eng
    R = c.base.ring
    b, nr, xi = pm.TOWERS[k]
    b1 = R.norm((pm.CURVES[ENG[k][1]][3], 0))
    tw = 'D' if R.mul(c.b, R.norm(xi)) == b1 else 'M'
    # the accumulator is opaque; only sparse multiplications touch it
    name = pm.Q % (pm.C % (pm.Q % b))
    rec = []
    def sp(en, fn, a):
        pos = (0, 2, 3) if fn.name.endswith('014') else (0, 1, 3)
        rec.append((pos, [en.load(x) if isinstance(x, Ptr) else x for x in a[1:]]))
        return ()
    e.prefix_summaries.insert(0, (lambda f: f.name.split('::')[-1] in ('mul_by_014', 'mul_by_034') and 'Quad' in f.name, sp))
    f = e.ref(Opq('accumulator'))
    x, y = c.xy('R')
    z = c.base.var('Z', True)
    r = e.ref((c.fe(x * z.p * z.p), c.fe(y * z.p * z.p * z.p), z))
    fp = c.prime[b]
    px, py = fp.var('xP', real=True), fp.var('yP', real=True)
    pp = e.ref((px, py))
    PX, PY = c.base.embed(px.p), c.base.embed(py.p)
    if which == 'double':
        e.call(fid, [f, r, pp])
        num, den = (x * x).scale(R.norm((3, 0))), y.scale(R.norm((2, 0)))     # a = 0
        x2, y2 = x, y
    else:
        x2, y2 = c.xy('Q')
        e.call(fid, [f, r, e.ref((c.fe(x2), c.fe(y2))), pp])
        num, den = y - y2, x - x2
    if not R.is_zero(c.a):
        raise Unsupported('curve with a != 0')
    no_panic(c, which)
    nf = c.nf
    X3, Y3, Z3 = (v.p for v in e.load(r))
    # lambda = num/den; x3 = lambda^2 - x - x2; y3 = lambda (x - x3) - y
    d2 = den * den
    xn = num * num - (x + x2) * d2                  # x3 * den^2
    if not nf(X3 * d2 - xn * Z3 * Z3).is_zero():
        raise Bad(f'{which}: the x-coordinate of the updated point is wrong')
    yn = num * (x * d2 - xn) - y * d2 * den          # y3 * den^3
    if not nf(Y3 * d2 * den - yn * Z3 * Z3 * Z3).is_zero():
        raise Bad(f'{which}: the y-coordinate of the updated point is wrong')
    if nf(Z3).is_zero():
        raise Bad(f'{which}: the updated point is the identity')
    if len(rec) != 1:
        raise Unsupported(f'{which}: {len(rec)} sparse multiplications')
    pos, vals = rec[0]
    vals = [v.p for v in vals]
    # the line, scaled by den: den*yP, -num*xP, num*x - den*y at powers of w
    line = (den * PY, -(num * PX), num * x - den * y)
    want = dict(zip((0, 1, 3) if tw == 'D' else (3, 2, 0), line))
    got = {}
    for j, v in zip({(0, 2, 3): (0, 2, 3), (0, 1, 3): (0, 1, 3)}[pos], vals):
        got[j] = v
    if set(got) != set(want):
        raise Bad(f'{which}: the line occupies the powers {sorted(got)} of w but must occupy {sorted(want)}')
    ks = sorted(want)
    for i in ks:
        if nf(got[i]).is_zero():
            raise Bad(f'{which}: line coefficient at w^{i} vanishes')
    for i in ks[1:]:
        if not nf(got[ks[0]] * want[i] - got[i] * want[ks[0]]).is_zero():
            raise Bad(f'{which}: the sparse factor is not proportional to the line: the ratio of the coefficients at w^{ks[0]} and w^{i} is wrong')
    return c


# ---- the target group ---------------------------------------------------------------------------------------------
def gt(P, k, op, fid):
    c = XCtx(P, k)
    c.gt_order = True
    e, X = c.eng, c.X
    fn = P.fns[fid]
    stem = re.sub(r'(_as)?(_vv|_vr|_rv|_r|_v|_t)?$', '', op[3:])
    args, pts = [], []
    s = bits = None
    for i in range(fn.argc):
        t = P.types[fn.locals[1 + i]]
        ref = t.k == 'ref'
        if ref:
            t = P.types[t.d['to']]
        if stem == 'mul' and i == 1:
            s = c.of[(ENG[k][1], 'A')].scalar.var('s', real=True)
            bits = c.codec.enc_bits(s, 'can')
            v = s
        elif t.s == 'subtle::Choice':
            v = (e.atom('choice'),)
        else:
            x = X.pt('abc'[i])
            pts.append(x.p)
            v = x if t.transparent or e.fe_of(t) else (x,)
        args.append(e.ref(v) if ref else v)
    r = e.call(fid, args)
    no_panic(c, op)
    if '_as' in op:
        r = e.load(args[0])
    zero = Poly(c.Z, {})
    if stem in ('is_id', 'ct_eq', 'eq'):
        d = pts[0] - (pts[1] if len(pts) > 1 else zero)
        want = c.zero(c.red(d))
        alt = c.zero(c.red(-d))
        n = e.bnode(choice(r) if isinstance(r, tuple) else r)
        H = c.XH
        b = pts[1] if len(pts) > 1 else zero
        h = [c.zero(H.comp(FE(X, pts[0]), i).p - H.comp(FE(X, b), i).p) for i in (0, 1)]
        if n not in (want, alt, e.bdd.And(h[0], h[1])):
            raise Bad(f'{op}: decided by something other than equality')
        return c
    if stem == 'sel':
        n = e.bdd.atom('choice')
        exp = pts[0] + c.bmul(c.ind(n), pts[1] - pts[0])
    elif stem == 'mul':
        exp = c.bmul(c.bit_int(bits), pts[0])
    else:
        exp = {'add': lambda: pts[0] + pts[1], 'sub': lambda: pts[0] - pts[1], 'neg': lambda: -pts[0], 'double': lambda: pts[0].scale(2),
               'id': lambda: zero, 'sum0': lambda: zero, 'sum3': lambda: pts[0] + pts[1] + pts[2]}[stem]()
    cs = []
    def flat(v):
        cs.extend([v] if not isinstance(v, tuple) else [])
        for x in v if isinstance(v, tuple) else ():
            flat(x)
    flat(r)
    if len(cs) > 1 and all(isinstance(x, FE) and x.p.is_const() for x in cs) and X.ones(tuple(cs)) is None:
        raise Bad(f'{op}: the result is a constant that is not one')
    g = c.coerce(unwrap(r), X)
    d = c.red(g.p - exp)
    if not d.is_zero():
        raise Bad(f'{op}: computes the exponents {c.red(g.p)!r} but must be {c.red(exp)!r}'[:500])
    return c


def main():
    chk = Check('C17', '', rule='exponents and divisors',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'tower arithmetic, Frobenius and sparse products (C04, C05)',
                         'the group law (C07)', "Vercauteren's criterion for optimal ate pairings"])
    P = dump('C17', ['pairing', 'curve'])
    its = []
    for r, i in sorted(P.roots.items()):
        if '::pairing::' not in r:
            continue
        k, op = r.split('::')[-2:]
        if op == 'fexp':
            its.append(((r, ('fexp',)), i))
        elif op in CASES:
            its += [((r, cs), i) for cs in CASES[op]]
        elif op.startswith('gt_'):
            its.append(((r, ('gt',)), i))
    for k, (base, _, _) in ENG.items():
        for w, n in (('double', 3), ('add', 4)):
            hit = [f.id for f in P.fns if f is not None and f.defn == f'{base}::engine::{w}' and f.argc == n and f.raw is not None]
            for i in hit:
                its.append(((f'probe::line::{k}::{w}', ('step',)), i))
    if len(its) < 150:
        print('probe roots missing')
        sys.exit(2)
    def fn(P, item, fid):
        k, op = item[0].split('::')[-2:]
        if item[1] == ('step',):
            return step(P, k, op, fid)
        if item[1] == ('fexp',):
            return final_exp(P, k, op, fid)
        if item[1] == ('gt',):
            return gt(P, k, op, fid)
        return miller(P, k, op, item[1], fid, None)
    run_items(P, chk, its, fn, 'exponents and divisors')
    chk.finish()
