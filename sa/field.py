"""Field-element domain: values of a field type are polynomials in canonical form."""
import re
from poly import Poly, PrimeRing, QuadRing
from engine import FE, B, G, Opq, UNDEF, Unsupported, Diverge, En, Ptr


class Vars:
    """registry of polynomial variables"""
    def __init__(self):
        self.names = []
        self.byname = {}
        self.unit = set()           # variables known to be non-zero
        self.info = {}

    def new(self, name, unit=False, **info):
        if name in self.byname:
            v = self.byname[name]
        else:
            v = len(self.names)
            self.names.append(name)
            self.byname[name] = v
            self.info[v] = info
        if unit:
            self.unit.add(v)
        return v

    def show(self, v):
        n = self.names[v]
        return n if isinstance(n, str) else str(n)


class FSpec:
    """prime field specification; the stored form is Montgomery: raw = value * 2^(64 n) mod p"""
    def __init__(self, name, short, p, limbs, vars):
        self.name = name
        self.short = short
        self.p = p
        self.n = limbs
        self.ring = PrimeRing(p)
        self.vars = vars
        self.R = pow(2, 64 * limbs, p)
        self.Rinv = pow(self.R, -1, p)
        self.noncanon = []
        self.quad = None

    def const(self, c):
        return FE(self, Poly.const(self.ring, c))

    def var(self, name, unit=False, **info):
        return FE(self, Poly.var(self.ring, self.vars.new(name, unit, **info)))

    def show(self, p):
        return p.show(self.vars.show)

    def decode(self, eng, hx):
        if '_' in hx:
            return UNDEF
        raw = int.from_bytes(bytes.fromhex(hx), 'little')
        if raw >= self.p:
            self.noncanon.append(hx)
        return self.const(raw * self.Rinv)

    def raw_of(self, c):
        raw = c * self.R % self.p
        return tuple((raw >> (64 * i)) & ((1 << 64) - 1) for i in range(self.n))

    def project(self, eng, v, e):
        if v.p.is_const():
            return self.raw_of(v.p.const_val())
        return tuple(Opq('limb', v, i) for i in range(self.n))

    def from_raw(self, eng, v):
        ls = eng.leaves(v)
        return self._from_limbs(ls)

    def _from_limbs(self, ls):
        if len(ls) == self.n and all(type(x) is int for x in ls):
            raw = sum(x << (64 * i) for i, x in enumerate(ls))
            if raw >= self.p:
                self.noncanon.append(hex(raw))
            return self.const(raw * self.Rinv)
        if len(ls) == self.n and all(isinstance(x, Opq) and x.op == 'limb' for x in ls):
            v = ls[0].args[0]
            if all(x.args == (v, i) for i, x in enumerate(ls)) and v.f is self:
                return v
        raise Unsupported(f'{self.name} built from raw limbs {ls!r}'[:200])

    def build(self, eng, vals):
        return self._from_limbs(eng.leaves(vals))

    def store(self, eng, v, path, x):
        raise Unsupported(f'limb store into {self.name}')

    def raw(self, p):
        return FE(self, p)


class QSpec(FSpec):
    """quadratic extension used as an opaque coefficient field: Fp[u]/(u^2 - nr)"""
    def __init__(self, name, short, base, nr, vars):
        self.name = name
        self.short = short
        self.base = base
        self.p = base.p
        self.n = base.n
        self.nr = nr % base.p
        self.ring = QuadRing(base.p, nr)
        self.vars = vars
        self.noncanon = base.noncanon
        self.quad = True

    def decode(self, eng, hx):
        if '_' in hx:
            return UNDEF
        h = len(hx) // 2
        a, b = self.base.decode(eng, hx[:h]), self.base.decode(eng, hx[h:])
        return self.const((a.p.const_val(), b.p.const_val()))

    def embed(self, p):
        return Poly(self.ring, {m: (c, 0) for m, c in p.t.items()})

    def conj(self, p):
        r = self.ring
        def cm(m):
            return tuple(sorted((self.conj_var(v), e) for v, e in m))
        return Poly(r, {cm(m): (c[0], -c[1] % self.p) for m, c in p.t.items()})

    def conj_var(self, v):
        inf = self.vars.info[v]
        if 'conj' in inf:
            return inf['conj']
        if inf.get('real'):
            return v
        w = self.vars.new(('conj', self.vars.names[v]), v in self.vars.unit)
        self.vars.info[w]['conj'] = v
        inf['conj'] = w
        return w

    def project(self, eng, v, e):
        if v.p.is_const():
            return self.base.const(v.p.const_val()[e])
        # a polynomial all of whose variables are embedded base-field variables splits exactly
        if all(self.vars.info[x].get('real') for x in v.p.vars()):
            return FE(self.base, Poly(self.base.ring, {m: c[e] for m, c in v.p.t.items() if c[e]}))
        nm = ('comp', e, v.p.key())
        x = self.vars.new(nm, real=True)
        self.vars.info[x]['comp'] = (e, v.p)
        return FE(self.base, Poly.var(self.base.ring, x))

    def build(self, eng, vals):
        def f(a, b):
            if not (isinstance(a, FE) and isinstance(b, FE)):
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                raise Unsupported(f'{self.name} from {a!r}, {b!r}')
            return FE(self, self.embed_comp(a.p) + self.embed_comp(b.p).scale((0, 1)))
        return eng.lift(f, *vals)

    def embed_comp(self, p):
        """embed a base polynomial; component variables of extension elements are rewritten
        c0 = (x + conj x)/2, c1 = (x - conj x)/(2u)"""
        out = Poly(self.ring, {})
        r = self.ring
        half = r.inv((2, 0))
        for m, c in p.t.items():
            t = Poly(r, {(): (c, 0)})
            for v, e in m:
                cmp = self.vars.info[v].get('comp')
                if cmp is None or e < 0:
                    t = t * Poly.var(r, v, e)
                    continue
                i, q = cmp
                if i == 0:
                    w = (q + self.conj(q)).scale(half)
                else:
                    w = (q - self.conj(q)).scale(r.mul(half, r.inv((0, 1))))
                t = t * w.pow(e)
            out = out + t
        return out

    def from_raw(self, eng, v):
        raise Unsupported('raw quadratic element')

    def store(self, eng, v, path, x):
        if len(path) != 1:
            raise Unsupported('limb store')
        comps = [self.project(eng, v, 0), self.project(eng, v, 1)]
        comps[path[0]] = x
        return self.build(eng, comps)


class Dom:
    """default: symbolic integers are not supported"""
    merges = False
    def __init__(self):
        self.nonzero = []          # polynomials assumed non-zero (monic)

    def as_bool(self, eng, v): return None
    def project(self, eng, v, e): return Opq('proj', v, e)
    def sym_index(self, eng, v, e): return None
    def big_index(self, eng, v, e):
        raise Unsupported('symbolic index into a large constant')
    def sym_store(self, eng, v, e, rest, x): return None
    def binop(self, eng, op, a, b, t, t2):
        raise Unsupported(f'{op} on {a!r}, {b!r}'[:300])
    def unop(self, eng, op, a, t):
        raise Unsupported(f'{op} on {a!r}'[:300])
    def checked(self, eng, op, a, b, t):
        raise Unsupported(f'checked {op} on {a!r}, {b!r}'[:300])
    def int_cast(self, eng, v, ft, tt):
        raise Unsupported(f'int cast of {v!r}'[:300])
    def to_bytes(self, eng, v, n):
        raise Unsupported(f'to_bytes of {v!r}'[:300])
    def from_bytes(self, eng, v, t):
        raise Unsupported(f'from_bytes of {v!r}'[:300])
    def discr(self, eng, v, t):
        raise Unsupported(f'discriminant of {v!r}'[:300])
    def refine(self, eng, v, c): pass
    def asm(self, eng, fn, base, t):
        raise Unsupported('inline asm')


# ---- field operations over (possibly gated) elements ------------------------------------------

class Ops:
    def __init__(self, eng):
        self.e = eng
        self.inv_rel = {}           # fresh inverse variable -> polynomial it inverts
        self.sqrt_rel = {}
        self.calls = 0
        self.nf = None              # normal form modulo known relations

    def _fe(self, x):
        if not isinstance(x, FE):
            raise Unsupported(f'field operation on {x!r}'[:200])
        return x

    def add(self, a, b): return self.e.lift(lambda x, y: FE(x.f, self._fe(x).p + self._fe(y).p), a, b)
    def sub(self, a, b): return self.e.lift(lambda x, y: FE(x.f, self._fe(x).p - self._fe(y).p), a, b)
    def mul(self, a, b): return self.e.lift(lambda x, y: FE(x.f, self._fe(x).p * self._fe(y).p), a, b)
    def neg(self, a): return self.e.lift(lambda x: FE(self._fe(x).f, -x.p), a)
    def dbl(self, a): return self.e.lift(lambda x: FE(self._fe(x).f, x.p.scale(2)), a)
    def sqr(self, a): return self.e.lift(lambda x: FE(self._fe(x).f, x.p * x.p), a)
    def cube(self, a): return self.e.lift(lambda x: FE(self._fe(x).f, x.p * x.p * x.p), a)
    def pow(self, a, k): return self.e.lift(lambda x: FE(self._fe(x).f, x.p.pow(k)), a)

    def zero_node(self, x):
        """BDD node of x == 0 for an ungated element"""
        e = self.e
        f, p = x.f, x.p
        if self.nf is not None:
            p = self.nf(p)
        if p.is_zero():
            return 1
        if p.is_const():
            return 0
        n = 0
        c = p.content()
        units = f.vars.unit
        for v, k in c:
            if k > 0 and v not in units:
                n = e.bdd.Or(n, e.bdd.atom(('z', f.short, ((((v, 1),), f.ring.one),))))
        q = p.div_mono(c)
        if q.is_const():
            return n
        q = q.monic()
        for w in e.dom.nonzero:
            if q == w:
                return n
        return e.bdd.Or(n, e.bdd.atom(('z', f.short, q.key())))

    def is_zero(self, a):
        """boolean value of a == 0"""
        e = self.e
        if isinstance(a, G):
            r = 0
            for g, x in a.alts:
                r = e.bdd.Or(r, e.bdd.And(g, self.zero_node(self._fe(x))))
            return e.simp_bool(r)
        return e.simp_bool(self.zero_node(self._fe(a)))

    def eq(self, a, b):
        return self.is_zero(self.sub(a, b))

    def inv1(self, x):
        f, p = x.f, x.p
        if p.is_zero():
            return f.const(0)
        c = p.content()
        q = p.div_mono(c)
        m = Poly(f.ring, {tuple((v, -k) for v, k in c): f.ring.one})
        if q.is_const():
            return FE(f, m.scale(f.ring.inv(q.const_val())))
        mon = q.monic()
        lc = q.t[max(q.t)]
        v = f.vars.new(('inv', f.short, mon.key()))
        self.inv_rel[v] = mon
        f.vars.info[v]['inv'] = mon
        return FE(f, (m * Poly.var(f.ring, v)).scale(f.ring.inv(lc)))

    def invert(self, a):
        """CtOption<F>"""
        z = self.is_zero(a)
        val = self.e.lift(lambda x: self.inv1(self._fe(x)), a)
        return (val, (self.e.simp_bool(self.e.bdd.Not(self.e.bnode(z))),))

    def mul_inv_reduce(self, p):
        """rewrite inv(q)*q products using the defining relations (used by comparisons): multiplies
        every term up to a common power of the inverse variable, then substitutes"""
        return p


NAME_RE = re.compile(r'^<(&?)(?:mut )?(?P<t>[^&<>][^ ]*(?:<.*?>)?) as (?P<tr>[\w:]+)(?P<ta><.*>)?>::(?P<m>\w+)$')


def field_summaries(eng, specs, ops, skip=()):
    """summaries for the operations of opaque field types; specs: {type name: FSpec}"""
    S = {}
    ld = eng.load
    def val(v):
        """operand by value or by reference"""
        if isinstance(v, Ptr):
            return ld(v)
        if isinstance(v, G) and any(isinstance(x, Ptr) for _, x in v.alts):
            return eng.lift(lambda p: ld(p) if isinstance(p, Ptr) else p, v)
        return v
    def cond(c):
        while isinstance(c, tuple):
            c = c[0]
        return c
    BIN = {'add': ops.add, 'sub': ops.sub, 'mul': ops.mul}
    ASG = {'add_assign': ops.add, 'sub_assign': ops.sub, 'mul_assign': ops.mul}
    UN = {'neg': ops.neg, 'double': ops.dbl, 'square': ops.sqr, 'cube': ops.cube}

    def bin_(f): return lambda e, fn, a: f(val(a[0]), val(a[1]))
    def un_(f): return lambda e, fn, a: f(val(a[0]))
    def asg_(f):
        def h(e, fn, a):
            e.store(a[0], f(ld(a[0]), val(a[1])))
            return ()
        return h

    def mk(name, spec):
        h = {}
        for m, f in BIN.items():
            h[('op', m)] = bin_(f)
            h[('inh', m)] = bin_(f)
        for m, f in ASG.items():
            h[('op', m)] = asg_(f)
            h[('inh', m)] = asg_(f)
        for m, f in UN.items():
            h[('op', m)] = un_(f)
            h[('inh', m)] = un_(f)
            h[('field', m)] = un_(f)
        def sqa(e, fn, a):
            e.store(a[0], ops.sqr(ld(a[0])))
            return ()
        h[('inh', 'square_assign')] = sqa
        h[('inh', 'mul_const')] = bin_(ops.mul)
        z = lambda e, fn, a: spec.const(0)
        o = lambda e, fn, a: spec.const(1)
        h[('inh', 'zero')] = z
        h[('inh', 'one')] = o
        h[('default', 'default')] = z
        h[('field', 'is_zero')] = lambda e, fn, a: (ops.is_zero(val(a[0])),)
        h[('field', 'is_zero_vartime')] = lambda e, fn, a: ops.is_zero(val(a[0]))
        h[('field', 'invert')] = lambda e, fn, a: ops.invert(val(a[0]))
        h[('inh', 'invert')] = h[('field', 'invert')]
        h[('cteq', 'ct_eq')] = lambda e, fn, a: (ops.eq(val(a[0]), val(a[1])),)
        h[('cteq', 'ct_ne')] = lambda e, fn, a: (e.unop('Not', ops.eq(val(a[0]), val(a[1])), None),)
        h[('peq', 'eq')] = lambda e, fn, a: ops.eq(val(a[0]), val(a[1]))
        h[('peq', 'ne')] = lambda e, fn, a: e.unop('Not', ops.eq(val(a[0]), val(a[1])), None)
        h[('sel', 'conditional_select')] = lambda e, fn, a: e.ite(cond(a[2]), val(a[1]), val(a[0]))
        def cassign(e, fn, a):
            e.store(a[0], e.ite(cond(a[2]), val(a[1]), ld(a[0])))
            return ()
        h[('sel', 'conditional_assign')] = cassign
        def from_int(e, fn, a):
            if type(a[0]) is int:
                return spec.const(a[0])
            return NotImplemented
        h[('from', 'from')] = from_int
        for k in skip:
            h.pop(k, None)
        return h
    tables = {n: mk(n, s) for n, s in specs.items()}

    TR = {'Add': 'op', 'Sub': 'op', 'Mul': 'op', 'Neg': 'op', 'AddAssign': 'op', 'SubAssign': 'op', 'MulAssign': 'op',
          'Field': 'field', 'ConstantTimeEq': 'cteq', 'PartialEq': 'peq', 'ConditionallySelectable': 'sel',
          'Default': 'default', 'From': 'from'}

    def classify(fn):
        n = fn.name
        if fn.crate != 'halo2curves' and 'halo2curves' not in n:
            return None
        # inherent
        for t in specs:
            if n.startswith(t + '::') and re.fullmatch(r'\w+', n[len(t) + 2:]):
                return (t, ('inh', n[len(t) + 2:]))
        for t in specs:
            # "<T as Trait<..>>::m", "<&T as Trait<..>>::m" and "path::<impl Trait<X> for T>::m"
            for pre in ('<' + t, '<&' + t):
                if n.startswith(pre + ' as '):
                    r = n[len(pre) + 4:]
                    m = re.fullmatch(r'([\w:]+)(?:<(.*)>)?>::(\w+)', r)
                    if m:
                        tr = m.group(1).split('::')[-1]
                        arg = m.group(2)
                        if tr in ('Add', 'Sub', 'Mul', 'AddAssign', 'SubAssign', 'MulAssign') and arg is not None and arg.lstrip('&') != t:
                            return None
                        if tr == 'From' and arg not in ('u64', 'bool', None):
                            return None
                        if tr in TR:
                            return (t, (TR[tr], m.group(3)))
                    return None
            m = re.fullmatch(r'(?:[\w:]+::)?<impl ([\w:]+)(?:<(.*)>)? for (&?)' + re.escape(t) + r'>::(\w+)', n)
            if m:
                tr = m.group(1).split('::')[-1]
                arg = m.group(2)
                if tr in ('Add', 'Sub', 'Mul', 'AddAssign', 'SubAssign', 'MulAssign') and arg is not None and arg.lstrip('&') != t:
                    return None
                if tr == 'From' and arg not in ('u64', 'bool', None):
                    return None
                if tr in TR:
                    return (t, (TR[tr], m.group(4)))
            # inherent impl printed with its path
            m = re.fullmatch(r'(?:[\w:]+::)?<impl ' + re.escape(t) + r'>::(\w+)', n)
            if m:
                return (t, ('inh', m.group(1)))
            if t.endswith('>') and n.startswith(t[:t.index('<')] + '::' + t[t.index('<'):] + '::'):
                r = n[len(t) + 4:]
                if re.fullmatch(r'\w+', r):
                    return (t, ('inh', r))
        return None

    cache = {}
    def pred(fn):
        if fn.id not in cache:
            c = classify(fn)
            cache[fn.id] = tables[c[0]].get(c[1]) if c else None
        return cache[fn.id] is not None

    used = {}
    def handler(e, fn, a):
        used[fn.name] = used.get(fn.name, 0) + 1
        ops.calls += 1
        return cache[fn.id](e, fn, a)
    eng.prefix_summaries.append((pred, handler))
    return used
