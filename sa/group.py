"""Group-element domain: a point is an integer combination of symbolic points.

The value of a projective or affine point is a polynomial over the integers that is linear in point variables; its
other variables are 0/1 indicators of conditions (a conditional selection is the indicator-weighted sum, which is
canonical because indicators are expanded to multilinear polynomials of the atoms).  A point variable is a symbolic
point under a semilinear coordinate map (x, y) -> (alpha * x^sigma, beta * y^sigma); code that works on coordinates
(the endomorphism, the untwist-Frobenius-twist map) is interpreted on coordinates and recognised as such a map.

The operations of the point types are summarised: C07 and C08 verify them."""
from lib import *
from field import *
from bv import *
from codec import *
from c04 import Ctx, Bad, no_panic, choice
import params as pm


class ZRing:
    p = 1 << 100000
    zero = 0
    one = 1
    def norm(self, a): return a
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def neg(self, a): return -a
    def inv(self, a):
        if a in (1, -1):
            return a
        raise Unsupported('integer inverse')
    def pow(self, a, e): return a ** e
    def is_zero(self, a): return a == 0


Z = ZRing()


class GSpec:
    """points of one curve; kind 'P' projective, 'A' affine"""
    quad = None

    def __init__(self, name, short, kind, ctx, base, vars):
        self.name, self.short, self.kind, self.ctx, self.base, self.vars = name, short, kind, ctx, base, vars
        self.ring = ctx.Z
        self.n = 3 if kind == 'P' else 2

    def const(self, c):
        if c == 0:
            return FE(self, Poly(self.ring, {}))
        raise Unsupported('point constant')

    def show(self, p):
        return p.show(self.vars.show)

    def pt(self, name):
        """fresh symbolic point"""
        return FE(self, Poly.var(self.ring, self.var(name, 0, self.base.ring.one, self.base.ring.one)))

    def var(self, name, k, al, be):
        v = self.vars.new(('pt', self.short, name, k, al, be))
        self.vars.info[v]['pt'] = (name, k, al, be)
        return v

    def apply(self, p, k, al, be):
        """the map (x, y) -> (al * x^sigma^k, be * y^sigma^k) on a combination of points"""
        r = self.base.ring
        out = {}
        sg = (lambda c: (c[0], -c[1] % r.p)) if k else (lambda c: c)
        for m, c in p.t.items():
            o = []
            for v, e in m:
                i = self.vars.info[v].get('pt')
                if i is not None:
                    n, k0, a0, b0 = i
                    v = self.var(n, k0 ^ k, r.mul(al, sg(a0)), r.mul(be, sg(b0)))
                o.append((v, e))
            m = tuple(sorted(o))
            out[m] = self.ring.add(out.get(m, 0), c)
        return Poly(self.ring, {m: c for m, c in out.items() if c})

    def coord(self, p, e):
        b = self.base
        k = ('gc', self.short, p.key(), e)
        fresh = k not in b.vars.byname
        v = b.vars.new(k)
        if fresh:
            self.ctx.coords[v] = (self.short, p, e)
        return FE(b, Poly.var(b.ring, v))

    def project(self, eng, v, e):
        if v.p.is_zero() and not (self.kind == 'P' and e == 1):
            return self.base.const(0)
        return self.coord(v.p, e)

    def decode(self, eng, hx):
        if '_' in hx:
            return UNDEF
        sz = len(hx) // self.n
        cs = [self.base.decode(eng, hx[i * sz:(i + 1) * sz]) for i in range(self.n)]
        return self.from_coords(eng, cs) or tuple(cs)

    def from_raw(self, eng, v):
        raise Unsupported('raw point')

    def raw(self, p):
        return FE(self, p)

    def build(self, eng, vals):
        vals = tuple(vals)
        if all(isinstance(x, FE) for x in vals):
            r = self.from_coords(eng, vals)
            if r is not None:
                return r
        return vals

    def store(self, eng, v, path, x):
        cs = [self.project(eng, v, i) for i in range(self.n)]
        if len(path) == 1:
            cs[path[0]] = x
        else:
            cs[path[0]] = eng.put(cs[path[0]], path[1:], x)
        return self.build(eng, cs)

    def from_coords(self, eng, cs):
        """the point with these coordinates, when they are those of a known point under a semilinear map"""
        b = self.base
        r = b.ring
        if all(c.p.is_const() for c in cs):
            vs = [c.p.const_val() for c in cs]
            z = [r.is_zero(x) for x in vs]
            if self.kind == 'P' and z == [True, False, True] or self.kind == 'A' and z == [True, True]:
                return self.const(0)
            return self.const_point(vs)
        got = []
        for i, c in enumerate(cs):
            if len(c.p.t) != 1:
                return None
            (m, co), = c.p.t.items()
            if len(m) != 1 or m[0][1] != 1:
                return None
            v, k = m[0][0], 0
            if v not in self.ctx.coords and 'conj' in b.vars.info[v]:
                v, k = b.vars.info[v]['conj'], 1
            s = self.ctx.coords.get(v)
            if s is None or s[0] != self.short or s[2] != i:
                return None
            got.append((s[1], k, co))
        p, k = got[0][0], got[0][1]
        if any(g[0] != p or g[1] != k for g in got):
            return None
        al, be = got[0][2], got[1][2]
        if self.kind == 'P':
            iz = r.inv(got[2][2])
            al, be = r.mul(al, iz), r.mul(be, iz)
        if k == 0 and al == r.one and be == r.one:
            return FE(self, p)
        if k == 0 and al == r.one and be == r.neg(r.one):
            return FE(self, -p)
        if not self.ctx.valid_map(self, k, al, be):
            raise Bad(f'a point is built by the coordinate map (x, y) -> ({al} * x{"^p" if k else ""}, {be} * y{"^p" if k else ""}), which leaves the curve')
        return FE(self, self.apply(p, k, al, be))

    def const_point(self, vs):
        r = self.base.ring
        if self.kind == 'P':
            if r.is_zero(vs[2]):
                return None
            iz = r.inv(vs[2])
            vs = [r.mul(vs[0], iz), r.mul(vs[1], iz)]
        return self.pt(('const', tuple(vs)))


class GDom(CodecDom):
    ctx = None

    def merge(self, eng, flat):
        specs = [v.f for _, v in flat if isinstance(v, FE) and isinstance(v.f, GSpec)]
        if specs:
            vs = [(g, self.ctx.coerce(v, specs[0])) for g, v in flat]
            return FE(specs[0], self.ctx.weigh([(g, v.p) for g, v in vs]))
        return super().merge(eng, flat)


class GCtx(Ctx):
    """engine in which the points of the given probe curve modules are group elements"""
    def __init__(self, P, mods, dom=None, scalars=False):
        """scalars: coefficients are polynomials over the scalar field (points of order r); otherwise integers"""
        dom = dom or GDom()
        super().__init__(P, opaque_q=True, dom=dom)
        dom.ctx = self
        self.codec = Codec(self)
        self.Z = self.specs[pm.CURVES[mods[0]][1]].ring if scalars else Z
        self.scalars = scalars
        self.gvars = self.vars if scalars else Vars()
        self.coords = {}
        self.gs = {}
        self.of = {}
        self.ind_memo = {0: Poly(self.Z, {}), 1: Poly.const(self.Z, 1)}
        for mod in mods:
            f = P.fns[P.roots[f'probe::curve::{mod}::madd']]
            tn = []
            for i in (1, 2):
                t = P.types[f.locals[i]]
                while t.k == 'ref':
                    t = P.types[t.d['to']]
                tn.append(t.s)
            bt, st, a, b = pm.CURVES[mod]
            base = self.specs[bt]
            for n, k in zip(tn, 'PA'):
                s = GSpec(n, mod, k, self, base, self.gvars)
                s.scalar = self.specs[st]
                s.a, s.b = base.ring.norm(a), base.ring.norm(b)
                self.gs[n] = s
                self.of[(mod, k)] = s
            self.of[(mod, 'P')].other = self.of[(mod, 'A')]
            self.of[(mod, 'A')].other = self.of[(mod, 'P')]
        self.eng.type_fe = lambda t: self.gs.get(t.s) or self.specs.get(t.s)
        self.gused = {}
        self.install_groups()

    # ---- indicator polynomials -------------------------------------------------------------------
    def ind(self, n):
        r = self.ind_memo.get(n)
        if r is None:
            v, lo, hi = self.eng.bdd.nodes[n]
            a = Poly.var(self.Z, self.gvars.new(('b', v)))
            l, h = self.ind(lo), self.ind(hi)
            r = l + self.bmul(a, h - l)
            if len(r.t) > 20000:
                raise TooLarge('condition too large')
            self.ind_memo[n] = r
        return r

    def bmul(self, a, b):
        """product with 0/1 variables idempotent"""
        p = a * b
        if any(e > 1 for m in p.t for v, e in m):
            out = {}
            for m, c in p.t.items():
                m = tuple((v, 1) for v, e in m)
                out[m] = self.Z.add(out.get(m, 0), c)
            p = Poly(self.Z, {m: c for m, c in out.items() if c})
        return p

    def weigh(self, alts):
        """value of a gated combination: sum of indicators times values"""
        last = alts[-1][1]
        out = last
        for g, v in alts[:-1]:
            d = v - last
            if not d.is_zero():
                out = out + self.bmul(self.ind(g), d)
        return out

    def select(self, n, x, y):
        """x when n else y"""
        D = self.eng.bdd
        if D.And(self.eng.pc, n) == 0:
            return y
        if D.And(self.eng.pc, D.Not(n)) == 0:
            return x
        return FE(x.f, y.p + self.bmul(self.ind(n), x.p - y.p))

    def bit_int(self, bits):
        """integer value of a bit list, as a polynomial in the indicators"""
        out = Poly(self.Z, {})
        for i, b in enumerate(bits):
            if b:
                out = out + self.ind(b).scale(1 << i)
        return out

    # ---- values ----------------------------------------------------------------------------------
    def coerce(self, v, spec=None):
        e = self.eng
        if isinstance(v, FE):
            if not isinstance(v.f, GSpec):
                raise Unsupported(f'point {v!r}'[:100])
            return v
        if isinstance(v, tuple):
            if any(isinstance(x, G) for x in v):
                i = [isinstance(x, G) for x in v].index(True)
                return e.mkg([(g, self.coerce(v[:i] + (x,) + v[i + 1:], spec)) for g, x in v[i].alts if e.feasible(g)])
            for s in ([spec] if spec else []):
                r = s.build(e, v)
                if isinstance(r, FE):
                    return r
        if isinstance(v, G):
            return FE(spec, self.weigh([(g, self.coerce(x, spec).p) for g, x in v.alts if e.feasible(g)]))
        raise Unsupported(f'point {v!r}'[:200])

    def valid_map(self, s, k, al, be):
        r = s.base.ring
        if k and r.__class__ is PrimeRing:
            return False
        sg = (lambda c: (c[0], -c[1] % r.p)) if k else (lambda c: c)
        # y^2 = x^3 + a x + b  =>  be^2 (x^3 + a x + b)^sg = al^3 x^sg^3 + a al x^sg + b
        b2, a3 = r.mul(be, be), r.mul(al, r.mul(al, al))
        return b2 == a3 and r.mul(b2, sg(s.a)) == r.mul(s.a, al) and r.mul(b2, sg(s.b)) == s.b

    def zero(self, p):
        """node of p == identity"""
        if p.is_zero():
            return 1
        c = p
        if max(c.t) and c.t[max(c.t)] < 0:
            c = -c
        return self.eng.bdd.atom(('gz', c.key()))

    # ---- summaries -------------------------------------------------------------------------------
    def install_groups(self):
        e = self.eng
        gs = self.gs
        ld = e.load
        types = sorted(gs, key=len, reverse=True)
        def proj(s): return s if s.kind == 'P' else s.other
        def val(v, s=None):
            if isinstance(v, Ptr):
                v = ld(v)
            elif isinstance(v, G) and any(isinstance(x, Ptr) for _, x in v.alts):
                v = e.lift(lambda p: ld(p) if isinstance(p, Ptr) else p, v)
            return self.coerce(v, s)
        ch = lambda n: (e.simp_bool(n),)
        def argspec(s, targ):
            targ = targ.strip()
            return gs.get(targ)
        def binop(sign):
            def h(s, o, a):
                x, y = val(a[0], s), val(a[1], o)
                return FE(proj(s), x.p + (y.p if sign > 0 else -y.p))
            return h
        def asg(sign):
            def h(s, o, a):
                x, y = val(a[0], s), val(a[1], o)
                e.store(a[0], FE(s, x.p + (y.p if sign > 0 else -y.p)))
                return ()
            return h
        def neg(s, o, a): return FE(s, -val(a[0], s).p)
        def dbl(s, o, a): return FE(s, val(a[0], s).p.scale(2))
        def identity(s, o, a): return s.const(0)
        def generator(s, o, a): return s.pt('generator')
        def is_id(s, o, a): return ch(self.zero(val(a[0], s).p))
        def to_aff(s, o, a): return FE(s.other if s.kind == 'P' else s, val(a[0], s).p)
        def to_proj(s, o, a): return FE(proj(s), val(a[0], s).p)
        def cteq(s, o, a): return ch(self.zero(val(a[0], s).p - val(a[1], s).p))
        def eq(s, o, a): return e.simp_bool(self.zero(val(a[0], s).p - val(a[1], s).p))
        def ne(s, o, a): return e.unop_bool_not(eq(s, o, a))
        def sel(s, o, a):
            return self.select(e.bnode(choice(a[2])), val(a[1], s), val(a[0], s))
        def cas(s, o, a):
            e.store(a[0], self.select(e.bnode(choice(a[2])), val(a[1], s), val(a[0], s)))
            return ()
        def conv(s, o, a):
            # From<o> for s
            return FE(s, val(a[0], o).p)
        def clone(s, o, a): return val(a[0], s)
        T = {'add': binop(1), 'sub': binop(-1), 'add_assign': asg(1), 'sub_assign': asg(-1), 'neg': neg, 'double': dbl,
             'identity': identity, 'generator': generator, 'is_identity': is_id, 'to_affine': to_aff, 'to_curve': to_proj,
             'ct_eq': cteq, 'eq': eq, 'ne': ne, 'conditional_select': sel, 'conditional_assign': cas, 'default': identity,
             'from': conv, 'clone': clone, 'is_on_curve': lambda s, o, a: (val(a[0], s) and 1,)}
        if self.scalars:
            def mul(s, o, a):
                x = a[1]
                if isinstance(x, Ptr):
                    x = ld(x)
                if not isinstance(x, FE) or x.f is not s.scalar:
                    raise Unsupported(f'scalar {x!r}'[:100])
                return FE(proj(s), val(a[0], s).p * x.p)
            def mula(s, o, a):
                e.store(a[0], mul(s, o, a))
                return ()
            T.update(mul=mul, mul_assign=mula)
        NEEDARG = ('add', 'sub', 'add_assign', 'sub_assign', 'from')
        cache = {}
        def classify(fn):
            n = fn.name
            if 'halo2curves' not in n:
                return None
            n = n.replace('&mut ', '').replace('&', '')
            r = split_name(n, types)
            if r is None:
                return None
            t, tr, targ, m, gen = r
            if m not in T or gen:
                return None
            o = None
            if m in NEEDARG:
                o = gs.get(targ) if targ else gs[t]
                if o is None:
                    return None
                if m in ('add', 'sub', 'add_assign', 'sub_assign') and o.short != gs[t].short:
                    return None
            if m in ('mul', 'mul_assign') and targ != gs[t].scalar.name:
                return None
            return (T[m], gs[t], o)
        def pred(fn):
            if fn.id not in cache:
                cache[fn.id] = classify(fn)
            return cache[fn.id] is not None
        def handler(en, fn, a):
            self.gused[fn.name] = self.gused.get(fn.name, 0) + 1
            h, s, o = cache[fn.id]
            return h(s, o, a)
        e.prefix_summaries.insert(0, (pred, handler))

    def same(self, got, exp, what):
        """got (a point value) equals the combination exp under the current path condition"""
        g = self.coerce(got, exp.f) if not isinstance(got, FE) else got
        d = g.p - exp.p
        if d.is_zero():
            return
        # group by point variable and look for an assignment of the atoms on which the coefficient differs
        D = self.eng.bdd
        co = {}
        for m, c in d.t.items():
            pts = tuple(x for x in m if 'pt' in self.gvars.info[x[0]])
            rest = tuple(x for x in m if 'pt' not in self.gvars.info[x[0]])
            co.setdefault(pts, {})[rest] = c
        atoms = sorted({v for m in d.t for v, _ in m if 'pt' not in self.gvars.info[v]})
        if not atoms:
            raise Bad(f'{what}: computed {g!r} but must be {exp!r}'[:600])
        # look for an assignment of the atoms, allowed by the path condition, on which a coefficient differs
        import random
        rnd = random.Random(1)
        pick = sorted(D.support(self.eng.pc))
        for pts, q in co.items():
            ms = sorted(q, key=len)[:6]
            for t in range(40):
                ids = {self.gvars.names[v][1] for v, _ in ms[t % len(ms)]} if t < 2 * len(ms) else \
                    {self.gvars.names[v][1] for v in atoms if rnd.random() < .5}
                ids |= {x for x in pick if t >= len(ms) and rnd.random() < .3}
                n = D.eval(self.eng.pc, ids)
                if not n:
                    continue
                val = 0
                for m, k in q.items():
                    if all(self.gvars.names[v][1] in ids for v, _ in m):
                        val = self.Z.add(val, k)
                if val:
                    w = ', '.join(str(D.atoms[i]) for i in sorted(ids)) or 'all conditions false'
                    raise Bad(f'{what}: the coefficient of {self.show_pts(pts)} differs by {val} when exactly these hold: {w}'[:600])
        raise Unsupported(f'{what}: difference not decided under the path condition')

    def show_pts(self, pts):
        return ' '.join(str(self.gvars.info[v]['pt'][0]) for v, _ in pts) or 'constant'
