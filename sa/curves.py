"""Shared pieces of the curve checks: symbolic points in general position, identity points, the group
law as polynomials, comparison of projective triples modulo the curve equation."""
from lib import *
from field import *
from c04 import Ctx, Bad, same, same_bool, no_panic, leaves, choice, pick, gated_leaves, run_roots, run_items, item_name, timed, Slow
import params as pm


def kind_of(P, t):
    """'P' projective, 'A' affine, 'S' scalar ... of a type named by the probe module"""
    return t


class CCtx(Ctx):
    def __init__(self, P, mod, dom=None):
        super().__init__(P, opaque_q=True, dom=dom)
        self.mod = mod
        bt, st, a, b = pm.CURVES[mod]
        self.base = self.specs[bt]
        self.scalar = self.specs[st]
        self.a = self.base.ring.norm(a)
        self.b = self.base.ring.norm(b)
        self.npts = 0
        def lazy_get(e, fn, args):
            f = [x for x in args if not isinstance(x, Ptr)]
            r = self.lazy.get(fn.name)
            if r is None:
                fv = f[0] if f else None
                if not isinstance(fv, FnV):
                    m = re.search(r'get::<(.*)>', fn.name)
                    raise Unsupported('lazy initialiser')
                sv = e.pc
                v = e.call(fv.fn, [])
                e.pc = sv
                r = self.lazy[fn.name] = v
            return e.ref(r)
        self.lazy = {}
        self.eng.prefix_summaries.insert(0, (lambda f: f.defn.startswith('lazy_static::lazy::Lazy'), lazy_get))
        self.curve_vars = {}        # y var -> x var
        self.ops.nf = lambda p: self.nf(p) if p.ring is self.base.ring and self.curve_vars else p

    # ---- symbolic points ----------------------------------------------------------------------
    def fe(self, p): return FE(self.base, p)

    def xy(self, name):
        x = self.base.vars.new(name + '.x')
        y = self.base.vars.new(name + '.y')
        self.curve_vars[y] = x
        e = self.eng
        zx = self.ops.zero_node(self.fe(Poly.var(self.base.ring, x)))
        zy = self.ops.zero_node(self.fe(Poly.var(self.base.ring, y)))
        # (0,0) is the identity encoding and not a finite curve point because b != 0
        e.assume(e.bdd.Not(e.bdd.And(zx, zy)))
        return Poly.var(self.base.ring, x), Poly.var(self.base.ring, y)

    def point(self, name, kind, case):
        """(value, model) where model is ('fin', x, y) | ('id',)"""
        r = self.base.ring
        if kind == 'A':
            if case == 'id':
                return (self.base.const(0), self.base.const(0)), ('id',)
            x, y = self.xy(name)
            return (self.fe(x), self.fe(y)), ('fin', x, y)
        if case == 'id':
            y = self.base.var(name + '.Y', True)
            return (self.base.const(0), y, self.base.const(0)), ('id', y.p)
        x, y = self.xy(name)
        z = self.base.var(name + '.z', True)
        return (self.fe(x * z.p), self.fe(y * z.p), z), ('fin', x, y, z.p)

    def nf(self, p):
        """normal form modulo y^2 = x^3 + a x + b for every registered point"""
        r = self.base.ring
        while True:
            env = None
            for m in p.t:
                for v, e in m:
                    if v in self.curve_vars and (e >= 2 or e < 0):
                        if e < 0:
                            raise Unsupported('inverse of a y coordinate')
                        env = True
                        break
                if env:
                    break
            if not env:
                return p
            out = Poly(r, {})
            for m, c in p.t.items():
                d = dict(m)
                fac = None
                for v in list(d):
                    if v in self.curve_vars and d[v] >= 2:
                        k = d[v] // 2
                        d[v] -= 2 * k
                        if not d[v]:
                            del d[v]
                        x = self.curve_vars[v]
                        rhs = x if isinstance(x, Poly) else self.rhs_poly(Poly.var(r, x))
                        f = rhs.pow(k)
                        fac = f if fac is None else fac * f
                t = Poly(r, {tuple(sorted(d.items())): c})
                out = out + (t if fac is None else t * fac)
            p = out

    def rhs_poly(self, x):
        r = self.base.ring
        return x * x * x + x.scale(self.a) + Poly.const(r, self.b)

    # ---- reference law ------------------------------------------------------------------------
    def proj(self, m):
        r = self.base.ring
        if m[0] == 'id':
            return (Poly(r, {}), Poly.const(r, 1), Poly(r, {}))
        return (m[1], m[2], Poly.const(r, 1))

    def law(self, P1, P2):
        """complete addition (Bosma-Lenstra / Renes-Costello-Batina, homogeneous)"""
        r = self.base.ring
        a, b3 = self.a, r.mul(r.norm(3), self.b)
        (X1, Y1, Z1), (X2, Y2, Z2) = P1, P2
        xx, yy, zz = X1 * X2, Y1 * Y2, Z1 * Z2
        xy = X1 * Y2 + X2 * Y1
        xz = X1 * Z2 + X2 * Z1
        yz = Y1 * Z2 + Y2 * Z1
        axz = xz.scale(a) + zz.scale(b3)
        u = yy - axz
        v = yy + axz
        w = xx.scale(a) + xz.scale(b3) - zz.scale(r.mul(a, a))
        t = xx.scale(3) + zz.scale(a)
        return (xy * u - yz * w, t * w + v * u, yz * v + xy * t)

    def neg(self, P1):
        return (P1[0], -P1[1], P1[2])

    def same_point(self, got, ref, what):
        """got (triple of FE, possibly gated) = unit * ref modulo the curve equations"""
        def triples(vals):
            idx = [i for i, v in enumerate(vals) if isinstance(v, G)]
            if not idx:
                yield 1, vals
                return
            i = idx[0]
            for g, x in vals[i].alts:
                if self.eng.feasible(g):
                    sv = self.eng.pc
                    self.eng.pc = self.eng.bdd.And(sv, g)
                    for h, t in triples(vals[:i] + [x] + vals[i + 1:]):
                        yield self.eng.bdd.And(g, h), t
                    self.eng.pc = sv
        refs = ref if isinstance(ref, list) else [ref]
        RS = [[self.nf(x) for x in y] for y in refs]
        R = RS[0]
        for g, t in triples(list(leaves(got))):
            if not all(isinstance(x, FE) for x in t):
                raise Bad(f'{what}: not coordinates')
            T = [self.nf(x.p) for x in t]
            if any(self.unit_ratio(T, x) for x in RS):
                continue
            for i in range(3):
                for j in range(i):
                    d = self.nf(T[i] * R[j] - T[j] * R[i])
                    if not d.is_zero():
                        raise Bad(f'{what}: coordinates {"XYZ"[j]},{"XYZ"[i]} are not those of the expected point'
                                  + ('' if g == 1 else ' when ' + self.eng.bdd.show(g)[:200]))
            if all(x.is_zero() for x in T):
                raise Bad(f'{what}: (0,0,0) is not a point')
            raise Unsupported(f'{what}: proportional to the expected point but the factor is not a known unit')

    def unit_ratio(self, T, R):
        r = self.base.ring
        if all(x == y for x, y in zip(T, R)):
            return True
        for x, y in zip(T, R):
            if x.is_zero() != y.is_zero():
                return False
        for x, y in zip(T, R):
            if x.is_zero():
                continue
            mx, my = max(x.t), max(y.t)
            # candidate ratio: quotient of contents
            cx, cy = x.content(), y.content()
            m = dict(cx)
            for v, e in cy:
                m[v] = m.get(v, 0) - e
            m = tuple(sorted((v, e) for v, e in m.items() if e))
            if any(v not in self.base.vars.unit for v, e in m):
                return False
            xr, yr = x.div_mono(cx), y.div_mono(cy)
            k = max(yr.t)
            if k not in xr.t:
                return False
            c = r.mul(xr.t[k], r.inv(yr.t[k]))
            lam = Poly(r, {m: c})
            return all(a == b * lam for a, b in zip(T, R))
        return False


def tkind(ctx, t):
    """P/A/None for a probe argument type"""
    P = ctx.P
    while t.k == 'ref':
        t = P.types[t.d['to']]
    if t.k == 'array':
        return tkind(ctx, P.types[t.d['elem']])
    if ctx.eng.fe_of(t):
        return 'F'
    if t.k == 'struct':
        n = [x for x, _ in t.d['variants'][0][2]]
        if n == ['x', 'y', 'z']:
            return 'P'
        if n == ['x', 'y']:
            return 'A'
    return None


def make_args(ctx, fid, cases):
    """build arguments for a probe root; cases: per-point 'fin'|'id'.  returns (args, points)"""
    P, eng = ctx.P, ctx.eng
    fn = P.fns[fid]
    args, pts = [], []
    it = iter(cases)
    names = iter('PQRSTU')
    def build(t):
        if t.k == 'ref':
            return eng.ref(build(P.types[t.d['to']]))
        if t.k == 'array':
            return tuple(build(P.types[t.d['elem']]) for _ in range(t.d['len']))
        k = tkind(ctx, t)
        if k in ('P', 'A'):
            v, m = ctx.point(next(names), k, next(it))
            pts.append((k, m, v))
            return v
        return ctx.sym(t, next(names).lower())
    for i in range(fn.argc):
        args.append(build(P.types[fn.locals[1 + i]]))
    return args, pts


def count_points(ctx, fid):
    P = ctx.P
    def n(t):
        if t.k == 'ref':
            return n(P.types[t.d['to']])
        if t.k == 'array':
            return n(P.types[t.d['elem']]) * t.d['len']
        return 1 if tkind(ctx, t) in ('P', 'A') else 0
    fn = P.fns[fid]
    return sum(n(P.types[fn.locals[1 + i]]) for i in range(fn.argc))
