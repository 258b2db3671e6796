"""C18 multi-scalar multiplication"""
from group import *
from c07 import run_items
import itertools
import math
import par

THREADS = (1, 2, 3, 8)


class MDom(GDom):
    """group elements, machine integers as bit lists, arrays indexed by undetermined integers"""

    def merge(self, eng, flat):
        if all(isinstance(v, En) for _, v in flat):
            # alternatives of the same variant are joined field by field
            by = {}
            for g, v in flat:
                by.setdefault((v.v, len(v.f)), []).append((g, v))
            out = []
            for (var, n), alts in by.items():
                g = 0
                for h, _ in alts:
                    g = eng.bdd.Or(g, h)
                f = tuple(eng._join2([(h, v.f[i]) for h, v in alts]) for i in range(n)) if len(alts) > 1 else alts[0][1].f
                out.append((g, En(var, f)))
            return out[0][1] if len(out) == 1 else G(out)
        specs = [v.f for _, v in flat if isinstance(v, FE) and isinstance(v.f, GSpec)]
        if specs and self.ctx.owned:
            # values left over in dead variables stay gated
            r = self.ctx.interpolate([(g, self.ctx.coerce(v, specs[0]).p) for g, v in flat])
            return FE(specs[0], r) if r is not None else None
        return super().merge(eng, flat)

    known = None                # condition that holds throughout (kept out of the path condition, so that joins stay small)

    def binop(self, eng, op, a, b, t, t2):
        r = super().binop(eng, op, a, b, t, t2)
        if self.known is not None and isinstance(r, B):
            D = eng.bdd
            if D.And(self.known, D.Not(r.n)) == 0:
                return 1
            if D.And(self.known, r.n) == 0:
                return 0
        return r

    def alts(self, eng, e):
        """the values an undetermined index can take"""
        n = len(e.b) if isinstance(e, BV) else 1
        out = []
        def go(i, g, v):
            if g == 0:
                return
            if i < 0:
                out.append((g, v))
                if len(out) > 4096:
                    raise Unsupported('index takes too many values')
                return
            b = bits[i]
            if b != 0:
                go(i - 1, eng.bdd.And(g, b), v | 1 << i)
            if b != 1:
                go(i - 1, eng.bdd.And(g, eng.bdd.Not(b)), v)
        bits = bits_of(e, n)
        go(n - 1, eng.pc, 0)
        return out

    def sym_index(self, eng, v, e):
        if not isinstance(e, (BV, B)) or not isinstance(v, tuple):
            return None
        return eng.mkg([(g, v[k]) for g, k in self.alts(eng, e) if k < len(v)])

    def sym_store(self, eng, v, e, rest, x):
        if not isinstance(e, (BV, B)):
            return None
        out = list(v)
        for g, k in self.alts(eng, e):
            if k < len(v):
                out[k] = eng.ite(g, eng.put(v[k], rest, x), v[k])
        return tuple(out)


class MCtx(GCtx):
    """values joined under guards are interpolated over the digits of the scalar that multiplies each point, which keeps
    accumulated sums linear (the guards of the bucket states only say which digits vanish)"""

    def __init__(self, P, mods, **k):
        self.owned = {}             # point name -> set of atoms
        super().__init__(P, mods, dom=MDom(), **k)
        self.eng.call = self.fork_call

    def fork_call(self, fid, args, span=None):
        """a call that is given a reference to an undetermined array element is analysed once per element"""
        e = self.eng
        for i, a in enumerate(args):
            if isinstance(a, Ptr):
                for j, s in enumerate(a.path):
                    if isinstance(s, (BV, B)):
                        cases = [(g, args[:i] + [Ptr(a.cell, a.path[:j] + (k,) + a.path[j + 1:], a.meta)] + args[i + 1:])
                                 for g, k in self.dom.alts(e, s)]
                        return self.fork(cases, fid, span)
        return Engine.call(e, fid, args, span)

    def fork(self, cases, fid, span):
        e, D = self.eng, self.eng.bdd
        mem0, pc0, sp = e.mem, e.pc, e.stack[-1]
        outs, rets = [], []
        for g, args in cases:
            if D.And(pc0, g) == 0:
                continue
            e.mem, e.pc = dict(mem0), D.And(pc0, g)
            depth = len(e.stack)
            e.stack[-1] = sp
            try:
                r = self.fork_call(fid, args, span)
            except Diverge:
                del e.stack[depth:]
                continue
            outs.append((e.pc, e.mem))
            rets.append((e.pc, r))
        if not outs:
            raise Diverge('all elements diverge')
        e.stack[-1] = sp
        pc = 0
        for c, _ in outs:
            pc = D.Or(pc, c)
        e.pc = pc
        if len(outs) == 1:
            e.mem = outs[0][1]
            return rets[0][1]
        e.mem = e.merge_mem(mem0, outs)
        return e.mkg(rets)

    def weigh(self, alts):
        if self.owned and len(alts) > 1:
            r = self.interpolate(alts)
            if r is not None:
                return r
        return super().weigh(alts)

    def interpolate(self, alts):
        D, e = self.eng.bdd, self.eng
        gs = [D.And(g, e.pc) for g, _ in alts]
        sup = set()
        for g in gs:
            sup |= D.support(g)
        base = alts[-1][1]
        # coefficient of every point in the differences from the last alternative
        co = []
        pts = {}
        for _, v in alts:
            d = v - base
            q = {}
            for m, c in d.t.items():
                ps = [x for x in m if 'pt' in self.gvars.info[x[0]]]
                if len(ps) != 1 or ps[0][1] != 1:
                    return None
                p = ps[0][0]
                rest = tuple(x for x in m if x[0] != p)
                q.setdefault(p, {})[rest] = c
                pts.setdefault(p, set()).update(self.gvars.names[x[0]][1] for x in rest)
            co.append(q)
        out = base
        for p, at in pts.items():
            at = at | (self.owned.get(self.gvars.info[p]['pt'][0], set()) & sup)
            if len(at) > 12:
                return None
            at = sorted(at)
            # the coefficient depends on these atoms only
            memo, keep = {}, set(at)
            r = self.tree(at, 0, [D.project(g, keep, memo) for g in gs], [q.get(p, {}) for q in co])
            if r is None:
                return None
            if r is not False:
                out = out + r * Poly.var(self.Z, p)
        return out

    def tree(self, at, i, gs, cs):
        """polynomial that equals cs[j] wherever gs[j] holds; False when nothing is required, None when it does not exist"""
        D = self.eng.bdd
        live = [(g, c) for g, c in zip(gs, cs) if g]
        if not live:
            return False
        if i == len(at):
            v0 = live[0][1]
            if any(c != v0 for _, c in live[1:]):
                return None
            assert all(not m for m in v0)
            return Poly.const(self.Z, v0[()]) if v0 else Poly(self.Z, {})
        a = at[i]
        gv = self.gvars.new(('b', a))
        def sub(c, val):
            if not any(x[0] == gv for m in c for x in m):
                return c
            o = {}
            for m, k in c.items():
                if any(x[0] == gv for x in m):
                    if not val:
                        continue
                    m = tuple(x for x in m if x[0] != gv)
                k2 = self.Z.add(o.get(m, 0), k)
                o[m] = k2
            return {m: k for m, k in o.items() if k}
        r = []
        for val in (0, 1):
            x = self.tree(at, i + 1, [D.restrict(g, a, val) for g, _ in live], [sub(c, val) for _, c in live])
            if x is None:
                return None
            r.append(x)
        lo, hi = r
        if lo is False:
            return hi
        if hi is False:
            return lo
        d = hi - lo
        return lo if d.is_zero() else lo + self.bmul(Poly.var(self.Z, gv), d)


def floats(eng):
    """f64 arithmetic on constants (the window width)"""
    S = eng.summaries
    PS = eng.prefix_summaries
    def f64(v):
        if isinstance(v, float):
            return v
        if type(v) is int:
            import struct
            return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
        raise Unsupported(f'float {v!r}'[:80])
    F = {'ln': lambda x: math.log(x), 'log': lambda x: math.log(x), 'log2': lambda x: math.log2(x), 'ceil': lambda x: float(math.ceil(x)),
         'floor': lambda x: float(math.floor(x)), 'sqrt': lambda x: math.sqrt(x)}
    def find(f):
        m = re.fullmatch(r'(?:std|core)::(?:f64::|num::imp::libm::(?:likely_available::)?|num::)?(?:<impl f64>::)?(\w+)', f.defn)
        return m.group(1) if m and m.group(1) in F and ('f64' in f.name or 'libm' in f.name) else None
    PS.append((lambda f: find(f) is not None, lambda e, f, a: F[find(f)](f64(a[0]))))
    cast = eng.cast
    def cast2(kind, v, ft, tt, vt=None):
        if kind == 'IntToFloat':
            if type(v) is not int:
                raise Unsupported('float of an undetermined integer')
            return float(v)
        if kind == 'FloatToInt':
            return max(0, int(f64(v)))
        return cast(kind, v, ft, tt, vt)
    eng.cast = cast2


def setup(P, mod, n, th, nbytes=None):
    c = MCtx(P, [mod])
    par.install(c.eng, th, c.codec.vec)
    c.eng.max_steps = 200000000
    floats(c.eng)
    A = c.of[(mod, 'A')]
    f = A.scalar
    ks = [f.var(f'k{i}', real=True) for i in range(n)]
    gs = [A.pt(f'P{i}') for i in range(n)]
    return c, ks, gs


def entry(fn, P, c, ks, gs, acc=None):
    e = c.eng
    a = [e.ref(tuple(ks)), e.ref(tuple(gs))]
    if acc is not None:
        a.append(e.ref(acc))
    return a


def serial(P, mod, n, k, fid, live=None):
    """scalars whose largest non-zero byte is byte k-1; live: positions of the scalars that are not zero"""
    c, ks, gs = setup(P, mod, n, 1)
    e, D = c.eng, c.eng.bdd
    ps = c.of[(mod, 'P')]
    bits, top = [], 0
    for i, x in enumerate(ks):
        if live is not None and i not in live:
            ks[i] = x.f.const(0)
            bits.append(())
            continue
        b = c.codec.enc_bits(x, 'can')
        b = b[:8 * k] + (0,) * (len(b) - 8 * k)
        c.codec.back[('can', x.f.short, c.codec.key(x).key())] = b
        bits.append(b)
        c.owned[f'P{i}'] = {D.nodes[y][0] for y in b if y > 1}
        for y in b[8 * (k - 1):8 * k] if k else ():
            top = D.Or(top, y)
    if k and top == 0:
        return None
    if k:
        c.dom.known = top
    a = entry(P.fns[fid], P, c, ks, gs, ps.const(0))
    e.call(fid, a)
    no_panic(c, f'scalars of {k} bytes')
    if k:
        e.assume(top)
    exp = Poly(c.Z, {})
    for b, g in zip(bits, gs):
        exp = exp + c.bmul(c.bit_int(b), g.p)
    c.same(e.load(a[2]), FE(ps, exp), f'sum of {n} products, scalars of {k} bytes')
    return c


def consts(p):
    """scalars at the edges of bytes, windows and of the field"""
    b = (p - 1).bit_length()
    return [0, 1, 2, 127, 128, 255, 256, 0x8000, 1 << b - 1, 1 << 64, p - 1, p - 2, (p - 1) // 2, p - 255]


def corner(P, mod, n, fid, part):
    """constant scalars (which also determine control flow that depends on the scalars): every pair of edge values"""
    ctx = None
    p = GCtx(P, [mod]).of[(mod, 'A')].scalar.ring.p
    vs = [v % p for v in consts(p)]
    cases = [(a, a) for a in vs] + [(a, (p - a) % p) for a in vs[1:4]] + [(vs[-1], 0), (0, vs[8])]
    if n > 2:
        cases = cases[1:12:2]
    for j, (x, y) in enumerate(cases):
        if j % 4 != part:
            continue
        c, ks, gs = setup(P, mod, n, 1)
        ctx = ctx or c
        kv = [(x, y)[i % 2] if i in (0, 1, n - 1) else 0 for i in range(n)]
        ps = c.of[(mod, 'P')]
        a = entry(P.fns[fid], P, c, [ks[0].f.const(k) for k in kv], gs, ps.const(0))
        c.eng.call(fid, a)
        no_panic(c, f'scalars {kv}')
        exp = Poly(c.Z, {})
        for k, g in zip(kv, gs):
            exp = exp + g.p.scale(k)
        c.same(c.eng.load(a[2]), FE(ps, exp), f'sum of {n} products, scalars {kv}'[:300])
    return ctx


class SDom(GDom):
    def binop(self, eng, op, a, b, t, t2):
        return super().binop(eng, op, a, b, t, t2)


def scalar_ctx(P, mod, n, th, inner):
    """points of order r with scalar coefficients; inner: msm_serial on the identity yields the sum of the products"""
    c = GCtx(P, [mod], scalars=True)
    e = c.eng
    par.install(e, th, c.codec.vec)
    floats(e)
    f = c.of[(mod, 'A')].scalar
    ks = [f.var(f'k{i}', real=True) for i in range(n)]
    gs = [c.of[(mod, 'A')].pt(f'P{i}') for i in range(n)]
    c.inner = 0
    def h(en, fn, a):
        k, g = a[0], a[1]
        if type(k.meta) is not int or type(g.meta) is not int:
            raise Unsupported('slices of undetermined length')
        if k.meta != g.meta:
            raise Diverge('length assertion')
        acc = en.load(a[2])
        if not isinstance(acc, FE) or not acc.p.is_zero():
            raise Bad(f'a partial sum is accumulated onto {acc!r}, which the windows would scale'[:300])
        c.inner += 1
        r = acc.p
        for i in range(k.meta):
            x, p = en.load(en.ptr_off(k, i)), en.load(en.ptr_off(g, i))
            r = r + c.coerce(p).p * x.p
        en.store(a[2], FE(acc.f, r))
        return ()
    if inner:
        e.prefix_summaries.insert(0, (lambda f: f.defn == 'halo2curves::msm::msm_serial', h))
    return c, ks, gs


def parallel(P, mod, op, n, th, fid):
    c, ks, gs = scalar_ctx(P, mod, n, th, True)
    e = c.eng
    ps = c.of[(mod, 'P')]
    r = e.call(fid, entry(None, P, c, ks, gs))
    no_panic(c, f'{n} pairs, {th} threads')
    exp = Poly(c.Z, {})
    for k, g in zip(ks, gs):
        exp = exp + g.p * k.p
    got = c.coerce(r, ps)
    d = got.p - exp
    if not d.is_zero():
        m, co = sorted(d.t.items())[0]
        raise Bad(f'{n} pairs, {th} threads: the sum differs from the sum of the products by {co} * ' + ' * '.join(c.gvars.show(v) for v, _ in m))
    return c


def mismatch(P, mod, op, nk, ng, fid):
    """a call with different numbers of scalars and points never returns"""
    c, ks, gs = scalar_ctx(P, mod, max(nk, ng), 2, False)
    e = c.eng
    a = entry(None, P, c, ks[:nk], gs[:ng], c.of[(mod, 'P')].const(0) if op == 'bads' else None)
    try:
        e.call(fid, a)
    except Diverge:
        return c
    raise Bad(f'{nk} scalars and {ng} points are accepted')


# ---- the affine path of msm_best ---------------------------------------------------------------------------------
def fields(t):
    """struct field name -> position"""
    return {n: i for i, (n, _) in enumerate(t.d['variants'][0][2])}


def target(P, t):
    while t.k in ('ref', 'ptr') or t.k in ('slice', 'array'):
        t = P.types[t.d['to'] if t.k in ('ref', 'ptr') else t.d['elem']]
    return t


def batch_layout(P, fid):
    """how buckets, scheduled points and local affine points are represented (None: not the known structure)"""
    f = P.fns[fid]
    if f.argc != 4:
        return None
    bt, st, at = (target(P, P.types[f.locals[i]]) for i in (2, 3, 4))
    try:
        var = {v[0]: i for i, v in enumerate(bt.d['variants'])}
        lay = dict(none=var['None'], point=var['Point'], s=fields(st), a=fields(at), bt=bt, at=at, st=st)
    except (KeyError, IndexError, TypeError):
        return None
    if set(lay['s']) != {'base_idx', 'buck_idx', 'sign'} or set(lay['a']) != {'x', 'y'}:
        return None
    return lay


def mk(order, **v):
    out = [None] * len(order)
    for k, i in order.items():
        out[i] = v[k]
    return tuple(out)


def affine_batch(P, mod, cases, fid):
    """batch_add on buckets (x, y) and bases: general addition, doubling and cancellation, in every combination"""
    from curves import CCtx
    c = CCtx(P, mod)
    e = c.eng
    lay = batch_layout(P, fid)
    if lay is None:
        raise Unsupported('batch addition is not of the known form')
    r = c.base.ring
    m = len(cases)
    nb = m + 2
    A = lambda x, y: mk(lay['a'], x=x, y=y)
    buckets = [En(lay['none'], ()) for _ in range(nb)]
    bases = [None] * (m + 1)
    sched, want = [], {}
    fe = c.fe
    for j, (kind, sign) in enumerate(cases):
        bi, bu = (j + 1) % (m + 1), (nb - 1 - j)
        x = c.base.var(f'x{j}').p
        if kind == 'add':
            d, y, Y = c.base.var(f'd{j}', True).p, c.base.var(f'y{j}').p, c.base.var(f'Y{j}').p
            X = x + d
            di = Poly(r, {tuple((v, -k) for v, k in mm): q for mm, q in d.t.items()})
            t = y if sign else -y
            lam = (Y - t) * di
        else:
            Y = c.base.var(f'Y{j}', True).p
            X = x
            y = Y if sign == (kind == 'dbl') else -Y
            t = y if sign else -y
            di = Poly(r, {tuple((v, -k) for v, k in mm): q for mm, q in Y.t.items()})
            lam = ((x * x).scale(r.norm(3)) + Poly.const(r, c.a)) * di.scale(r.inv(r.norm(2)))
        buckets[bu] = En(lay['point'], (A(fe(X), fe(Y)),))
        bases[bi] = A(fe(x), fe(y))
        sched.append(mk(lay['s'], base_idx=bi, buck_idx=bu, sign=int(sign)))
        if kind == 'opp':
            want[bu] = None
        else:
            x3 = lam * lam - X - x
            want[bu] = (x3, lam * (x - x3) - t)
    if bases[0] is None:
        bases[0] = A(c.base.var('u'), c.base.var('v'))
    if m == 0:
        bases = bases[:1]
    keep = En(lay['point'], (A(c.base.var('w'), c.base.var('z')),))
    buckets[0] = keep
    pb = e.ref_slice(buckets)
    # the schedule is a fixed-size array whose unused entries are default values
    pad = [mk(lay['s'], base_idx=0, buck_idx=0, sign=0)] * 2
    e.call(fid, [m, pb, e.ref_slice(sched + pad), e.ref_slice(bases)])
    no_panic(c, f'batch of {m}')
    got = [e.load(e.ptr_off(pb, i)) for i in range(nb)]
    for i, g in enumerate(got):
        w = f'bucket {i} after {cases}'
        if i in want and want[i] is not None:
            if not isinstance(g, En) or g.v != lay['point']:
                raise Bad(f'{w}: {g!r} but must be a point'[:400])
            x, y = g.f[0][lay['a']['x']], g.f[0][lay['a']['y']]
            if not (x.p - want[i][0]).is_zero() or not (y.p - want[i][1]).is_zero():
                raise Bad(f'{w}: not the sum of the bucket and the signed base')
        elif i in want or i:
            if not isinstance(g, En) or g.v != lay['none']:
                raise Bad(f'{w}: {g!r} but must be empty'[:400])
        elif g != keep:
            raise Bad(f'{w}: a bucket that is not scheduled changes')
    return c


def scenario(n, nbits):
    """positions -> (scalar, point index, sign): repeated, negated and identity points meeting in the buckets of some windows.
    The scalars are chosen to fill a batch (64 scheduled points) and to hit a bucket once, twice and more often."""
    import random
    rnd = random.Random(7)
    out = {}
    pos = iter(range(3, n, 11))
    def put(k, name, s=1):
        out[next(pos)] = (k, name, s)
    for w in (0, 1, 3):
        sh = 10 * w
        neg = lambda m: (1024 - m) << sh                         # digit -m here and 1 in the next window
        for i in range(70):
            put((i + 1) << sh, f'a{w}_{i}')                      # fills buckets 0..69 of the window
        put(7 << sh, None)                                       # an identity meets a filled bucket
        put(neg(8), None)
        for i in range(70 if w == 0 else 5):                     # second hits: general, equal and opposite points
            put((i + 1) << sh, *[(f'b{w}_{i}', 1), (f'a{w}_{i}', 1), (f'a{w}_{i}', -1)][i % 3])
        for i in range(0, 20, 4):                                # third hits
            put((i + 1) << sh, f'c{w}_{i}')
        for i in range(30, 36):                                  # negative digits: second and third hits, first hits
            put(neg(i + 1), *[(f'n{w}_{i}', 1), (f'a{w}_{i}', 1), (f'a{w}_{i}', -1)][i % 3])
        for i in range(30, 36):
            put(neg(i + 1), f'm{w}_{i}')
        for i in range(80, 83):
            put(neg(i + 1), f'f{w}_{i}')
            put((i + 1) << sh, f'g{w}_{i}')
            put(neg(i + 1), f'h{w}_{i}')
        put((1 << sh) * 512, f'd{w}')                            # the extreme digit
        put((1 << sh) * 511, f'e{w}')
        put((1 << sh) * 3, None)
    for i in range(4):
        put(rnd.getrandbits(nbits - 2) | 1 << (nbits - 3), f'r{i}')
    return out


def best_big(P, mod, n, th, fid):
    c = GCtx(P, [mod])
    e = c.eng
    e.max_steps = 400000000
    par.install(e, th, c.codec.vec)
    floats(e)
    A, ps = c.of[(mod, 'A')], c.of[(mod, 'P')]
    # points in general position: two combinations are equal only when they are the same combination
    c.zero = lambda p: int(p.is_zero())
    f = A.scalar
    sc = scenario(n, f.ring.p.bit_length())
    ks, gs, exp = [], [], Poly(c.Z, {})
    zero = f.const(0)
    for i in range(n):
        if i in sc:
            k, name, s = sc[i]
            g = A.const(0) if name is None else A.pt(name)
            if s < 0:
                g = FE(A, -g.p)
            ks.append(f.const(k))
            exp = exp + g.p.scale(k)
        else:
            g = A.pt(f'z{i}')
            ks.append(zero)
        gs.append(g)
    used = {'batch': 0}
    for x in P.fns.values() if isinstance(P.fns, dict) else P.fns:
        if x is None or x.raw is None:
            continue
        if x.defn == BATCH and A.name in x.name:
            lay = batch_layout(P, x.id)
            if lay is None:
                raise Unsupported('batch addition is not of the known form')
            at = lay['at'].s
            old = e.type_fe
            e.type_fe = lambda t: A if t.s == at else old(t)
            for t in P.types.values() if isinstance(P.types, dict) else P.types:
                if t is not None and t.s == at:
                    t.fe = A
            def badd(en, fn, a, lay=lay):
                m, pb, sp, gp = a
                if type(m) is not int or m > sp.meta:
                    raise Unsupported('batch size')
                used['batch'] += 1
                seen = set()
                for j in range(m):
                    s = en.load(en.ptr_off(sp, j))
                    bi, bu, sg = (s[lay['s'][q]] for q in ('base_idx', 'buck_idx', 'sign'))
                    if any(type(q) is not int for q in (bi, bu, sg)):
                        raise Unsupported('undetermined schedule')
                    if bu in seen:
                        raise Bad(f'bucket {bu} is scheduled twice in one batch, which batch addition does not support')
                    seen.add(bu)
                    q = en.ptr_off(pb, bu)
                    b = en.load(q)
                    if b.v == lay['none']:
                        continue
                    g = c.coerce(en.load(en.ptr_off(gp, bi)), A)
                    if g.p.is_zero():
                        raise Bad('an identity point is scheduled for batch addition, which does not support it')
                    t = c.coerce(b.f[0], A).p + (g.p if sg else -g.p)
                    en.store(q, En(lay['none'], ()) if t.is_zero() else En(lay['point'], (FE(A, t),)))
                return ()
            e.summaries[('fid', x.id)] = badd
            e.prefix_summaries.insert(0, (lambda fn, i=x.id: fn.id == i, badd))
    # the digit extraction is a pure function of its integer arguments
    memo = {}
    def booth(en, fn, a):
        k = tuple(a[:2]) + (en.load(a[2].cell) if 0 else tuple(en.load(en.ptr_off(a[2], i)) for i in range(a[2].meta)),)
        r = memo.get(k)
        if r is None:
            r = memo[k] = en.interp(fn, list(a))
        return r
    def pure(fn):
        return fn.defn == 'halo2curves::msm::get_booth_index' and fn.argc == 3
    e.prefix_summaries.insert(0, (pure, booth))
    r = e.call(fid, [e.ref(tuple(ks)), e.ref(tuple(gs))])
    no_panic(c, f'{n} pairs')
    c.same(r, FE(ps, exp), f'sum of {n} products')
    c.used = used
    return c


BYTES = {'pl_g1': 56}
BATCH = 'halo2curves::msm::batch_add'
lead_ = lambda mod: mod == 'bn_g1'


def main():
    chk = Check('C18', '', level='other', rule='the accumulated point is the sum of the products, coefficient by coefficient',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'point operations form a group (C07, C08)',
                         'to_repr returns the canonical bytes (C09)', 'rayon runs every closure it is given once'])
    P = dump('C18', ['msm', 'curve'])
    deep = chk.tier == 'thorough'
    its = []
    for r, i in sorted(P.roots.items()):
        if '::msm::' not in r:
            continue
        mod, op = r.split('::')[-2:]
        nb = BYTES.get(mod, 32)
        if op.startswith('bad'):
            its.append((('bad', r), i, 0))
            continue
        n = int(op[1:])
        if op[0] in 'pb':
            if n == 8104 and op[0] == 'b' and (deep or lead_(mod)):
                its.append((('big', r), i, 1e9))
            if n < 8104:
                for th in THREADS:
                    its.append((('par', r, th), i, n))
            continue
        lead = mod == 'bn_g1'
        if n == 0:
            ks = [0]
        elif n == 1:
            ks = range(nb + 1) if lead or deep else [0, 1, 2, nb - 1, nb]
        elif n == 2:
            ks = range(nb + 1) if deep else [0, 1, 2, 3, 17, nb - 1, nb] if lead else [0, 1, 2, nb]
        elif n <= 5:
            ks = range(nb + 1) if deep else [0, 1, 2, 3, nb] if lead and n != 5 else [0, 1, 2, 3]
        elif n <= 17:
            ks = range(5) if deep else [0, 1]
        elif n <= 32 and lead:
            ks = range(3) if deep else [0, 1]
        else:
            ks = ()
        if n == 2 or n == 32 and lead:
            for j in range(4):
                its.append((('corner', r, j), i, n))
        for k in ks:
            its.append((('serial', r, k), i, n * n * (k + 1) * 2))
        # larger sizes (wider windows): two scalars that are not zero
        big = {32: nb, 55: nb if deep else 12, 149: nb if deep else 5, 500: nb if deep else 3, 1097: 8 if deep else 2, 2981: 3 if deep else 2, 8104: 2 * deep}
        if big.get(n) and (lead or n == 32):
            its.append((('sparse', r, big[n]), i, n * big[n]))
    for f in P.fns:
        if f is None or f.raw is None or f.defn != BATCH:
            continue
        for mod in ('bn_g1', 'bls_g1', 'r1', 'pl_g1', 'bn_g2'):
            if not f.name.endswith('<' + GCtx(P, [mod]).of[(mod, 'A')].name + '>'):
                continue
            kinds = [(k, s) for k in ('add', 'dbl', 'opp') for s in (True, False)]
            for m in range(4 if deep else 3):
                its += [(('batch:' + mod, cs), f.id, 0) for cs in itertools.product(kinds, repeat=m)]
            if not deep:
                its += [(('batch:' + mod, (a, b, a)), f.id, 0) for a in kinds for b in kinds]
    if len(its) < 100:
        print('probe roots missing')
        sys.exit(2)
    its.sort(key=lambda x: -x[2])
    def fn(P, item, fid):
        if item[0].startswith('batch:'):
            return affine_batch(P, item[0][6:], item[1], fid)
        mod, op = item[1].split('::')[-2:]
        if item[0] == 'serial':
            return serial(P, mod, int(op[1:]), item[2], fid)
        if item[0] == 'big':
            return best_big(P, mod, int(op[1:]), 2, fid)
        if item[0] == 'corner':
            return corner(P, mod, int(op[1:]), fid, item[2])
        if item[0] == 'sparse':
            return serial(P, mod, int(op[1:]), item[2], fid, live=(0, int(op[1:]) - 1))
        if item[0] == 'par':
            return parallel(P, mod, op[0], int(op[1:]), item[2], fid)
        x = op.split('_')
        return mismatch(P, mod, x[0], int(x[1]), int(x[2]), fid)
    run_items(P, chk, [(a, b) for a, b, _ in its], fn, 'sum of the products')
    chk.finish()
