"""Analyses of the prime fields' limb code in the limb domain: context, obligations, refutation."""
import random
from lib import *
from limb import *
from limbdec import Decider
import params as pm, summ
from c04 import Bad


class LCtx:
    def __init__(self, P, ftype):
        self.P = P
        self.ftype = ftype
        self.short, self.p, self.n = pm.FIELDS[ftype]
        for t in P.types:
            t.fe = None
        d = self.dom = LimbDom()
        e = self.eng = Engine(P, dom=d)
        d.eng = e
        d.inv = -pow(self.p, -1, 1 << 64) % (1 << 64)
        summ.install(e)
        self.groups = []        # (ids, lo, hi, bits per atom)
        self.R = 1 << (64 * self.n)

    # ---- inputs ------------------------------------------------------------------------------
    def limbs(self, name, hi, n=None, bits=64):
        n = n or self.n
        ls = tuple(self.dom.inp(f'{name}{j}', min((1 << bits) - 1, hi >> (bits * j))) for j in range(n))
        ids = []
        for l in ls:
            if isinstance(l, L):
                ids.append(next(iter(l.p.t))[0])
        assert len(ids) == n
        self.groups.append((ids, 0, hi, bits))
        return ls

    def elem(self, name):
        return (self.limbs(name, self.p - 1),)

    def decider(self, his=None):
        g = [(ids, lo, (his or {}).get(i, hi), b) for i, (ids, lo, hi, b) in enumerate(self.groups)]
        dec = Decider(self.dom, self.n, g)
        return dec

    def gvar(self, dec, i):
        return LP({(dec.gv[i],): 1})

    def cuts(self, dec):
        """name the element results of calls: a result decided to be canonical becomes fresh words that keep its residue"""
        d = self.dom
        def post(e, fn, args, r):
            t = self.P.types[fn.locals[0]]
            if t.s != self.ftype or not (isinstance(r, tuple) and len(r) == 1 and isinstance(r[0], tuple) and len(r[0]) == self.n):
                return r
            ws = r[0]
            if not any(isinstance(w, L) and (len(w.p.t) > 1 or d.atoms[next(iter(w.p.atoms()))].kind in ('fl', 'neg', 'word')) for w in ws):
                return r
            if not all(isinstance(w, (L, int)) for w in ws):
                return r
            try:
                if dec.value(ws, None, self.p):
                    return r
            except Unsupported:
                return r
            out = []
            for j, w in enumerate(ws):
                a = d.atom('cut', (len(d.atoms), j), 0, min(W64, self.p >> (64 * j)), d.P(w))
                out.append(L(LP({(a.id,): 1}), 0, a.hi))
            g = dec.add_group([next(iter(w.p.t))[0] for w in out], 0, self.p - 1, 64)
            dec.residues[g] = dec.common
            return (tuple(out),)
        self.eng.post = post

    def tables(self, dec):
        """symbolic look-ups in large constant tables of field elements: entry i must represent the integer i"""
        d, n, p = self.dom, self.n, self.p
        def big(eng, arr, idx):
            if arr.t.s != self.ftype or arr.t.size != 8 * n:
                raise Unsupported('large table of ' + arr.t.s)
            raw = bytes.fromhex(arr.hx)
            ent = [int.from_bytes(raw[i * 8 * n:(i + 1) * 8 * n], 'little') for i in range(arr.n)]
            for i, v in enumerate(ent):
                if v != i * self.R % p:
                    raise Bad(f'table entry {i} is {hex(v)}, the element {i} is represented by {hex(i * self.R % p)}')
            ip = d.P(idx)
            out = []
            for j in range(n):
                a = d.atom('tab', (id(arr), ip.key(), j), 0, W64 if j < n - 1 else p >> (64 * j), (ip, [(v >> (64 * j)) & W64 for v in ent]))
                out.append(L(LP({(a.id,): 1}), 0, a.hi))
            g = dec.add_group([next(iter(w.p.t))[0] for w in out], 0, p - 1, 64)
            dec.residues[g] = dec.cov(ip.scale(self.R))
            return (tuple(out),)
        d.big_index = big

    # ---- witnesses ---------------------------------------------------------------------------
    def points(self, extra=()):
        """directed instantiation points: tuples of group values"""
        hs = [g[2] for g in self.groups]
        bits = [g[3] * len(g[0]) for g in self.groups]
        p = self.p
        rnd = random.Random(7)
        def cands(h, nb):
            s = {0, 1, 2, 3, h, h - 1, h // 2, h // 2 + 1, (h + 1) // 2, p - 1, p, p + 1, p // 2, p // 2 + 1, p - 2, 2 * p, 2 * p - 1,
                 self.R % p, (self.R * self.R) % p, p - self.R % p}
            for k in range(0, nb, 32):
                for x in ((1 << k), (1 << k) - 1, h - (1 << k), p - (1 << k), p + (1 << k), (p ^ ((1 << k) - 1))):
                    s.add(x)
            for k in range(0, nb, 64):
                m = ((1 << 64) - 1) << k
                s.update({p ^ (p & m), p | m, h ^ (h & m), h | m, (p & m), (p & m) - 1})
            return sorted(x for x in s if 0 <= x <= h)
        cs = [cands(h, b) for h, b in zip(hs, bits)]
        # the same by represented value
        canon = {0, 1, 2, 3, p - 1, p - 2, p // 2, p // 2 - 1, p // 2 + 1, p // 2 + 2}
        for k in range(8, p.bit_length(), 8):
            canon.update({1 << k, (1 << k) - 1, (p - (1 << k)) % p, (p // 2 ^ 1 << k) % p})
        canon = sorted(canon)
        if len(cs) == 1:
            for x in cs[0]:
                yield (x,)
            for x in canon:
                if x * self.R % p <= hs[0]:
                    yield (x * self.R % p,)
        elif len(cs) == 2:
            for x in canon:
                for y in (x, x + 1, x - 1, x ^ 256, x + (1 << 64), p // 2 + 1, p - x):
                    if x * self.R % p <= hs[0] and y * self.R % p <= hs[1]:
                        yield (x * self.R % p, y * self.R % p)
            for x in cs[0][:60] + cs[0][-20:]:
                for y in rnd.sample(cs[1], min(24, len(cs[1]))):
                    yield (x, y)
            for x in cs[0]:
                for y in (p - x, p - x - 1, p - x + 1, x, x + 1, x - 1):
                    if 0 <= y <= hs[1] and x <= hs[0]:
                        yield (x, y)
            for x in cs[0][:40]:
                # products with a chosen result
                if x % p:
                    for v in (1, 2, p - 1, p - 2, self.R % p, (1 << 32) % p, p // 2):
                        y = v * self.R * pow(x, -1, p) % p
                        if y <= hs[1]:
                            yield (x, y)
        else:
            for _ in range(200):
                yield tuple(rnd.choice(c) for c in cs)
        for e in extra:
            yield e
        for _ in range(400):
            yield tuple(self.rand(rnd, h, b) for h, b in zip(hs, bits))

    def rand(self, rnd, h, nb):
        m = rnd.randrange(3)
        if m == 0:
            return rnd.randrange(h + 1)
        x = 0
        for k in range(0, nb, 64):
            w = rnd.choice((0, W64, 1, 1 << 63, W64 - 1, rnd.getrandbits(64), rnd.getrandbits(32), (self.p >> k) & W64, ((self.p >> k) & W64) - 1 & W64))
            x |= w << k
        return x if x <= h else x % (h + 1)

    def env(self, pt):
        env = {}
        for (ids, lo, hi, b), v in zip(self.groups, pt):
            for j, i in enumerate(ids):
                env[i] = (v >> (b * j)) & ((1 << b) - 1)
        return env

    def word(self, dec, v, env):
        if type(v) is int:
            return v
        if isinstance(v, L):
            return dec.evaluate(v.p, env)
        if isinstance(v, B):
            return dec.eval_node(v.n, env)
        if isinstance(v, G):
            for g, x in v.alts:
                if dec.eval_node(g, env):
                    return self.word(dec, x, env)
            raise Unsupported('gated value without an alternative')
        raise Unsupported(f'word {v!r}'[:80])

    def number(self, dec, limbs, env, bits):
        return sum(self.word(dec, x, env) << (bits * i) for i, x in enumerate(limbs))

    def refute(self, dec, f, what, flags=(None,)):
        """f(env, point) -> None or a message; instantiate the derived closed form at the directed points"""
        n = 0
        for pt in self.points():
            env0 = self.env(pt)
            for fl in flags:
                env = dict(env0)
                if fl is not None:
                    env.update(fl)
                env[-1] = 0
                m = f(env, pt)
                n += 1
                if m:
                    raise Bad(f'{what}: {m}')

    def no_panic(self, dec):
        for k, c, msg, st, loc in self.eng.events:
            if k != 'panic':
                continue
            try:
                if dec.node_canon(c) == 0:
                    continue
            except Unsupported:
                pass
            def f(env, pt):
                if dec.eval_node(c, env):
                    return f'inputs {[hex(x) for x in pt]}'
            self.refute(dec, f, f'panics ({msg}) at {site_str(self.P, (k, c, msg, st, loc))}')
            raise Unsupported(f'possible panic: {msg}')

    # ---- obligations -------------------------------------------------------------------------
    def elem_is(self, got, spec, pyspec, what, bits=64, dec=None, inp=None, when=None, bound=None):
        """got: words; spec(dec, facts) -> (poly, scale); pyspec(point, env) -> int"""
        dec = dec or self.decider()
        bound = bound or self.p
        self.no_panic(dec)
        err = None
        try:
            pr = dec.value(got, lambda facts: spec(dec, facts), self.p, bits=bits)
            if not pr:
                return
            err = f'{pr[0][0]} condition not discharged in case {pr[0][1]}'
        except Unsupported as e:
            err = str(e)
        def f(env, pt):
            if when is not None and not when(pt):
                return
            x = self.number(dec, got, env, bits)
            y = pyspec(pt, env)
            if x != y:
                return f'inputs (raw) {[hex(v) for v in pt]} give {hex(x)}, expected {hex(y)}'
        self.refute(dec, f, what)
        raise Unsupported(err)

    def node_is(self, n, exp, pyspec, what, dec=None):
        """n: BDD node; exp(dec) -> expected canonical node"""
        dec = dec or self.decider()
        self.no_panic(dec)
        err = 'conditions differ'
        try:
            if dec.node_canon(n) == exp(dec):
                return
        except Unsupported as e:
            err = str(e)
        def f(env, pt):
            if bool(dec.eval_node(n, env)) != bool(pyspec(pt)):
                return f'wrong for inputs (raw) {[hex(v) for v in pt]}'
        self.refute(dec, f, what)
        raise Unsupported(err)
