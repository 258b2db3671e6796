"""Deciding facts about limb polynomials: closing carry chains, case splits, intervals, residues."""
from limb import *


class Stuck(Exception):
    pass


class Decider:
    def __init__(self, dom, n, groups):
        """groups: [(atom ids, lo, hi, bits)]: sum a_i 2^(bits i) is known to lie in [lo, hi]"""
        self.d = dom
        self.n = n
        self.sub = {}
        self.extra = []
        self.gv = []
        self.residues = {}         # group of a named intermediate element -> its residue modulo p
        for g in groups:
            self.add_group(*g)
        self.memo = {}
        self.const = {}
        self.budget = 4000

    def add_group(self, ids, lo, hi, bits):
        A = self.d.atom('grp', (tuple(ids), lo, hi), lo, hi)
        self.gv.append(A.id)
        p = LP({(A.id,): 1})
        for i, x in enumerate(ids[1:], 1):
            p = p.add(LP({(x,): 1 << (bits * i)}), -1)
        self.sub[ids[0]] = p
        return A.id

    def unresidue(self, q, p):
        """coefficients modulo p; named intermediate elements replaced by what they are congruent to"""
        q = LP({m: self.modp(c, p) for m, c in q.t.items() if self.modp(c, p)})
        while True:
            gs = [x for x in q.atoms() if x in self.residues]
            if not gs:
                return q
            x = max(gs)
            out = LP({})
            for m, c in q.t.items():
                t = LP({tuple(y for y in m if y != x): c})
                for _ in range(m.count(x)):
                    t = self.d.pmul(t, self.residues[x])
                out = out.add(t)
            q = LP({m: c % p for m, c in out.t.items() if c % p})

    # change of variables
    def cov(self, p):
        out = LP({})
        hit = False
        for m, c in p.t.items():
            t = LP({(): c})
            for x in m:
                if x in self.sub:
                    hit = True
                    t = self.d.pmul(t, self.sub[x])
                else:
                    t = self.d.pmul(t, LP({(x,): 1}))
            out = out.add(t)
        return LP({m: norm(c) for m, c in out.t.items()}) if hit else p

    def iv(self, p):
        return self.d.iv(self.cov(p))

    def carry(self, p):
        """carry atoms of a polynomial"""
        return [x for x in sorted(p.atoms(), reverse=True) if self.d.atoms[x].kind in ('fl', 'neg')]

    def close(self, p):
        """(q, w) with floor(p / 2^0) = floor(q / 2^w), q free of carry atoms; None when stuck"""
        k = p.key()
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('carry chain search budget')
        cs = self.carry(p)
        if not cs:
            self.memo[k] = (p, 0)
            return p, 0
        tried = 0
        for x in cs:
            c = p.t.get((x,), 0)
            if c not in (1, -1) or any(x in m for m in p.t if m != (x,)):
                continue
            tried += 1
            if tried > 2:
                break
            a = self.d.atoms[x]
            E = p.add(LP({(x,): c}), -1)
            Y, v = a.d
            if a.kind == 'neg':
                # neg(Y) = -floor(Y / 2^v) ; neg(Y) = 1 + floor((-1-Y) / 2^v)
                if c == -1:
                    q = E.scale(1 << v).add(Y)
                else:
                    q = E.add(const(1)).scale(1 << v).add(const(-1).add(Y, -1))
            else:
                if c == 1:
                    q = E.scale(1 << v).add(Y)
                else:
                    q = E.scale(1 << v).add(Y, -1).add(const((1 << v) - 1))
            r = self.close(LP({m: norm(z) for m, z in q.t.items()}))
            if r is not None:
                self.memo[k] = (r[0], r[1] + v)
                return self.memo[k]
        # an indicator that is constant by the value of its own closed form
        for x in cs:
            if x not in self.const:
                self.const[x] = None
                r = self.resolve(self.d.atoms[x])
                if r is not None and r[0] == 'c':
                    self.const[x] = r[1]
            if self.const[x] is not None:
                self.memo[k] = self.close(self.subst(p, x, const(self.const[x])))
                return self.memo[k]
        return None

    # ---- canonical booleans ------------------------------------------------------------------
    def resolve(self, a):
        """closed form of a carry atom: ('c', const) | ('neg', q) | ('fl', q, w)"""
        Y, w = a.d
        r = self.close(Y)
        if r is None:
            return None
        q, v = r
        if a.kind == 'neg':
            lo, hi = self.iv(q)
            if lo >= 0:
                return ('c', 0)
            if hi < 0:
                return ('c', 1)
            return ('neg', q)
        w += v
        lo, hi = self.iv(q)
        l, h = floor_(Fraction(lo) / (1 << w)), floor_(Fraction(hi) / (1 << w))
        if l == h:
            return ('c', l)
        return ('fl', q, w, l, h)

    def canon_neg(self, q):
        """(key, positive?) of the closed indicator q < 0"""
        q = self.cov(q)
        k, _ = self.d.primitive(q)
        c, _ = self.d.primitive(self.cov(const(-1).add(q, -1)))
        if k.key() <= c.key() if str(k.key()) == str(c.key()) else str(k.key()) < str(c.key()):
            return k.key(), True
        return c.key(), False

    def node_canon(self, n):
        """rebuild a BDD over closed atoms"""
        d, D = self.d, self.d.eng.bdd
        memo = {0: 0, 1: 1}
        def lit(v):
            k = D.atoms[v]
            if isinstance(k, tuple) and k[0] == 'L':
                a = d.atoms[k[1]]
                if a.kind == 'neg':
                    r = self.resolve(a)
                    if r is None:
                        raise Unsupported('carry chain not closed')
                    if r[0] == 'c':
                        return r[1]
                    key, pos = self.canon_neg(r[1])
                    x = D.atom(('N', key))
                    return x if pos else D.Not(x)
            return D._mk(v, 0, 1)
        def go(n):
            if n in memo:
                return memo[n]
            v, lo, hi = D.nodes[n]
            memo[n] = D.ite(lit(v), go(hi), go(lo))
            return memo[n]
        return go(n)

    def neg_node(self, q):
        lo, hi = self.iv(q)
        if lo >= 0:
            return 0
        if hi < 0:
            return 1
        key, pos = self.canon_neg(q)
        x = self.d.eng.bdd.atom(('N', key))
        return x if pos else self.d.eng.bdd.Not(x)

    # ---- values ------------------------------------------------------------------------------
    def value(self, limbs, specfn, p, modulus_bits=None, rng=None, bits=64):
        """the number sum limbs_i 2^(bits i) lies in [0, p) and is = spec mod p in every case.
        specfn(case facts) -> polynomial the value times R must be congruent to; returns list of problems"""
        d = self.d
        M = 1 << (bits * len(limbs))
        F = LP({})
        for i, x in enumerate(limbs):
            F = F.add(d.P(x).scale(1 << (bits * i)))
        F = self.drop(self.unword(F), M)
        # close every carry atom
        res, groups = {}, {}
        while True:
            cs = [x for x in self.carry(F) if x not in res]
            if not cs:
                break
            x = cs[0]
            r = self.resolve(d.atoms[x])
            if r is None:
                raise Unsupported('carry chain not closed')
            if r[0] == 'c':
                F = self.drop(self.subst(F, x, const(r[1])), M)
            elif r[0] == 'neg':
                key, pos = self.canon_neg(r[1])
                g = d.atom('case', key, 0, 1, self.unkey(key))
                gp = LP({(g.id,): 1})
                F = self.drop(self.subst(F, x, gp if pos else const(1).add(gp, -1)), M)
            else:
                if r[4] - r[3] > 4:
                    raise Unsupported('carry with a wide range')
                # floor in [l, h]: sum of indicators  l + sum_{j=l+1..h} [q >= j 2^w]
                e = const(r[3])
                for j in range(r[3] + 1, r[4] + 1):
                    key, pos = self.canon_neg(r[1].add(const(j << r[2]), -1))
                    g = d.atom('case', key, 0, 1, self.unkey(key))
                    gp = LP({(g.id,): 1})
                    e = e.add(const(1).add(gp, -1) if pos else gp)
                F = self.drop(self.subst(F, x, e), M)
        cases = [x for x in sorted(F.atoms()) if d.atoms[x].kind in ('case', 'eq0', 'bdd') and d.atoms[x].boolean]
        if len(cases) > 9:
            raise Unsupported(f'{len(cases)} undetermined conditions')
        out, res = [], []
        self.ncases = 0
        for vals in itertools.product((0, 1), repeat=len(cases)):
            V = F
            cons = []         # polynomials known to be >= 0
            zero = {}
            for x, v in zip(cases, vals):
                V = d.subst_bool(V, x, v)
                a = d.atoms[x]
                if a.kind == 'case':
                    q = a.d
                    cons.append(q.scale(-1).add(const(-1)) if v else q)
                elif a.kind == 'eq0' and v:
                    for q in a.d:
                        if len(q.t) == 1 and next(iter(q.t.values())) == 1 and len(next(iter(q.t))) == 1:
                            zero[next(iter(q.t))[0]] = 1
                        else:
                            raise Unsupported('zero test of a compound word')
                elif a.kind == 'eq0':
                    ids = set()
                    for q in a.d:
                        if len(q.t) == 1 and next(iter(q.t.values())) == 1 and len(next(iter(q.t))) == 1:
                            ids.add(next(iter(q.t))[0])
                    for x0, s in self.sub.items():
                        g = [m for m in s.t if len(m) == 1 and d.atoms[m[0]].kind == 'grp'][0]
                        if ids == {x0} | {m[0] for m in s.t if m != g}:
                            cons.append(LP({g: 1, (): -1}))
            facts = dict(zip(cases, vals))
            V = self.drop(V, M)
            cons = [self.cov(self.zap(c, zero)) for c in cons]
            V0 = self.cov(self.zap(V, zero))
            if self.contradiction(cons):
                continue
            self.ncases += 1
            ok = False
            k0 = -floor_(Fraction(sum(d.iv(V0))) / (2 * M))
            for k in (k0, k0 + 1, k0 - 1):
                q = V0.add(const(k * M))
                if self.geq(q, 0, cons) and self.leq(q, p - 1, cons):
                    ok = True
                    break
            if not ok:
                out.append(('range', facts, V0, cons, zero))
                continue
            if specfn is None:
                res.append((self.unresidue(q, p), zero, facts, cons))
                continue
            sp, scale = specfn(facts)
            diff = self.unresidue(self.cov(self.zap(q.scale(scale).add(sp, -1), zero)), p)
            if diff.t:
                out.append(('residue', facts, diff, cons, zero))
        if specfn is None and not out:
            best = max(res, key=lambda r: len(r[0].t))[0]
            for r, zero, facts, cons in res:
                d0 = self.unresidue(self.cov(self.zap(best.add(r, -1), zero)), p)
                if d0.t:
                    out.append(('residue', facts, d0, cons, zero))
            self.common = best
        return out

    def closed(self, limbs, bits):
        """the number sum limbs_i 2^(bits i) as a polynomial without undetermined carries"""
        d = self.d
        M = 1 << (bits * len(limbs))
        F = LP({})
        for i, x in enumerate(limbs):
            F = F.add(d.P(x).scale(1 << (bits * i)))
        F = self.drop(self.unword(F), M)
        while True:
            cs = self.carry(F)
            if not cs:
                break
            r = self.resolve(d.atoms[cs[0]])
            if r is None or r[0] != 'c':
                raise Unsupported('undetermined carry')
            F = self.drop(self.subst(F, cs[0], const(r[1])), M)
        F = self.cov(F)
        lo, hi = d.iv(F)
        k = -floor_(Fraction(lo) / M)
        F = F.add(const(k * M))
        if floor_(d.iv(F)[1]) >= M:
            raise Unsupported('number not determined modulo its width')
        return F

    def modp(self, c, p):
        if isinstance(c, Fraction):
            return c.numerator * pow(c.denominator, -1, p) % p
        return c % p

    def unkey(self, key):
        return LP(dict(key))

    def unword(self, F):
        while True:
            ws = [x for x in F.atoms() if self.d.atoms[x].kind == 'word']
            if not ws:
                return F
            x = max(ws)
            F = self.subst(F, x, self.d.atoms[x].d)

    def drop(self, F, M):
        return LP({m: c for m, c in F.t.items() if isinstance(c, Fraction) or c % M})

    def subst(self, F, x, q):
        out = LP({})
        for m, c in F.t.items():
            if x in m:
                if m.count(x) > 1 and not self.d.atoms[x].boolean:
                    raise Unsupported('power of a carry')
                out = out.add(self.d.pmul(LP({tuple(y for y in m if y != x): c}), q))
            else:
                out = out.add(LP({m: c}))
        return LP({m: norm(c) for m, c in out.t.items()})

    def zap(self, p, zero):
        if not zero:
            return p
        r = LP({m: c for m, c in p.t.items() if not any(x in zero for x in m)})
        # a group whose every limb is zero
        for x, s in self.sub.items():
            g = [m for m in s.t if len(m) == 1 and self.d.atoms[m[0]].kind == 'grp'][0][0]
            ids = [x] + [m[0] for m in s.t if m[0] != g]
            if all(i in zero for i in ids):
                r = LP({m: c for m, c in r.t.items() if g not in m})
        return r

    def combos(self, q, cons):
        """lower bounds of q"""
        yield self.d.iv(q)[0]
        for c in cons:
            for m, z in q.t.items():
                if m == ():
                    continue
                y = c.t.get(m)
                if y:
                    lam = Fraction(z) / Fraction(y)
                    if lam > 0:
                        rest = q.add(c, -lam)
                        rest = LP({mm: norm(zz) for mm, zz in rest.t.items() if zz})
                        yield self.d.iv(rest)[0]

    def geq(self, q, b, cons):
        return any(ceil_(x) >= b for x in self.combos(q, cons))   # q is integer-valued

    def leq(self, q, b, cons):
        return any(ceil_(x) >= -b for x in self.combos(q.scale(-1), cons))

    def contradiction(self, cons):
        for i, c in enumerate(cons):
            others = cons[:i] + cons[i + 1:]
            # c >= 0 impossible when -c >= 1 follows
            if self.geq(c.scale(-1), 1, others):
                return True
            # strict rational version: -c > 0
            if any(x > 0 for x in self.combos(c.scale(-1), others)):
                return True
        return False

    # ---- refutation: evaluating the closed form at a point -----------------------------------
    def evaluate(self, p, env):
        tot = 0
        for m, c in p.t.items():
            v = c
            for x in m:
                v = v * self.atom_val(x, env)
            tot += v
        return norm(Fraction(tot)) if isinstance(tot, Fraction) else tot

    def atom_val(self, x, env):
        if x in env:
            return env[x]
        a = self.d.atoms[x]
        if a.kind == 'neg':
            v = int(self.evaluate(a.d[0], env) < 0)
        elif a.kind == 'case':
            v = int(self.evaluate(a.d, env) < 0)
        elif a.kind in ('word', 'b01', 'cut'):
            v = self.evaluate(a.d, env)
        elif a.kind in ('fl', 'bit'):
            y = self.evaluate(a.d[0], env)
            v = floor_(Fraction(y) / (1 << a.d[1]))
        elif a.kind == 'tab':
            i = self.evaluate(a.d[0], env)
            v = a.d[1][i] if 0 <= i < len(a.d[1]) else 0
        elif a.kind == 'low':
            v = a.d[0] * self.evaluate(a.d[1], env) % (1 << a.d[2])
        elif a.kind == 'eq0':
            v = int(all(self.evaluate(q, env) == 0 for q in a.d))
        elif a.kind == 'bop':
            vs = [self.evaluate(q, env) for q in a.d[1]]
            v = vs[0]
            for y in vs[1:]:
                v = v & y if a.d[0] == 'and' else v | y if a.d[0] == 'or' else v ^ y
        elif a.kind == 'bdd':
            v = self.eval_node(self.d.eng.bdd._mk(a.d, 0, 1), env)
        else:
            raise Unsupported('free atom in evaluation')
        env[x] = v
        return v

    def eval_node(self, n, env):
        D = self.d.eng.bdd
        while n > 1:
            v, lo, hi = D.nodes[n]
            k = D.atoms[v]
            if isinstance(k, tuple) and k[0] == 'L':
                b = self.atom_val(k[1], env)
            else:
                b = env.get(('bdd', v))
                if b is None:
                    raise Unsupported('free condition in evaluation')
            n = hi if b else lo
        return n
