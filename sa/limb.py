"""Limb domain: machine words as exact polynomials over input limbs.

A word is an integer polynomial (rational coefficients, powers of two in the denominators) over atoms:
input limbs, Montgomery multipliers ("low" atoms), sign indicators [N < 0] and floors floor(N / 2^w).
Wrap-around subtracts 2^w * floor(.), so low and high halves of the same sum cancel again when the
limbs of a result are recombined.  Carry and borrow chains are closed by
    floor((E + floor(Y/2^v)) / 2^w) = floor((E 2^v + Y) / 2^(v+w)).
Range facts are intervals after the change of variables  a_0 = A - sum a_i 2^(64 i)."""
import itertools, re
from fractions import Fraction
from engine import *
from field import Dom

W64 = (1 << 64) - 1


class LP:
    """polynomial: {monomial (sorted tuple of atom ids, booleans idempotent): Fraction or int}"""
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __eq__(self, o): return isinstance(o, LP) and self.t == o.t
    def __hash__(self): return hash(self.key())
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def cv(self): return self.t.get((), 0)

    def add(self, o, k=1):
        t = dict(self.t)
        for m, c in o.t.items():
            x = t.get(m, 0) + c * k
            if x:
                t[m] = x
            else:
                t.pop(m, None)
        return LP(t)

    def scale(self, k):
        if k == 0:
            return LP({})
        return LP({m: norm(c * k) for m, c in self.t.items()})

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    return LP({(): c}) if c else LP({})


class L:
    """a machine word value"""
    __slots__ = ('p', 'lo', 'hi')

    def __init__(self, p, lo, hi):
        self.p = p
        self.lo = lo
        self.hi = hi

    def __eq__(self, o): return isinstance(o, L) and o.p == self.p
    def __hash__(self): return hash(self.p)
    def __repr__(self): return f'L[{len(self.p.t)} terms, {self.lo}..{self.hi}]'


class Atom:
    __slots__ = ('id', 'kind', 'lo', 'hi', 'boolean', 'd', 'name')


class LimbDom(Dom):
    def __init__(self):
        super().__init__()
        self.atoms = []
        self.keys = {}
        self.eng = None
        self.ors = {}
        self.comp = {}             # word assembled from bytes -> its bytes
        self.wrapped = {}          # result of a wrap-around -> (sum, its range, width, floor)

    # ---- atoms -------------------------------------------------------------------------------
    def atom(self, kind, key, lo, hi, d=None, name=None):
        k = (kind, key)
        a = self.keys.get(k)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.kind = kind
            a.lo, a.hi = lo, hi
            a.boolean = (lo, hi) == (0, 1)
            a.d = d
            a.name = name
            self.atoms.append(a)
            self.keys[k] = a
        return a

    def inp(self, name, hi=W64):
        a = self.atom('in', name, 0, hi, None, name)
        return L(LP({(a.id,): 1}), 0, hi)

    def mmul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        out = sorted(m1 + m2)
        r = []
        for x in out:
            if r and r[-1] == x and self.atoms[x].boolean:
                continue
            r.append(x)
        return tuple(r)

    def pmul(self, a, b):
        if len(a.t) > 3000 or len(b.t) > 3000 or len(a.t) * len(b.t) > 200000:
            raise Unsupported('limb polynomial too large')
        t = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = self.mmul(m1, m2)
                x = t.get(m, 0) + c1 * c2
                if x:
                    t[m] = x
                else:
                    t.pop(m, None)
        return LP({m: norm(c) for m, c in t.items()})

    def iv(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            l = h = 1
            for x in m:
                a = self.atoms[x]
                c4 = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                l, h = min(c4), max(c4)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    # ---- construction ------------------------------------------------------------------------
    def mk(self, p, lo=None, hi=None):
        if p.is_const():
            c = p.cv()
            if isinstance(c, Fraction):
                raise Unsupported('fractional word')
            return c
        l, h = self.iv(p)
        if lo is None or l > lo:
            lo = l
        if hi is None or h < hi:
            hi = h
        lo, hi = ceil_(lo), floor_(hi)
        if lo == hi:
            return lo
        return L(p, lo, hi)

    def P(self, v):
        """polynomial of a value"""
        if type(v) is int:
            return const(v)
        if isinstance(v, L):
            return v.p
        if isinstance(v, B):
            return self.bpoly(v.n)
        if isinstance(v, G):
            out = LP({})
            for g, x in v.alts:
                out = out.add(self.pmul(self.bpoly(g), self.P(x)))
            return out
        if isinstance(v, Opq) and v.op == 'or':
            return self.fall('or', v.args, W64).p
        raise Unsupported(f'word expected: {v!r}'[:200])

    def rng(self, v):
        if type(v) is int:
            return v, v
        if isinstance(v, L):
            return v.lo, v.hi
        if isinstance(v, B):
            return 0, 1
        if isinstance(v, G):
            r = [self.rng(x) for _, x in v.alts]
            return min(x[0] for x in r), max(x[1] for x in r)
        if isinstance(v, Opq) and v.op == 'or':
            return 0, W64
        raise Unsupported(f'word expected: {v!r}'[:200])

    def word(self, p, lo, hi):
        """name a computed word before it is cut into digits, so that the digits recombine"""
        if lo < 0 or len(p.t) < 2 or self.single(p):
            return p
        for x in p.atoms():
            a = self.atoms[x]
            if a.kind in ('neg', 'low', 'eq0', 'bdd') or a.kind == 'fl' and not self.plain(a.d[0]):
                return LP({(self.atom('word', p.key(), lo, hi, p).id,): 1})
        return p

    def plain(self, p):
        return len(p.t) == 1 and all(c == 1 and len(m) == 1 and self.atoms[m[0]].kind in ('in', 'cut', 'word') for m, c in p.t.items())

    def bpoly(self, n):
        D = self.eng.bdd
        memo = {0: LP({}), 1: const(1)}
        def go(n):
            if n in memo:
                return memo[n]
            v, lo, hi = D.nodes[n]
            k = D.atoms[v]
            if isinstance(k, tuple) and k[0] == 'L':
                a = self.atoms[k[1]]
            else:
                a = self.atom('bdd', v, 0, 1, v)
            x = LP({(a.id,): 1})
            h, l = go(hi), go(lo)
            r = l.add(self.pmul(x, h.add(l, -1)))
            memo[n] = r
            return r
        return go(n)

    def anode(self, a):
        """BDD node of a boolean atom"""
        if a.kind == 'bdd':
            return self.eng.bdd._mk(a.d, 0, 1)
        return self.eng.bdd.atom(('L', a.id))

    def as_bool(self, eng, v):
        if not isinstance(v, L) or v.lo < 0 or v.hi > 1:
            return None
        ats = sorted(v.p.atoms())
        if any(not self.atoms[x].boolean for x in ats) or len(ats) > 8:
            if not all(isinstance(c, int) for c in v.p.t.values()):
                return None
            return self.anode(self.atom('b01', v.p.key(), 0, 1, v.p))
        D = eng.bdd
        def go(p, i):
            if i == len(ats):
                c = p.cv()
                if c not in (0, 1):
                    raise Unsupported('not a boolean polynomial')
                return c
            return D.ite(self.anode(self.atoms[ats[i]]), go(self.subst_bool(p, ats[i], 1), i + 1), go(self.subst_bool(p, ats[i], 0), i + 1))
        return go(v.p, 0)

    def subst_bool(self, p, x, val):
        t = {}
        for m, c in p.t.items():
            if x in m:
                if not val:
                    continue
                m = tuple(y for y in m if y != x)
            s = t.get(m, 0) + c
            if s:
                t[m] = norm(s)
            else:
                t.pop(m, None)
        return LP(t)

    def single(self, p):
        """(atom, value at 0, value at 1) when p depends on one boolean only"""
        if len(p.t) > 2:
            return None
        ats = p.atoms()
        if len(ats) != 1:
            return None
        a = self.atoms[next(iter(ats))]
        if not a.boolean:
            return None
        c = p.t.get((a.id,), 0)
        return a, p.cv(), p.cv() + c

    def from_single(self, a, v0, v1):
        if v0 == v1:
            return v0
        return self.mk(LP({k: c for k, c in (((), v0), ((a.id,), v1 - v0)) if c}))

    # ---- floors ------------------------------------------------------------------------------
    def fl(self, p, lo, hi, w):
        """floor(p / 2^w) as a polynomial"""
        M = 1 << w
        if lo >> w == hi >> w:
            return const(lo >> w)
        s = self.single(p)
        if s:
            return self.P(self.from_single(s[0], s[1] >> w, s[2] >> w))
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and self.atoms[m[0]].kind == 'fl' and isinstance(c, int) and c > 0 and c & (c - 1) == 0 and c < M:
                # floor(2^k floor(y / 2^v) / 2^w) = floor(y / 2^(v+w-k)), k <= w
                y, v = self.atoms[m[0]].d
                v -= c.bit_length() - 1
                l, h = self.iv(y)
                return self.fl(y, ceil_(l), floor_(h), v + w)
        if 0 <= lo and hi < 2 * M:
            k, g = self.primitive(p)
            if (w + g) % 64:
                # a single bit of a word (shifts), not the carry of a sum
                a = self.atom('bit', (k.key(), w + g), 0, 1, (p, w))
                return LP({(a.id,): 1})
        if self.divisible(p, w):
            return p.scale(Fraction(1, M))
        wr = self.wrapped.get(p.key())
        if wr and w <= wr[3]:
            return self.fl(wr[0], wr[1], wr[2], w).add(wr[4].scale(1 << (wr[3] - w)), -1)
        if -M <= lo and hi < M and not all(isinstance(c, int) and c % M == 0 for c in p.t.values()):
            return self.neg(p, lo, hi).scale(-1)
        if 0 <= lo and hi < 2 * M and not all(isinstance(c, int) and c % M == 0 for c in p.t.values()):
            return const(1).add(self.neg(p.add(const(M), -1), lo - M, hi - M), -1)
        out, rest = {}, {}
        for m, c in p.t.items():
            if isinstance(c, int) and c % M == 0:
                out[m] = c >> w
            else:
                rest[m] = c
        out, rest = LP(out), LP(rest)
        if not rest.t:
            return out
        if out.t:
            if out.is_const():
                lo, hi = lo - out.cv() * M, hi - out.cv() * M
            else:
                # the floor of the whole is in [lo>>w, hi>>w]; the rest is bounded by its own interval
                lo, hi = self.iv(rest)
                lo, hi = ceil_(lo), floor_(hi)
            return out.add(self.fl(rest, lo, hi, w))
        if self.divisible(rest, w):
            return rest.scale(Fraction(1, M))
        if -M <= lo and hi < M:
            a = self.neg(rest, lo, hi)
            return a.scale(-1)
        if 0 <= lo and hi < 2 * M:
            return const(1).add(self.neg(rest.add(const(M), -1), lo - M, hi - M), -1)
        k, g = self.primitive(rest)
        a = self.atom('fl', (k.key(), w + g), lo >> w, hi >> w, (rest, w))
        return LP({(a.id,): 1})

    def primitive(self, p):
        """scale by a power of two to integer coefficients, not all even"""
        g = None
        for c in p.t.values():
            if isinstance(c, Fraction):
                e = -(c.denominator.bit_length() - 1)
            else:
                e = (c & -c).bit_length() - 1
            g = e if g is None else min(g, e)
        if g is None or g == 0:
            return p, 0
        return p.scale(Fraction(2) ** -g), -g

    def neg(self, p, rl, rh):
        """indicator polynomial of p < 0, where p is known to lie in [rl, rh]"""
        if p.is_const():
            return const(1 if p.cv() < 0 else 0)
        lo, hi = self.iv(p)
        lo, hi = max(lo, rl), min(hi, rh)
        if lo >= 0:
            return const(0)
        if hi < 0:
            return const(1)
        w = -(-max((-ceil_(lo) - 1).bit_length(), floor_(hi).bit_length()) // 64) * 64
        k, g = self.primitive(p)
        # p < 0  <=>  not (-1 - p < 0): keep one of the two
        a = self.keys.get(('neg', k.key()))
        if a is None:
            c = const(-1).add(p, -1)
            k2, _ = self.primitive(c)
            b = self.keys.get(('neg', k2.key()))
            if b is not None:
                return const(1).add(LP({(b.id,): 1}), -1)
            a = self.atom('neg', k.key(), 0, 1, (p, w))
        return LP({(a.id,): 1})

    def divisible(self, p, w):
        """is p a multiple of 2^w, by the definition of a Montgomery multiplier in it?"""
        M = 1 << w
        for x in sorted(p.atoms(), reverse=True):
            a = self.atoms[x]
            if a.kind != 'low' or a.d[2] < w:
                continue
            c2 = p.t.get((x,), 0)
            if not isinstance(c2, int) or any(x in m for m in p.t if m != (x,)):
                continue
            c, v, _ = a.d
            rest = p.add(LP({(x,): c2}), -1)
            for m0, c0 in v.t.items():
                r = rest.t.get(m0, 0) / Fraction(c0)
                cands = {1}
                if r.denominator == 1:
                    cands.add(r.numerator)
                for c1 in cands:
                    if (c1 + c2 * c) % M == 0:
                        d = rest.add(v, -c1)
                        if all(isinstance(norm(q), int) and norm(q) % M == 0 for q in d.t.values()):
                            return True
                break
        return False

    def low(self, p, lo, hi, w):
        M = 1 << w
        if 0 <= lo and hi < M:
            return self.mk(p, lo, hi)
        s = self.single(p)
        if s:
            return self.from_single(s[0], s[1] % M, s[2] % M)
        f = self.fl(p, lo, hi, w)
        r = p.add(f, -M)
        self.wrapped[r.key()] = (p, lo, hi, w, f)
        return self.mk(r, 0, M - 1)

    def lowmul(self, x, y, p, lo, hi, w):
        """wrapping product: a named multiplier atom"""
        inv = getattr(self, 'inv', None)
        if self.single(p) or not (x == inv or y == inv) and 0 <= lo and hi < (1 << w):
            return self.low(p, lo, hi, w)
        c, v = (x, y) if type(x) is int else (y, x) if type(y) is int else (1, None)
        vp = self.P(v) if v is not None else p
        a = self.atom('low', (c, vp.key(), w), 0, (1 << w) - 1, (c, vp, w))
        return L(LP({(a.id,): 1}), 0, (1 << w) - 1)

    # ---- engine interface --------------------------------------------------------------------
    def bits(self, t):
        if t is None:
            return 64
        if t.k == 'bool':
            return 1
        if t.signed:
            raise Unsupported('signed symbolic integer')
        return t.bits

    def binop(self, eng, op, a, b, t, t2):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.opq_bin(eng, op, a, b, t)
        if not (isinstance(a, (int, L, B)) and isinstance(b, (int, L, B))):
            raise Unsupported(f'{op} on {a!r}, {b!r}'[:200])
        pa, pb = self.P(a), self.P(b)
        (la, ha), (lb, hb) = self.rng(a), self.rng(b)
        if op in ('Lt', 'Gt', 'Le', 'Ge'):
            if op in ('Gt', 'Le'):
                pa, pb, la, ha, lb, hb = pb, pa, lb, hb, la, ha
            d = self.mk(pa.add(pb, -1), la - hb, ha - lb)
            n = self.lt0(eng, d)
            return eng.simp_bool(n if op in ('Lt', 'Gt') else eng.bdd.Not(n))
        if op == 'Cmp':
            lt = self.lt0(eng, self.mk(pa.add(pb, -1), la - hb, ha - lb))
            gt = self.lt0(eng, self.mk(pb.add(pa, -1), lb - ha, hb - la))
            D = eng.bdd
            alts = [(n, En(i, ())) for i, n in enumerate((lt, D.And(D.Not(lt), D.Not(gt)), D.And(gt, D.Not(lt))))]
            alts = [x for x in alts if x[0] != 0]
            return alts[0][1] if len(alts) == 1 else G(alts)
        if op in ('Eq', 'Ne'):
            n = self.eq0(eng, self.mk(pa.add(pb, -1), la - hb, ha - lb))
            return eng.simp_bool(n if op == 'Eq' else eng.bdd.Not(n))
        w = self.bits(t)
        if op in ('Add', 'AddUnchecked'):
            return self.low(pa.add(pb), la + lb, ha + hb, w)
        if op in ('Sub', 'SubUnchecked'):
            return self.low(pa.add(pb, -1), la - hb, ha - lb, w)
        if op in ('Mul', 'MulUnchecked'):
            return self.lowmul(a, b, self.pmul(pa, pb), la * lb, ha * hb, w)
        if op in ('Shl', 'ShlUnchecked') and type(b) is int:
            return self.low(pa.scale(1 << b), la << b, ha << b, w)
        if op in ('Shr', 'ShrUnchecked') and type(b) is int:
            if b % 64 and b % 8 == 0 and ha >> 64 == 0:
                pa = self.word(pa, la, ha)
            return self.mk(self.fl(pa, la, ha, b), la >> b, ha >> b)
        if op == 'BitAnd':
            return self.band(a, b, pa, pb, w)
        if op == 'BitOr':
            return self.bor(a, b, pa, pb)
        if op == 'BitXor':
            sa, sb = self.single(pa), self.single(pb)
            for x, s in ((b, sa), (a, sb)):
                if type(x) is int and s:
                    return self.from_single(s[0], s[1] ^ x, s[2] ^ x)
            for x, q, (lo, hi) in ((a, pb, (lb, hb)), (b, pa, (la, ha))):
                if type(x) is int and x == 0:
                    return self.mk(q, lo, hi)
                if type(x) is int and x > 0 and x & (x + 1) == 0 and 0 <= lo and hi <= x:
                    return self.mk(const(x).add(q, -1))
            return self.fall('xor', (pa, pb), max(ha, hb))
        raise Unsupported(f'{op} on limbs')

    def fall(self, op, ps, hi):
        """uninterpreted bitwise combination of words"""
        h = (1 << int(hi).bit_length()) - 1 if op != 'and' else hi
        a = self.atom('bop', (op, tuple(sorted((p.key() for p in ps), key=str))), 0, h, (op, tuple(ps)))
        return L(LP({(a.id,): 1}), 0, h)

    def band(self, a, b, pa, pb, w):
        for x, y in ((a, b), (b, a)):
            if type(x) is int:
                if x == 0:
                    return 0
                lo, hi = self.rng(y)
                py = self.P(y)
                s = self.single(py)
                if s:
                    return self.from_single(s[0], s[1] & x, s[2] & x)
                k = (x & -x).bit_length() - 1
                top = (x >> k) + 1
                if top & (top - 1) == 0:
                    j = top.bit_length() - 1
                    if (k or j < 64) and hi >> 64 == 0 and hi >> (k + j):
                        py = self.word(py, lo, hi)
                        y = L(py, lo, hi)
                    f = self.mk(self.fl(py, lo, hi, k), lo >> k, hi >> k) if k else y
                    if type(f) is int:
                        return (f << k) & x
                    r = self.low(self.P(f), *self.rng(f), j)
                    if not k:
                        return r
                    lo, hi = self.rng(r)
                    return self.mk(self.P(r).scale(1 << k), lo << k, hi << k)
        for x, px, y, py in ((a, pa, b, pb), (b, pb, a, pa)):
            s = self.single(px)
            if s and s[1] >= 0 and s[2] >= 0:
                vals = []
                lo, hi = self.rng(y)
                for v in s[1:]:
                    if v == 0:
                        vals.append(LP({}))
                    elif v == (1 << w) - 1 or v & (v + 1) == 0 and hi <= v:
                        vals.append(py)
                    else:
                        break
                else:
                    x1 = LP({(s[0].id,): 1})
                    p = self.pmul(x1, vals[1]).add(self.pmul(const(1).add(x1, -1), vals[0]))
                    return self.mk(p, 0, hi)
        return self.fall('and', (pa, pb), min(self.rng(a)[1], self.rng(b)[1]))

    def bor(self, a, b, pa, pb):
        if a == 0:
            return b
        if b == 0:
            return a
        for x, px, y in ((a, pa, b), (b, pb, a)):
            lo, hi = self.rng(y)
            k = hi.bit_length()
            if lo >= 0 and all(isinstance(c, int) and c % (1 << k) == 0 for c in px.t.values()):
                (la, ha), (lb, hb) = self.rng(a), self.rng(b)
                return self.mk(pa.add(pb), la + lb, ha + hb)
        sa, sb = self.single(pa), self.single(pb)
        if sa and sb and sa[0] is sb[0]:
            return self.from_single(sa[0], sa[1] | sb[1], sa[2] | sb[2])
        return Opq('or', *sorted({pa, pb}, key=lambda p: str(p.key())))

    def opq_bin(self, eng, op, a, b, t):
        if op == 'BitOr':
            s = set()
            for x in (a, b):
                if isinstance(x, Opq) and x.op == 'or':
                    s.update(x.args)
                else:
                    s.add(self.P(x))
            return Opq('or', *sorted(s, key=lambda p: str(p.key())))
        if op in ('Eq', 'Ne') and (a == 0 or b == 0):
            x = b if a == 0 else a
            if isinstance(x, Opq) and x.op == 'or':
                n = self.allzero(eng, x.args)
                return eng.simp_bool(n if op == 'Eq' else eng.bdd.Not(n))
        cv = []
        for x in (a, b):
            if isinstance(x, Opq):
                if x.op != 'or':
                    raise Unsupported(f'{op} on {a!r}, {b!r}'[:200])
                x = self.fall('or', x.args, W64)
            cv.append(x)
        return self.binop(eng, op, cv[0], cv[1], t, None)

    def allzero(self, eng, ps):
        """node of: every one of these non-negative words is zero"""
        key = tuple(sorted((self.primitive(p)[0].key() for p in ps)))
        a = self.atom('eq0', key, 0, 1, tuple(ps))
        return self.anode(a)

    def lt0(self, eng, d):
        if type(d) is int:
            return 1 if d < 0 else 0
        if d.lo >= 0:
            return 0
        if d.hi < 0:
            return 1
        s = self.single(d.p)
        if s:
            return self.sbool(s, lambda v: v < 0)
        return self.as_bool(eng, L(self.neg(d.p, d.lo, d.hi), 0, 1))

    def sbool(self, s, f):
        n = self.anode(s[0])
        t0, t1 = f(s[1]), f(s[2])
        if t0 == t1:
            return int(t0)
        return n if t1 else self.eng.bdd.Not(n)

    def eq0(self, eng, d):
        if type(d) is int:
            return int(d == 0)
        if d.lo > 0 or d.hi < 0:
            return 0
        s = self.single(d.p)
        if s:
            return self.sbool(s, lambda v: v == 0)
        if d.lo >= 0 and d.hi == 1 or d.lo == -1 and d.hi <= 0:
            n = self.as_bool(eng, L(d.p if d.lo >= 0 else d.p.scale(-1), 0, 1))
            if n is not None:
                return eng.bdd.Not(n)
        k, _ = self.primitive(d.p)
        k2 = k.scale(-1)
        kk = min(k.key(), k2.key(), key=str)
        a = self.atom('eq0', kk, 0, 1, (d.p,))
        return self.anode(a)

    def unop(self, eng, op, a, t):
        if op == 'Not':
            if t is not None and t.k == 'bool':
                n = self.as_bool(eng, a)
                return eng.simp_bool(eng.bdd.Not(n))
            w = self.bits(t)
            return self.mk(const((1 << w) - 1).add(self.P(a), -1))
        raise Unsupported(f'{op} on limbs')

    def checked(self, eng, op, a, b, t):
        w = self.bits(t)
        pa, pb = self.P(a), self.P(b)
        (la, ha), (lb, hb) = self.rng(a), self.rng(b)
        if op == 'Add':
            p, lo, hi = pa.add(pb), la + lb, ha + hb
        elif op == 'Sub':
            p, lo, hi = pa.add(pb, -1), la - hb, ha - lb
        elif op == 'Mul':
            p, lo, hi = self.pmul(pa, pb), la * lb, ha * hb
            if hi >> w:
                raise Unsupported('overflow flag of a product')
        else:
            raise Unsupported('checked ' + op)
        v = self.low(p, lo, hi, w)
        if lo >= 0 and hi < 1 << w:
            return (v, 0)
        if op == 'Add':
            d = self.mk(p.add(const(1 << w), -1), lo - (1 << w), hi - (1 << w))
            return (v, eng.simp_bool(eng.bdd.Not(self.lt0(eng, d))))
        return (v, eng.simp_bool(self.lt0(eng, self.mk(p, lo, hi))))

    def int_cast(self, eng, v, ft, tt):
        if isinstance(v, Opq):
            raise Unsupported('cast of an or-chain')
        if tt.k == 'bool':
            return v
        lo, hi = self.rng(v)
        p, w = self.P(v), self.bits(tt)
        if w < 64 and hi >> 64 == 0 and hi >> w:
            p = self.word(p, lo, hi)
        return self.low(p, lo, hi, w)

    def to_bytes(self, eng, v, n):
        p = self.P(v)
        lo, hi = self.rng(v)
        if len(self.comp.get(p.key(), ())) == n:
            return self.comp[p.key()]
        if hi >> 64 == 0 and hi >> 8:
            p = self.word(p, lo, hi)
        out = []
        for i in range(n):
            f = self.mk(self.fl(p, lo, hi, 8 * i), lo >> (8 * i), hi >> (8 * i))
            out.append(f if type(f) is int and 0 <= f < 256 else f & 255 if type(f) is int else self.low(f.p, f.lo, f.hi, 8))
        return tuple(out)

    def from_bytes(self, eng, v, t):
        p = LP({})
        for i, x in enumerate(v):
            p = p.add(self.P(x).scale(1 << (8 * i)))
        self.comp[p.key()] = tuple(v)
        return self.mk(p, 0, (1 << (8 * len(v))) - 1)

    # ---- inline assembly ---------------------------------------------------------------------
    REG = {'ax': 'rax', 'bx': 'rbx', 'cx': 'rcx', 'dx': 'rdx', 'si': 'rsi', 'di': 'rdi'}

    def asm(self, eng, fn, base, t):
        tmpl, ops = t[1], t[2]
        regs, names = {}, {}
        outs = []
        for i, (inp, place, raw) in enumerate(ops):
            v = eng.ev(base, inp) if inp is not None else UNDEF
            m = re.search(r'reg: Reg\(X86\((\w+)\)\)', raw)
            r = None
            if m:
                r = self.REG.get(m.group(1), m.group(1))
            elif 'RegClass(X86(reg' in raw:
                r = f'op{i}'
            elif raw.startswith('Const'):
                names[i] = None
                continue
            else:
                raise Unsupported('asm operand ' + raw[:80])
            names[i] = r
            if inp is not None:
                regs[r] = v
            if place is not None:
                outs.append((place, r))
        text = ''
        for m in re.finditer(r'String\("((?:[^"\\]|\\.)*)"\)|Placeholder \{ operand_idx: (\d+), modifier: (\w+)', tmpl):
            if m.group(2) is not None:
                text += names[int(m.group(2))]
            else:
                text += m.group(1).replace('\\n', '\n').replace('\\t', ' ')
        cpu = Cpu(self, eng, regs)
        for line in text.split('\n'):
            line = line.split('//')[0].split('#')[0].strip()
            if line:
                cpu.step(line)
        for place, r in outs:
            v = cpu.regs.get(r, UNDEF)
            if v is UNDEF:
                raise Unsupported('asm output register never written')
            eng.write_place(base, place, v)


class Cpu:
    """x86-64 subset; flags are carry polynomials or UNDEF"""
    def __init__(self, dom, eng, regs):
        self.d = dom
        self.e = eng
        self.regs = regs
        self.cf = UNDEF
        self.of = UNDEF
        self.zf = UNDEF

    def src(self, s):
        s = s.strip()
        m = re.fullmatch(r'(?:qword ptr )?\[\s*(\w+)\s*(?:\+\s*(\w+))?\s*\]', s)
        if m:
            p = self.regs[m.group(1)]
            off = int(m.group(2), 0) if m.group(2) else 0
            if off % 8 or not isinstance(p, Ptr):
                raise Unsupported('asm address ' + s)
            return self.e.load(self.e.ptr_off(p, off // 8))
        if re.fullmatch(r'-?(0x[0-9a-fA-F]+|\d+)', s):
            return int(s, 0) & W64
        if s not in self.regs or self.regs[s] is UNDEF:
            raise Unsupported('asm read of ' + s)
        return self.regs[s]

    def flag(self, f):
        if f is UNDEF:
            raise Unsupported('asm reads an undefined flag')
        return f

    def add3(self, x, y, c):
        d = self.d
        p = d.P(x).add(d.P(y)).add(d.P(c))
        (a, b), (e, f), (g, h) = d.rng(x), d.rng(y), d.rng(c)
        lo, hi = a + e + g, b + f + h
        return d.low(p, lo, hi, 64), d.mk(d.fl(p, lo, hi, 64), lo >> 64, hi >> 64)

    def sub3(self, x, y, c):
        d = self.d
        p = d.P(x).add(d.P(y), -1).add(d.P(c), -1)
        (a, b), (e, f), (g, h) = d.rng(x), d.rng(y), d.rng(c)
        lo, hi = a - f - h, b - e - g
        br = d.mk(d.fl(p, lo, hi, 64).scale(-1), -(hi >> 64), -(lo >> 64))
        return d.low(p, lo, hi, 64), br

    def step(self, line):
        m = re.fullmatch(r'(\w+)\s*(.*)', line)
        op = m.group(1)
        a = [x.strip() for x in m.group(2).split(',')] if m.group(2) else []
        d = self.d
        R = self.regs
        if op == 'mov':
            if '[' in a[0]:
                raise Unsupported('asm store')
            R[a[0]] = self.src(a[1])
        elif op == 'mulx':
            x, y = self.src('rdx'), self.src(a[2])
            p = d.pmul(d.P(x), d.P(y))
            (e, f), (g, h) = d.rng(x), d.rng(y)
            hi = d.mk(d.fl(p, e * g, f * h, 64), (e * g) >> 64, (f * h) >> 64)
            if a[0] == a[1]:
                R[a[0]] = hi
            else:
                # the low half is a Montgomery multiplier when one factor is a constant
                if type(x) is int or type(y) is int:
                    R[a[1]] = d.low(p, e * g, f * h, 64) if not self.montgomery(x, y) else d.lowmul(x, y, p, e * g, f * h, 64)
                else:
                    R[a[1]] = d.low(p, e * g, f * h, 64)
                R[a[0]] = hi
        elif op == 'imul':
            x, y = self.src(a[0]), self.src(a[-1])
            p = d.pmul(d.P(x), d.P(y))
            (e, f), (g, h) = d.rng(x), d.rng(y)
            R[a[0]] = d.lowmul(x, y, p, e * g, f * h, 64)
            self.cf = self.of = self.zf = UNDEF
        elif op in ('add', 'adc', 'adcx', 'adox'):
            c = 0 if op == 'add' else self.flag(self.of if op == 'adox' else self.cf)
            v, co = self.add3(self.src(a[0]), self.src(a[1]), c)
            R[a[0]] = v
            if op == 'adox':
                self.of = co
            elif op == 'adcx':
                self.cf = co
            else:
                self.cf, self.of, self.zf = co, UNDEF, UNDEF
        elif op in ('sub', 'sbb', 'cmp'):
            c = self.flag(self.cf) if op == 'sbb' else 0
            if op == 'sbb' and a[0] == a[1]:
                x = d.P(c).scale(-1)
                lo, hi = d.rng(c)
                v, br = d.low(x, -hi, -lo, 64), c
            elif c == 0 and type(c) is int and self.src(a[1]) == 0:
                v, br = self.src(a[0]), 0
            else:
                v, br = self.sub3(self.src(a[0]), self.src(a[1]), c)
            self.of = UNDEF
            if op == 'cmp':
                self.zf = self.e.binop('Eq', self.src(a[0]), self.src(a[1]), None, None)
            else:
                self.zf = UNDEF
                R[a[0]] = v
            self.cf = br
        elif op == 'xor' and a[0] == a[1]:
            R[a[0]] = 0
            self.cf = self.of = 0
            self.zf = 1
        elif op in ('and', 'or', 'xor'):
            x, y = self.src(a[0]), self.src(a[1])
            o = {'and': 'BitAnd', 'or': 'BitOr', 'xor': 'BitXor'}[op]
            R[a[0]] = self.e.ibin(o, x, y, None, None) if type(x) is int and type(y) is int else d.binop(self.e, o, x, y, None, None)
            self.cf = self.of = 0
            self.zf = UNDEF
        elif op in ('cmovc', 'cmovb', 'cmovnc', 'cmovae', 'cmove', 'cmovz', 'cmovne', 'cmovnz'):
            f = self.flag(self.zf if op in ('cmove', 'cmovz', 'cmovne', 'cmovnz') else self.cf)
            if op in ('cmovnc', 'cmovae', 'cmovne', 'cmovnz'):
                f = self.e.unop('Not', f, BOOL) if not isinstance(f, L) else d.mk(const(1).add(f.p, -1))
            x, y = self.src(a[0]), self.src(a[1])
            if isinstance(y, Opq):
                # only a word known to be zero under the condition can be moved (or-chains)
                y = self.zero_under(f, y)
            n = self.e.bnode(f)
            R[a[0]] = self.join(n, y, x)
        else:
            raise Unsupported('asm instruction ' + op)

    def zero_under(self, f, y):
        n = self.e.bnode(f)
        z = d = self.d.allzero(self.e, y.args) if y.op == 'or' else None
        if z is not None and self.e.bdd.And(n, self.e.bdd.Not(z)) == 0:
            return 0
        return self.d.fall('or', y.args, W64)

    def join(self, n, y, x):
        d = self.d
        if n == 1:
            return y
        if n == 0:
            return x
        b = d.bpoly(n)
        p = d.P(x).add(d.pmul(b, d.P(y).add(d.P(x), -1)))
        (a, c), (e, f) = d.rng(x), d.rng(y)
        return d.mk(p, min(a, e), max(c, f))

    def montgomery(self, x, y):
        """is this constant factor the negated inverse of the field's modulus (so that the low half is a multiplier)?"""
        c = x if type(x) is int else y
        return c == getattr(self.d, 'inv', None)


class _Bool:
    k = 'bool'
    bits = 8
    signed = False
BOOL = _Bool()


def ceil_(x):
    return -((-x.numerator) // x.denominator) if isinstance(x, Fraction) else x


def floor_(x):
    return x.numerator // x.denominator if isinstance(x, Fraction) else x
