"""Bit-vector domain: an undetermined machine integer is the tuple of its bits, each a condition."""
from engine import B, G, En, Ptr, Opq, FE, UNDEF, Unsupported, Diverge
from c04 import TowerDom


class BV:
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __eq__(self, o): return isinstance(o, BV) and o.b == self.b
    def __hash__(self): return hash(('BV', self.b))
    def __repr__(self): return 'BV' + repr(list(self.b))


def mkbv(bits, signed=False):
    """smallest representation of a bit list (LSB first)"""
    bits = tuple(bits)
    if all(x < 2 for x in bits):
        n = sum(x << i for i, x in enumerate(bits))
        if signed and bits and bits[-1]:
            n -= 1 << len(bits)
        return n
    if all(x == 0 for x in bits[1:]):
        return B(bits[0])
    return BV(bits)


def bits_of(v, n):
    """n bits of a scalar value, zero extended"""
    if type(v) is int:
        return tuple((v >> i) & 1 for i in range(n))
    if isinstance(v, B):
        return ((v.n,) + (0,) * n)[:n]
    if isinstance(v, BV):
        return (v.b + (0,) * n)[:n]
    return None


class BVDom(TowerDom):
    """TowerDom + bit vectors + bytes of field elements (see codec.py for the latter)"""

    def binop(self, eng, op, a, b, t, t2):
        D = eng.bdd
        if isinstance(a, Opq) and a.op == 'memcmp' or isinstance(b, Opq) and b.op == 'memcmp':
            return super().binop(eng, op, a, b, t, t2)
        n = t.bits if t is not None and t.bits else None
        if n is None:
            n = max([len(x.b) for x in (a, b) if isinstance(x, BV)] + [8])
            for x in (a, b):
                if type(x) is int:
                    n = max(n, x.bit_length())
        a, b = self.norm(eng, a), self.norm(eng, b)
        x, y = bits_of(a, n), bits_of(b, n)
        if x is None or (y is None and op not in ('Shl', 'Shr')):
            return super().binop(eng, op, a, b, t, t2)
        signed = bool(t is not None and t.signed)
        if op == 'BitAnd':
            return mkbv((D.And(p, q) for p, q in zip(x, y)), signed)
        if op == 'BitOr':
            return mkbv((D.Or(p, q) for p, q in zip(x, y)), signed)
        if op == 'BitXor':
            return mkbv((D.Xor(p, q) for p, q in zip(x, y)), signed)
        if op in ('Eq', 'Ne'):
            r = 1
            for p, q in zip(x, y):
                r = D.And(r, D.Not(D.Xor(p, q)))
            return eng.simp_bool(r if op == 'Eq' else D.Not(r))
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked') and type(b) is int:
            k = b % n
            if op.startswith('Shl'):
                return mkbv(((0,) * k + x)[:n], signed)
            top = x[-1] if signed else 0
            return mkbv(x[k:] + (top,) * k, signed)
        if op in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            return mkbv(self.addsub(D, op[:3], x, y)[0], signed)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if signed:
                x, y = (z[:-1] + (D.Not(z[-1]),) for z in (x, y))
            if op in ('Gt', 'Le'):
                x, y = y, x
            lt = 0
            for p, q in zip(x, y):
                lt = D.ite(D.Xor(p, q), q, lt)
            return eng.simp_bool(lt if op in ('Lt', 'Gt') else D.Not(lt))
        if op in ('Mul', 'MulUnchecked') and (type(a) is int or type(b) is int):
            k, v = (a, y) if type(a) is int else (b, x)
            acc = (0,) * n
            for i in range(n):
                if k >> i & 1:
                    acc = self.addsub(D, 'Add', acc, ((0,) * i + v)[:n])[0]
            return mkbv(acc, signed)
        return super().binop(eng, op, a, b, t, t2)

    merges = True

    def norm(self, eng, v):
        return v

    def addsub(self, D, op, x, y):
        c = 0
        out = []
        for p, q in zip(x, y):
            s = D.Xor(D.Xor(p, q), c)
            if op == 'Add':
                c = D.Or(D.And(p, q), D.And(c, D.Or(p, q)))
            else:
                c = D.Or(D.And(D.Not(p), q), D.And(c, D.Or(D.Not(p), q)))
            out.append(s)
        return out, c

    def checked(self, eng, op, a, b, t):
        a, b = self.norm(eng, a), self.norm(eng, b)
        x, y = bits_of(a, t.bits), bits_of(b, t.bits)
        if x is not None and y is not None and op in ('Add', 'Sub') and not t.signed:
            s, c = self.addsub(eng.bdd, op, x, y)
            return (mkbv(s), eng.simp_bool(c))
        return super().checked(eng, op, a, b, t)

    def unop(self, eng, op, a, t):
        a = self.norm(eng, a)
        x = bits_of(a, t.bits) if t is not None and t.bits else None
        if x is not None and op == 'Not':
            return mkbv((eng.bdd.Not(p) for p in x), t.signed)
        if x is not None and op == 'Neg':
            return mkbv(self.addsub(eng.bdd, 'Sub', (0,) * t.bits, x)[0], t.signed)
        return super().unop(eng, op, a, t)

    def int_cast(self, eng, v, ft, tt):
        v = self.norm(eng, v)
        if isinstance(v, BV):
            n = ft.bits or len(v.b)
            x = bits_of(v, n)
            if ft.signed and tt.bits > n:
                x = x + (x[-1],) * (tt.bits - n)
            return mkbv((x + (0,) * tt.bits)[:tt.bits], tt.signed)
        return super().int_cast(eng, v, ft, tt)

    def to_bytes(self, eng, v, n):
        v = self.norm(eng, v)
        x = bits_of(v, 8 * n)
        if x is None:
            return super().to_bytes(eng, v, n)
        return tuple(mkbv(x[8 * i:8 * i + 8]) for i in range(n))

    def from_bytes(self, eng, v, t):
        out = ()
        for y in v:
            x = bits_of(self.norm(eng, y), 8)
            if x is None:
                return super().from_bytes(eng, v, t)
            out += x
        return mkbv(out, bool(t is not None and t.signed))

    def as_bool(self, eng, v):
        if isinstance(v, BV):
            r = 0
            for x in v.b:
                r = eng.bdd.Or(r, x)
            return r
        return super().as_bool(eng, v)

    def merge(self, eng, flat):
        """join of scalars under guards, bit by bit"""
        if not any(isinstance(v, BV) for _, v in flat):
            return None
        n = max(len(v.b) for _, v in flat if isinstance(v, BV))
        D = eng.bdd
        out = [0] * n
        cols = []
        for g, v in flat:
            if type(v) is int and (v < 0 or v >> n):
                return None
            x = bits_of(v, n)
            if x is None:
                return None
            cols.append((g, x))
        for i in range(n):
            if all(x[i] == cols[0][1][i] for _, x in cols):
                out[i] = cols[0][1][i]
                continue
            for g, x in cols:
                out[i] = D.Or(out[i], D.And(g, x[i]))
        return mkbv(out)
