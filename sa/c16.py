"""C16 hash to curve.  The compiled public entry point C::hash_to_curve(prefix)(message) is evaluated with the hash as an
uninterpreted function of its input bytes, the hashed field elements as symbols and every field value as an exact rational
function of them (plus square-root symbols).  Each undetermined question (is it a square, its sign, is it zero) splits the
analysis; where an expression can vanish the roots are computed and analysed one by one."""
import os, pickle, signal
from lib import *
from field import *
from summ import install
from c04 import TowerDom, Bad, no_panic, choice, run_items
from codec import split_name, strip_generics
from rat import UP, Rat
from c15 import sqrt_fp, fsqrt
import ecpy
import params as pm
import rfc9380

B_IN, S_IN = 32, 64          # SHA-256 output and block size


class Need(Exception):
    pass


class Sys:
    def __init__(self, ring, p, quad, conc, answers):
        self.r, self.p, self.quad = ring, p, quad
        self.q = p * p if quad else p
        self.up = UP(ring, quad)
        self.conc, self.answers = conc, answers
        self.i = 0
        self.split = None
        self.sqrts = {}             # root symbol: the value it squares to
        self.chis = {}              # (element, monic odd part): character
        self.par = []               # (value, sign bit)
        self.zeros = []             # (element, polynomial assumed not to vanish)
        self.log = []
        self.mixed = False          # elements may be put together from arbitrary coefficients
        self.F = ecpy.F2(p, ring.nr) if quad else ecpy.F1(p)

    def const(self, c):
        c = self.r.norm(c)
        return Rat(self, {} if self.r.is_zero(c) else {(): (c,)}, self.up.one, None)

    def elem(self, key):
        if key in self.conc:
            return self.const(self.conc[key])
        return Rat(self, {(): (self.r.zero, self.r.one)}, self.up.one, key)

    def ask(self, what):
        if self.i < len(self.answers):
            a = self.answers[self.i]
            self.i += 1
        elif self.split is not None:
            a = self.split()
        else:
            raise Need()
        self.log.append(what + (' yes' if a else ' no'))
        return a

    def is_zero(self, v):
        if v.is_zero():
            return 1
        if v.is_const():
            return 0
        n = self.up.odd_part(v.norm()) if False else self.up.monic(v.norm())
        if len(n) > 1 and (v.u, n) not in self.zeros:
            self.zeros.append((v.u, n))
        return 0

    def chi_const(self, c):
        return 0 if self.r.is_zero(c) else 1 if self.r.pow(c, (self.q - 1) // 2) == self.r.one else -1

    def chi(self, v):
        """quadratic character"""
        if self.is_zero(v):
            return 0
        if any(k for k in v.n):
            raise Unsupported('character of an expression with roots')
        n = self.up.mul(v.n[()], v.d)
        s = self.chi_const(n[-1])
        if len(n) == 1:
            return s
        o = self.up.odd_part(n)
        if len(o) == 1:
            return s
        if (v.u, o) in self.chis:
            return s * self.chis[v.u, o]
        # products of known characters
        known = [(k, x) for (u, k), x in self.chis.items() if u == v.u]
        for m in range(1, 1 << min(len(known), 6)):
            t, x = o, s
            for j, (k, y) in enumerate(known):
                if m >> j & 1:
                    t, x = self.up.mul(t, k), x * y
            if len(self.up.odd_part(t)) == 1:
                return x
        a = 1 if self.ask(f'[{v!r} is a square]') else -1
        self.chis[v.u, o] = s * a
        return a

    def sqrt(self, v):
        """a root symbol (or constant) for a value known to be a square"""
        if v.is_const():
            c = v.const_val()
            return self.const(fsqrt(self.F, c) if self.quad else sqrt_fp(self.p, c))
        for y, w in self.sqrts.items():
            if w == v:
                return Rat(self, {(y,): self.up.one}, self.up.one, v.u)
        y = 'y%d' % len(self.sqrts)
        self.sqrts[y] = v
        return Rat(self, {(y,): self.up.one}, self.up.one, v.u)

    def sgn_const(self, c):
        if self.quad:
            return c[0] % 2 if c[0] else c[1] % 2
        return c % 2

    def sgn(self, v):
        if v.is_const():
            return self.sgn_const(v.const_val())
        for w, b in self.par:
            if w == v:
                return b
            if w == -v:
                return 1 - b
        self.is_zero(v)
        b = self.ask(f'[sgn0 of {v!r}]')
        self.par.append((v, b))
        return b


class Coef:
    """a coefficient that is not the reduction of a byte string"""
    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, Coef) and self.v == o.v
    def __hash__(self): return hash(self.v)


class RSpec(FSpec):
    def __init__(self, name, short, p, limbs, sys, base=None):
        super().__init__(name, short, p, limbs, Vars())
        self.sys, self.base = sys, base
        self.quad = base is not None
        self.ring = sys.r
    def const(self, c): return FE(self, self.sys.const(c))
    def decode(self, eng, hx):
        if '_' in hx:
            return UNDEF
        if self.base is not None:
            h = len(hx) // 2
            return self.build(eng, [self.base.decode(eng, hx[:h]), self.base.decode(eng, hx[h:])])
        return self.const(int.from_bytes(bytes.fromhex(hx), 'little') * self.Rinv % self.p)
    def project(self, eng, v, e):
        if self.base is not None:
            if v.p.is_const():
                return self.base.const(v.p.const_val()[e])
            if len(v.p.n) == 1 and isinstance(v.p.u, tuple) and v.p == self.sys.elem(v.p.u):
                k = v.p.u[e]
                return FE(self.base, k.v if isinstance(k, Coef) else self.base.sys.elem(k))
            raise Unsupported('coefficient of a symbolic element')
        if v.p.is_const():
            return self.raw_of(v.p.const_val())
        raise Unsupported('limbs of a symbolic element')
    def build(self, eng, vals):
        if self.base is None:
            return self._from_limbs(eng.leaves(vals))
        vals = tuple(vals)
        if any(x is UNDEF for x in vals):
            return UNDEF
        if not all(isinstance(x, FE) for x in vals):
            raise Unsupported(f'{self.name} from {vals!r}'[:200])
        a, b = vals[0].p, vals[1].p
        if a.is_const() and b.is_const():
            return self.const((a.const_val(), b.const_val()))
        bs = self.base.sys
        if a.u is not None and b.u is not None and a == bs.elem(a.u) and b == bs.elem(b.u):
            return FE(self, self.sys.elem((a.u, b.u)))
        if self.sys.mixed:
            return FE(self, self.sys.elem(tuple(x.u if x.u is not None and x == bs.elem(x.u) else Coef(x) for x in (a, b))))
        raise Unsupported('element from symbolic coefficients')
    def store(self, eng, v, path, x):
        if len(path) != 1 or self.base is None:
            raise Unsupported('limb store')
        c = [self.project(eng, v, 0), self.project(eng, v, 1)]
        c[path[0]] = x
        return self.build(eng, c)
    def show(self, p): return repr(p)


class ROps(Ops):
    def is_zero(self, a): return a.f.sys.is_zero(self._fe(a).p)
    def eq(self, a, b): return a.f.sys.is_zero(self._fe(a).p - self._fe(b).p)
    def invert(self, a):
        z = self.is_zero(a)
        return (a if z else FE(a.f, a.p.inv()), (int(not z),))


class Hash:
    """state of the hash function: the bytes absorbed"""
    def __init__(self, data=()): self.data = data
    def __eq__(self, o): return isinstance(o, Hash) and self.data == o.data
    def __hash__(self): return hash(self.data)


class Pt:
    """sum of points given by coordinates, possibly with the cofactor cleared"""
    def __init__(self, parts, cc): self.parts, self.cc = parts, cc
    def __eq__(self, o): return isinstance(o, Pt) and (self.parts, self.cc) == (o.parts, o.cc)
    def __hash__(self): return hash((self.parts, self.cc))


class HDom(TowerDom):
    def binop(self, eng, op, a, b, t, t2):
        if op == 'BitXor':
            def bits(x):
                if isinstance(x, Opq) and x.op == 'xor':
                    return x.args
                if type(x) is int:
                    return (frozenset(), x)
                if isinstance(x, Opq) and x.op in ('h', 'm', 'd'):
                    return (frozenset([x]), 0)
                raise Unsupported(f'xor of {x!r}'[:200])
            (s, c), (s2, c2) = bits(a), bits(b)
            s, c = s ^ s2, c ^ c2
            if not s:
                return c
            return next(iter(s)) if len(s) == 1 and not c else Opq('xor', s, c)
        return super().binop(eng, op, a, b, t, t2)


DIGESTS = {}


def digest(data):
    """name of the hash of a byte sequence"""
    return DIGESTS.setdefault(data, len(DIGESTS))


def xmd(msg, dst, n):
    """expand_message_xmd of RFC 9380, section 5.3.1, over the uninterpreted hash"""
    ell = -(-n // B_IN)
    if ell > 255 or n > 65535 or len(dst) > 255:
        raise ValueError
    def H(*parts):
        d = digest(tuple(x for q in parts for x in q))
        return tuple(Opq('h', d, i) for i in range(B_IN))
    dp = tuple(dst) + (len(dst),)
    b0 = H((0,) * S_IN, msg, (n >> 8, n & 255), (0,), dp)
    b = H(b0, (1,), dp)
    out = b
    for i in range(2, ell + 1):
        x = tuple(Opq('xor', frozenset([p, q]), 0) for p, q in zip(b0, b))
        b = H(x, (i,), dp)
        out += b
    return out[:n]


# curve: domain separation suffix, method, bytes per coefficient, Z, and for the simplified SWU method A', B' and the isogeny
SSWU, SVDW = 'SSWU', 'SVDW'
SUITES = {
    'bn_g1': (b'BN254G1_XMD:SHA-256_SVDW_RO_', SVDW, 48, 1),
    'bn_g2': (b'BN254G2_XMD:SHA-256_SVDW_RO_', SVDW, 48, 1),
    'bls_g1': (b'BLS12381G1_XMD:SHA-256_SSWU_RO_', SSWU, 64, 11, 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d,
               0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0, rfc9380.BLS_G1),
    'bls_g2': (b'BLS12381G2_XMD:SHA-256_SSWU_RO_', SSWU, 64, (-2, -1), (0, 240), (1012, 1012), rfc9380.BLS_G2),
    'grumpkin': (b'GRUMPKIN_XMD:SHA-256_SVDW_RO_', SVDW, 48, 1),
    'k1': (b'secp256k1_XMD:SHA-256_SSWU_RO_', SSWU, 48, -11, 0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533, 1771, rfc9380.SECP256K1),
    'r1': (b'P256_XMD:SHA-256_SSWU_RO_', SSWU, 48, -10, None, None, None),
    'q1': (b'secq256k1_XMD:SHA-256_SVDW_RO_', SVDW, 48, 1),
    'pl_g1': (b'pluto_XMD:SHA-256_SVDW_RO_', SVDW, 72, 1),
    'eris': (b'eris_XMD:SHA-256_SVDW_RO_', SVDW, 72, 1),
}
POINT = {'bn_g1': 'bn256::G1', 'bn_g2': 'bn256::G2', 'bls_g1': 'bls12381::G1', 'bls_g2': 'bls12381::G2', 'grumpkin': 'grumpkin::G1', 'k1': 'secp256k1::Secp256k1',
         'r1': 'secp256r1::Secp256r1', 'q1': 'secq256k1::Secq256k1', 'pl_g1': 'pluto_eris::G1', 'pl_g2': 'pluto_eris::G2', 'eris': 'pluto_eris::Eris'}


class AnyLen:
    """a message of which neither the bytes nor the length are known; also its length"""


ANY_LEN = AnyLen()


class HCtx:
    def __init__(self, P, mod, conc=None, answers=(), bt=None):
        self.P, self.mod = P, mod
        for t in P.types:
            t.fe = None
        self.eng = e = Engine(P, dom=HDom())
        bt = bt or pm.CURVES[mod][0]
        self.quad = quad = '<' in bt
        pb = bt[bt.index('<') + 1:-1] if quad else bt
        short, p, n = pm.FIELDS[pb]
        self.p = p
        from poly import PrimeRing, QuadRing
        if quad:
            nr = [v[1] for v in pm.TOWERS.values() if v[0] == pb][0]
            bsys = Sys(PrimeRing(p), p, False, {}, ())
            self.sys = Sys(QuadRing(p, nr), p, True, conc or {}, answers)
        else:
            self.sys = bsys = Sys(PrimeRing(p), p, False, conc or {}, answers)
        self.specs = {pb: RSpec(pb, short, p, n, bsys)}
        if quad:
            self.specs[bt] = RSpec(bt, short + '2', p, n, self.sys, base=self.specs[pb])
        self.T = self.specs[bt]
        self.base = self.specs[pb]
        e.type_fe = lambda t: self.specs.get(t.s)
        e.dom.ask = self.sys.ask
        self.ops = ROps(e)
        self.install(bt, pb)
        self.used = field_summaries(e, self.specs, self.ops)
        install(e)

    def install(self, bt, pb):
        e, T = self.eng, self.T
        ld = e.load
        C = 'halo2curves::' + POINT.get(self.mod, '')
        A = C + 'Affine'
        def fe(v): return ld(v) if isinstance(v, Ptr) else v
        # ---- hash function
        def hnew(e, fn, a): return Hash()
        def hupd(e, fn, a):
            st, d = ld(a[0]), a[1]
            if not isinstance(st, Hash):
                raise Unsupported('hash state')
            if isinstance(d.meta, AnyLen):
                v = ld(d)
                if not isinstance(v, AnyLen):
                    raise Unsupported('part of a message of unknown length')
                e.store(a[0], Hash(st.data + (v,)))
                return ()
            e.store(a[0], Hash(st.data + tuple(e.leaves(e.load_slice(d) if type(d.meta) is int else ld(d)))))
            return ()
        def hfin(e, fn, a):
            if not isinstance(a[0], Hash):
                raise Unsupported('hash state')
            d = digest(a[0].data)
            return tuple(Opq('h', d, i) for i in range(B_IN))
        def deref(e, fn, a):
            v = ld(a[0])
            if not isinstance(v, tuple):
                raise Unsupported('generic array')
            return Ptr(a[0].cell, a[0].path + (0,), len(v))
        def outsize(e, fn, a): return B_IN
        def blocksize(e, fn, a): return S_IN
        HF = {'<D as digest::digest::Digest>::new': hnew, '<D as digest::digest::Digest>::finalize': hfin, 'digest::FixedOutput::finalize_fixed': hfin,
              '<digest::core_api::wrapper::CoreWrapper<T> as std::default::Default>::default': hnew,
              '<digest::core_api::wrapper::CoreWrapper<T> as digest::Update>::update': hupd,
              '<generic_array::GenericArray<T, N> as std::ops::Deref>::deref': deref,
              '<generic_array::GenericArray<T, N> as std::ops::DerefMut>::deref_mut': deref,
              'generic_array::impls::<impl std::convert::AsRef<[T]> for generic_array::GenericArray<T, N>>::as_ref': deref,
              '<D as digest::digest::Digest>::output_size': outsize, 'crypto_common::BlockSizeUser::block_size': blocksize}
        # ---- field
        def uniform(e, fn, a):
            bs = tuple(e.leaves(ld(a[0])))
            if all(type(b) is int for b in bs):
                raise Unsupported('reduction of constant bytes')
            return FE(self.base, self.base.sys.elem(bs))
        def sqrt(e, fn, a):
            x = fe(a[0])
            s = x.f.sys
            k = s.chi(x.p)
            if k == -1:
                self.failed(x.p)
                return (FE(x.f, s.elem(('junk', len(s.log)))), (0,))
            return (FE(x.f, s.sqrt(x.p) if k else s.const(0)), (1,))
        def legendre(e, fn, a):
            x = fe(a[0])
            return x.f.sys.chi(x.p)
        def isodd(e, fn, a):
            x = fe(a[0])
            return (x.f.sys.sgn(x.p),)
        def iseven(e, fn, a):
            x = fe(a[0])
            return (1 - x.f.sys.sgn(x.p),)
        FM = {('Field', 'sqrt'): sqrt, ('Legendre', 'legendre'): legendre, ('PrimeField', 'is_odd'): isodd, ('PrimeField', 'is_even'): iseven,
              (None, 'sqrt'): sqrt, (None, 'jacobi'): legendre, (None, 'legendre'): legendre}
        # ---- points
        def pval(v):
            v = ld(v) if isinstance(v, Ptr) else v
            if isinstance(v, Pt):
                return v
            if isinstance(v, tuple) and len(v) == 3 and all(isinstance(x, FE) for x in v):
                if v[0].p.is_zero() and v[2].p.is_zero() and v[1].p.is_const() and not v[1].p.is_zero():
                    return Pt((), False)
                return Pt((tuple(x.p for x in v),), False)
            raise Unsupported(f'point {v!r}'[:200])
        def plus(x, y):
            if x.cc or y.cc:
                raise Unsupported('sum of cleared points')
            return Pt(x.parts + y.parts, False)
        def add(e, fn, a): return plus(pval(a[0]), pval(a[1]))
        def adda(e, fn, a):
            e.store(a[0], plus(pval(a[0]), pval(a[1])))
            return ()
        def clear(e, fn, a):
            x = pval(a[0])
            if x.cc:
                raise Unsupported('cofactor cleared twice')
            return Pt(x.parts, True)
        def conv(e, fn, a):
            v = ld(a[0]) if isinstance(a[0], Ptr) else a[0]
            return v if isinstance(v, Pt) else NotImplemented
        AM = {('PrimeCurveAffine', 'to_curve'): conv, ('CofactorCurveAffine', 'to_curve'): conv, ('From', 'from'): conv}
        PM = {('Curve', 'to_affine'): conv, ('From', 'from'): conv, ('Add', 'add'): add, ('AddAssign', 'add_assign'): adda, ('CofactorGroup', 'clear_cofactor'): clear}
        cache = {}
        def find(fn):
            if fn.defn in HF:
                return HF[fn.defn]
            n = fn.name
            if 'halo2curves' not in n:
                return None
            n, _ = strip_generics(n.replace('&mut ', '').replace('&', ''))
            r = split_name(n, [C])
            if r is not None:
                if r[2] not in ('', C):
                    return None
                return PM.get((r[1], r[3]))
            r = split_name(n, [A])
            if r is not None and r[2] in ('', C, A):
                return AM.get((r[1], r[3]))
            r = split_name(n, [bt])
            if r is not None and (r[1], r[3]) in FM:
                return FM[r[1], r[3]]
            r = split_name(n, [pb])
            if r is not None and r[3] == 'from_uniform_bytes':
                return uniform
            if r is not None and (r[1], r[3]) in FM and pb != bt:
                return FM[r[1], r[3]]
            return None
        def pred(fn):
            if fn.id not in cache:
                cache[fn.id] = find(fn)
            return cache[fn.id] is not None
        e.prefix_summaries.insert(0, (pred, lambda e, fn, a: cache[fn.id](e, fn, a)))

    def failed(self, v):
        """no square root"""

    def inputs_for(self, plen, mlen):
        self.prefix = tuple(Opq('d', i) for i in range(plen))
        self.msg = (ANY_LEN,) if mlen is None else tuple(Opq('m', i) for i in range(mlen))
        self.mlen = mlen

    def run(self, fid):
        e = self.eng
        if self.mlen is None:
            mp = Ptr(e.new_cell(ANY_LEN), (), ANY_LEN)
        else:
            mp = Ptr(e.new_cell(self.msg), (0,), len(self.msg))
        return e.call(fid, [Ptr(e.new_cell(self.prefix), (0,), len(self.prefix)), mp])

    def expected(self):
        """the two hashed field elements: keys of the bytes they are reduced from"""
        suf, L = SUITES[self.mod][0], SUITES[self.mod][2]
        m = 2 if self.quad else 1
        out = xmd(self.msg, self.prefix + tuple(suf), 2 * m * L)
        ks = []
        for i in range(2):
            k = tuple(tuple(reversed(out[L * (j + i * m):L * (j + i * m + 1)])) for j in range(m))
            ks.append(k if self.quad else k[0])
        return ks


def rational(s, L, x):
    v = s.const(0)
    for c in reversed(L):
        v = v * x + s.const(c)
    return v


def verify_map(c, u, co):
    """the coordinates (X, Y, Z) are those of the RFC's map of u"""
    s = c.sys
    suite = SUITES[c.mod]
    one = s.const(1)
    Z = s.const(suite[3])
    _, _, A, B = pm.CURVES[c.mod]
    E = (s.const(A), s.const(B))
    def g(x, ab): return x * x * x + ab[0] * x + ab[1]
    def inv0(v): return s.const(0) if s.is_zero(v) else v.inv()
    if suite[1] == SVDW:
        # section 6.6.1
        ab = E
        gz = g(Z, ab)
        h = Z * Z * s.const(3) + ab[0] * s.const(4)
        tv1 = u * u * gz
        tv2, tv1 = one + tv1, one - tv1
        tv3 = inv0(tv1 * tv2)
        tv4 = s.sqrt(-gz * h)
        if s.sgn(tv4):
            tv4 = -tv4
        tv5 = u * tv1 * tv3 * tv4
        tv6 = -s.const(4) * gz * h.inv()
        half = s.const(s.r.inv(s.r.norm(2)))
        x1 = -Z * half - tv5
        x2 = -Z * half + tv5
        x3 = Z + tv6 * (tv2 * tv2 * tv3) * (tv2 * tv2 * tv3)
        x = x1 if s.chi(g(x1, ab)) >= 0 else x2 if s.chi(g(x2, ab)) >= 0 else x3
    else:
        # section 6.6.2
        ab = (s.const(suite[4]), s.const(suite[5])) if suite[6] else E
        d = Z * Z * u.pow(4) + Z * u * u
        tv1 = inv0(d)
        x1 = (-ab[1] * ab[0].inv()) * (one + tv1)
        if tv1.is_zero():
            x1 = ab[1] * (Z * ab[0]).inv()
        x2 = Z * u * u * x1
        x = x1 if s.chi(g(x1, ab)) >= 0 else x2
    gx = g(x, ab)
    X, Y, W = co
    if suite[1] == SSWU and suite[6]:
        xn, xd, yn, yd = (rational(s, L, x) for L in suite[6])
    else:
        xn, xd, yn, yd = x, one, one, one
    if s.is_zero(xd) or s.is_zero(yd):
        # the image is the point at infinity
        if not X.is_zero() or Y.is_zero() or not W.is_zero():
            return f'a field element in the kernel of the isogeny gives ({X!r}, {Y!r}, {W!r}), which is not the point at infinity'
        return None
    if s.is_zero(W):
        return 'the projective Z coordinate of the mapped point is zero'
    if X * xd != xn * W:
        return 'the x coordinate of the mapped point is not the one of RFC 9380'
    y = Y * W.inv() * yd * yn.inv() if not yn.is_zero() else None
    if y is None:
        return None if Y.is_zero() else 'the y coordinate of the mapped point is not the one of RFC 9380'
    if y * y != gx:
        return 'the y coordinate of the mapped point is not a root of the curve equation at its x coordinate'
    if gx.is_zero():
        return None
    if y.is_const() and u.is_const():
        if s.sgn(y) != s.sgn(u):
            return 'sgn0 of the y coordinate differs from sgn0 of the field element'
        return None
    def known(v):
        if v.is_const():
            return s.sgn_const(v.const_val())
        for w, b in s.par:
            if w == v:
                return b
            if w == -v:
                return 1 - b
        return None
    a, b = known(u), known(y)
    if a is None or b is None:
        return 'the sign of the y coordinate does not depend on the sign of the field element and of the root'
    if a != b:
        return 'sgn0 of the y coordinate differs from sgn0 of the field element'
    return None


def cofactor_one(mod):
    return mod not in ('bn_g2', 'bls_g1', 'bls_g2')


ROOTS = {}                      # (curve, polynomial): its roots


class Branches:
    """explores both answers of every question: a forked copy of the analysis takes one, and reports to its parent"""
    def __init__(self):
        self.out = None
        self.clear()

    def clear(self):
        self.n, self.found, self.vis, self.steps, self.err = 0, set(), set(), 0, None

    def split(self):
        r, w = os.pipe()
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        pid = os.fork()
        if pid == 0:
            os.close(r)
            self.out = w
            self.clear()
            if left:
                signal.setitimer(signal.ITIMER_REAL, left)
            return 0
        os.close(w)
        try:
            with os.fdopen(r, 'rb') as f:
                d = f.read()
        except BaseException:
            os.kill(pid, signal.SIGKILL)
            raise
        finally:
            os.waitpid(pid, 0)
        if not d:
            raise Unsupported('a branch of the analysis died')
        n, found, vis, steps, err = pickle.loads(d)
        self.n += n
        self.found |= found
        self.vis |= vis
        self.steps += steps
        if err:
            raise {'Bad': Bad, 'Diverge': Diverge}.get(err[0], Unsupported)(err[1])
        return 1

    def report(self):
        with os.fdopen(self.out, 'wb') as f:
            f.write(pickle.dumps((self.n, self.found, self.vis, self.steps, self.err)))
        os._exit(0)


def analyse(P, mod, fid, conc=()):
    """every scenario of the two maps; conc: concrete values of the hashed field elements, by position"""
    br = Branches()
    c = HCtx(P, mod, {}, ())
    s = c.sys
    s.split = br.split
    try:
        scenario(c, br, mod, fid, conc)
    except BaseException as x:
        if br.out is None:
            raise
        br.err = (type(x).__name__, f'{x} {(getattr(x, "trace", None) or [""])[-1]}' if not isinstance(x, (Bad, Diverge)) else str(x))
    if br.out is not None:
        br.steps = c.eng.steps
        br.vis |= set(c.eng.visited)
        br.report()
    up = s.up
    br.found = {(i, up.monic(up.divmod(q, up.gcd(q, up.deriv(q)))[0])) for i, q in br.found}
    for i, q in br.found:
        if (mod, q) not in ROOTS:
            ROOTS[mod, q] = up.roots(q)
    c.eng.steps += br.steps
    c.eng.visited = set(c.eng.visited) | br.vis
    c.extra = (mod, conc, [(i, q, ROOTS[mod, q]) for i, q in br.found], br.n)
    return c


def scenario(c, br, mod, fid, conc):
    c.inputs_for(7, 5)
    s = c.sys
    keys = c.expected()
    s.conc = {keys[i]: r for i, r in conc}
    def where():
        t = list(s.log)
        for k, v in conc:
            t.insert(0, f'field element {hex(v) if isinstance(v, int) else tuple(map(hex, v))}')
        return ' (case: ' + '; '.join(t)[:300] + ')' if t else ''
    ret = c.run(fid)
    try:
        no_panic(c, 'hash_to_curve')
    except Bad as x:
        raise Bad(str(x) + where())
    if isinstance(ret, tuple):
        ret = Pt((tuple(x.p for x in ret),), False) if len(ret) == 3 and all(isinstance(x, FE) for x in ret) else None
    if not isinstance(ret, Pt):
        raise Unsupported('result is not a sum of mapped points')
    us = [s.elem(k) for k in keys]
    if len(ret.parts) < 2:
        # identities are dropped from sums
        ret = Pt(ret.parts + ((s.const(0), s.const(1), s.const(0)),) * (2 - len(ret.parts)), ret.cc or not ret.parts)
    if len(ret.parts) != 2:
        raise Bad(f'the result is a sum of {len(ret.parts)} mapped points, not 2')
    if not cofactor_one(mod) and not ret.cc:
        raise Bad('the cofactor is not cleared')
    got = sorted({x.u for p in ret.parts for x in p if x.u is not None} - set(keys), key=repr)
    if got:
        raise Bad('the point is computed from a field element that is not the one hash_to_field of RFC 9380 gives')
    msgs = None
    for order in ((0, 1), (1, 0)):
        m = [verify_map(c, us[i], ret.parts[j]) for i, j in zip((0, 1), order)]
        if not any(m):
            msgs = None
            break
        if msgs is None:
            msgs = m
    if msgs:
        raise Bad([m for m in msgs if m][0] + where())
    br.n += 1
    for u, q in s.zeros:
        if u in keys:
            br.found.add((keys.index(u), q))
        elif not isinstance(u, tuple) or u[0] != 'junk':
            raise Unsupported('question about an element that is not a hashed field element')


def hash_only(P, mod, fid, plen, mlen):
    """hash inputs for other lengths; the first case that completes"""
    for ans in [()] + [tuple((k >> i) & 1 for i in range(8)) for k in range(256)]:
        c = HCtx(P, mod, {}, ans)
        try:
            c.inputs_for(plen, mlen)
            ret = c.run(fid)
        except Need:
            continue
        no_panic(c, 'hash_to_curve')
        if not isinstance(ret, Pt):
            raise Unsupported('result is not a sum of mapped points')
        us = {x.u for p in ret.parts for x in p if x.u is not None}
        if us != set(c.expected()):
            raise Bad(f'a message of {mlen or "any number of"} bytes with a prefix of {plen} bytes is not hashed to the field elements of RFC 9380')
        return c
    raise Unsupported('no case')


def check_iso(mod):
    """the pinned isogeny maps the source curve onto the target curve and infinity to infinity"""
    suf, meth, L, Z, A, B, iso = SUITES[mod]
    bt, _, a, b = pm.CURVES[mod]
    c = ring_of(mod)
    s = Sys(c[0], c[1], c[2], {}, ())
    up = s.up
    N = [up.trim([s.r.norm(x) for x in l]) for l in iso]
    f = up.trim([s.r.norm(B), s.r.norm(A), s.r.zero, s.r.one])
    xn, xd, yn, yd = N
    cube = lambda t: up.mul(t, up.mul(t, t))
    lhs = up.mul(up.mul(f, up.mul(yn, yn)), cube(xd))
    rhs = up.mul(up.add(cube(xn), up.add(up.scale(up.mul(xn, up.mul(xd, xd)), s.r.norm(a)), up.scale(cube(xd), s.r.norm(b)))), up.mul(yd, yd))
    if lhs != rhs:
        raise Bad('the pinned isogeny does not map onto the curve')
    if len(xn) != len(xd) + 1 or len(yn) != len(yd) or len(up.gcd(xn, xd)) != 1:
        raise Bad('the pinned isogeny does not fix infinity')
    return s


def ring_of(mod):
    from poly import PrimeRing, QuadRing
    bt = pm.CURVES[mod][0]
    quad = '<' in bt
    pb = bt[bt.index('<') + 1:-1] if quad else bt
    p = pm.FIELDS[pb][1]
    if quad:
        return QuadRing(p, [v[1] for v in pm.TOWERS.values() if v[0] == pb][0]), p, True
    return PrimeRing(p), p, False


def check_z(mod):
    """the conditions RFC 9380 puts on Z (sections 6.6.1 and 6.6.2)"""
    suite = SUITES[mod]
    r, p, quad = ring_of(mod)
    s = Sys(r, p, quad, {}, ())
    Z = r.norm(suite[3])
    ab = tuple(r.norm(x) for x in (suite[4:6] if suite[1] == SSWU and suite[6] else pm.CURVES[mod][2:4]))
    def g(x): return r.add(r.mul(r.add(r.mul(x, x), ab[0]), x), ab[1])
    if suite[1] == SVDW:
        gz = g(Z)
        h = r.add(r.mul(r.norm(3), r.mul(Z, Z)), r.mul(r.norm(4), ab[0]))
        k = r.mul(r.neg(h), r.inv(r.mul(r.norm(4), gz))) if not r.is_zero(gz) else r.zero
        ok = s.chi_const(gz) and s.chi_const(k) == 1 and \
            1 in (s.chi_const(gz), s.chi_const(g(r.mul(r.neg(Z), r.inv(r.norm(2))))))
    else:
        x = r.mul(ab[1], r.inv(r.mul(Z, ab[0])))
        f = s.up.trim([r.sub(ab[1], Z), ab[0], r.zero, r.one])
        ok = s.chi_const(Z) == -1 and Z != r.neg(r.one) and not s.up.roots(f) and s.chi_const(g(x)) == 1
    if not ok:
        raise Bad('Z does not satisfy the conditions of RFC 9380')


def main():
    chk = Check('C16', '', rule='for every message the result is map(u0) + map(u1) (cofactor cleared), u0 and u1 being the hash_to_field outputs of RFC 9380 and map its SSWU/SVDW map',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'SHA-256 (uninterpreted)', 'the isogeny coefficients of RFC 9380 (checked to be isogenies)',
                         'field arithmetic, square roots and sgn0 (C01, C04, C12, C22)', 'point addition (C07)', 'cofactor clearing (C15)'])
    P = dump('C16', ['hash'])
    its = []
    ent = {}
    for r, i in sorted(P.roots.items()):
        if '::hash::' not in r:
            continue
        mod = r.split('::')[-2]
        ent[mod] = (r, i)
        its.append(((r, ('map', ())), i))
    for mod, (r, i) in ent.items():
        # every prefix length; messages of unknown length (and some of known length)
        top = 255 - len(SUITES[mod][0])
        ls = [(0, 0), (17, 1), (top, 3), (1, 64), (30, 150), (top - 1, None)]
        if mod == 'r1':
            ls += [(5, 5000), (0, 70001)]
        if mod in ('r1', 'bn_g1') or chk.tier != 'quick':
            ls += [(n, None) for n in range(top + 1) if n != top - 1]
        else:
            ls += [(n, None) for n in (0, 33, 64, 100, 128, 192, top)]
        for pl, ml in ls:
            its.append(((r, ('hash', pl, ml)), i))
    if len(its) < 60:
        print('probe roots missing')
        sys.exit(2)
    def fn(P, item, fid):
        mod = item[0].split('::')[-2]
        if item[1][0] == 'map':
            if not item[1][1]:
                check_z(mod)
                if SUITES[mod][1] == SSWU and SUITES[mod][6]:
                    check_iso(mod)
            return analyse(P, mod, fid, item[1][1])
        return hash_only(P, mod, fid, item[1][1], item[1][2])
    cases = 0
    done = set()
    while its:
        # a value at which some expression vanishes is analysed on its own, in the next round
        ex = run_items(P, chk, its, fn, 'hash to curve')
        its = []
        for mod, conc, found, n in ex:
            cases += n
            rs = [sorted({x for i, q, rs in found if i == k for x in rs}) for k in (0, 1)]
            for _, q, r in found:
                ROOTS[mod, q] = r
            if chk.tier == 'quick':
                # no expression mixes the two elements: each special value once in each position
                ncs = [] if conc else [tuple((k, rs[k][(j + k) % len(rs[k])]) for k in (0, 1) if rs[k]) for j in range(max(map(len, rs)))]
            else:
                ncs = [tuple(sorted(dict(conc + ((k, x),)).items())) for k in (0, 1) for x in rs[k]]
            for nc in ncs:
                if nc and (mod, nc) not in done:
                    done.add((mod, nc))
                    its.append(((ent[mod][0], ('map', nc)), ent[mod][1]))
    chk.cases = cases
    chk.finish()
