"""C27 random sampling.  Field and point sampling are evaluated with a generator that returns fresh symbols; both answers
of every question (is it a square, parity of a root, a bit of the generator) are followed (see c16)."""
from lib import *
from field import *
from c04 import Bad, no_panic, run_items
from c16 import HCtx, HDom, Branches, Pt, cofactor_one, POINT, ROOTS
import c16
from fractions import Fraction
import params as pm


class Cut(Exception):
    """a further attempt of the sampling loop"""


class RDom(HDom):
    def binop(self, eng, op, a, b, t, t2):
        if isinstance(a, Opq) and a.op == 'w' and type(b) is int:
            if op == 'Rem' and b & (b - 1) == 0 or op == 'BitAnd' and b & (b + 1) == 0:
                n = b.bit_length() - (op == 'Rem')
                return sum(self.bit(a, i) << i for i in range(n))
            if op in ('Shr', 'ShrUnchecked'):
                return Opq('w', a.args[0], a.args[1] + b, a.args[2] - b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if type(a) is int:
                a, b = b, a
            if isinstance(a, Opq) and a.op in ('d', 'f'):
                if b == (255 if op == 'BitAnd' else 0):
                    return a
                return Opq('f', op, a, b)
        return super().binop(eng, op, a, b, t, t2)

    def bit(self, a, i):
        k, off, width = a.args
        if i >= width:
            return 0
        if (k, off + i) not in self.bits:
            self.bits[k, off + i] = self.ask(f'[bit {off + i} of word {k} of the generator]')
        return self.bits[k, off + i]

    def int_cast(self, eng, v, ft, tt):
        if isinstance(v, Opq) and v.op == 'w':
            return Opq('w', v.args[0], v.args[1], min(v.args[2], tt.bits))
        return super().int_cast(eng, v, ft, tt)


class RCtx(HCtx):
    def __init__(self, P, mod, bt):
        super().__init__(P, mod, bt=bt)
        e = self.eng
        d = RDom()
        d.ask, d.bits = self.sys.ask, {}
        d.eng = getattr(e.dom, 'eng', None)
        e.dom = d
        self.drawn = 0
        self.tries = []
        ld = e.load
        def fresh(n):
            out = tuple(Opq('d', 'rng', self.drawn + i) for i in range(n))
            self.drawn += n
            return out
        def fill(e, fn, a):
            q = a[1]
            if type(q.meta) is not int:
                raise Unsupported('length of the buffer')
            for i, x in enumerate(fresh(q.meta)):
                e.store(e.ptr_off(Ptr(q.cell, q.path), i), x)
            return () if 'try' not in fn.name else En(0, ((),))
        def word(n):
            def f(e, fn, a):
                self.drawn += n
                return Opq('w', self.drawn, 0, 8 * n)
            return f
        T = {'fill_bytes': fill, 'try_fill_bytes': fill, 'next_u32': word(4), 'next_u64': word(8)}
        def meth(fn):
            m = re.fullmatch(r'<probe::rnd::Tape as rand_core::RngCore>::(\w+)', fn.name)
            return T.get(m.group(1)) if m else None
        e.prefix_summaries.insert(0, (lambda fn: meth(fn) is not None, lambda e, fn, a: meth(fn)(e, fn, a)))

    def failed(self, v):
        if v in self.tries:
            raise Bad('a candidate that was refused is tried again: the sampling loop never ends')
        self.tries.append(v)
        if len(self.tries) > 2:
            raise Cut()


def fresh_key(c, bits, key):
    if not isinstance(key, tuple):
        raise Bad('a coefficient is not the reduction of random bytes')
    if any(isinstance(x, Opq) and x.op == 'f' for x in key):
        raise Bad('a byte of the generator is altered before it is reduced')
    if not all(isinstance(x, Opq) and x.op == 'd' and x.args[0] == 'rng' for x in key):
        raise Bad('the element is not computed from the bytes of the generator alone')
    if len(set(key)) != len(key):
        raise Bad('a byte of the generator is used twice')
    if 8 * len(key) < bits + 128:
        raise Bad(f'only {8 * len(key)} random bits are reduced, which is visibly not uniform')


def check_field(P, mod, fid):
    t = P.fns[fid]
    tw = re.fullmatch(r'(bn|bls|pl)_fp?q?(2|6|12)', mod)
    pb = None
    for k, v in pm.FIELDS.items():
        if v[0] == {'bn': 'bn256', 'bls': 'bls12381', 'pl': 'pluto_eris', 'k1': 'secp256k1', 'r1': 'secp256r1'}[mod.split('_')[0]] + '::' + mod.split('_')[1].rstrip('0126').capitalize():
            pb = k
    bt = pm.Q % pb if tw else pb
    c = RCtx(P, mod, bt)
    e = c.eng
    c.sys.mixed = True
    r = e.new_cell(())
    ret = e.call(fid, [Ptr(r, ())])
    no_panic(c, 'random')
    n = int(tw.group(2)) if tw else 1
    keys = []
    for x in e.leaves(ret) if isinstance(ret, tuple) else [ret]:
        if not isinstance(x, FE):
            raise Unsupported(f'random element {x!r}'[:200])
        if x.p.u is None:
            raise Bad('a coefficient of the random element is a constant')
        if x.p != x.f.sys.elem(x.p.u):
            raise Bad('a coefficient is not the reduction of random bytes')
        keys += list(x.p.u) if x.f.base is not None else [x.p.u]
    if len(keys) != n:
        raise Unsupported(f'{len(keys)} coefficients')
    allb = []
    for k in keys:
        fresh_key(c, c.p.bit_length(), k)
        allb += k
    if len(set(allb)) != len(allb):
        raise Bad('two coefficients share bytes of the generator')
    return c


def check_point(P, mod, fid, conc):
    br = Branches()
    c = RCtx(P, mod, None)
    s = c.sys
    s.split = br.split
    try:
        try:
            case(c, br, mod, fid, conc)
        except Cut:
            pass
    except BaseException as x:
        if br.out is None:
            raise
        br.err = (type(x).__name__, f'{x} {(getattr(x, "trace", None) or [""])[-1]}' if not isinstance(x, (Bad, Diverge)) else str(x))
    if br.out is not None:
        br.steps = c.eng.steps
        br.vis |= set(c.eng.visited)
        br.report()
    up = s.up
    signs = {x[1] for x in br.found if x[0] == 'sign'}
    if not conc and signs != {0, 1}:
        raise Bad('the y coordinate always has the same sign' if signs else 'no point is ever returned')
    if not conc:
        # each sign is drawn equally often, whatever the sign of the root
        w = {}
        for x in br.found:
            if x[0] == 'sign':
                t = w.setdefault(x[2], [0, 0])
                t[x[1]] += Fraction(1, 1 << len(x[3]))
        if any(a != b for a, b in w.values()):
            raise Bad('the two signs of the y coordinate are not equally likely')
    zs = {up.monic(up.divmod(q, up.gcd(q, up.deriv(q)))[0]) for k, *q in br.found if k == 'zero' for q in q}
    c.eng.steps += br.steps
    c.eng.visited = set(c.eng.visited) | br.vis
    c.extra = (mod, conc, fid, sorted({r for q in zs for r in up.roots(q)}))
    return c


def case(c, br, mod, fid, conc):
    s, e = c.sys, c.eng
    if conc:
        # the first element sampled has the given value
        elem, n = s.elem, [None]
        def first(key):
            if n[0] is None:
                n[0] = key
            return s.const(conc[0]) if key == n[0] else elem(key)
        s.elem = first
    r = e.new_cell(())
    ret = e.call(fid, [Ptr(r, ())])
    no_panic(c, 'random')
    if not isinstance(ret, Pt):
        # a curve of prime order may return the coordinates themselves
        v = tuple(x.p for x in ret) if isinstance(ret, tuple) and len(ret) in (2, 3) and all(isinstance(x, FE) for x in ret) else None
        if v is None:
            raise Unsupported('result is not a point given by its coordinates')
        ret = Pt((v if len(v) == 3 else v + (s.const(1),),), False)
    if len(ret.parts) != 1:
        raise Unsupported('a sum of points')
    if not cofactor_one(mod) and mod != 'pl_g2' and not ret.cc or mod == 'pl_g2' and not ret.cc:
        raise Bad('the cofactor is not cleared: the point may lie outside the prime-order subgroup')
    X, Y, Z = ret.parts[0]
    if Z.is_zero():
        raise Bad('the identity is returned')
    if Z != s.const(1):
        X, Y = X * Z.inv(), Y * Z.inv()
    _, _, A, B = pm.CURVES[mod]
    if Y * Y != X * X * X + s.const(A) * X + s.const(B):
        raise Bad('the point is not on the curve')
    if not conc:
        if X.u is None or X != s.elem(X.u):
            raise Bad('the x coordinate is not a random element')
        for k in (X.u if c.quad else (X.u,)):
            fresh_key(c, c.p.bit_length(), k)
        if c.quad and set(X.u[0]) & set(X.u[1]):
            raise Bad('the two coefficients of the x coordinate share bytes of the generator')
    br.n += 1
    if Y.is_zero():
        pass
    else:
        # which sign, and for which share of the generator's output
        bs = [s.sgn(Y)] if Y.is_const() else [b if w == Y else 1 - b for w, b in s.par if w in (Y, -Y)]
        if bs:
            br.found.add(('sign', bs[0], tuple(b for _, b in s.par), tuple(sorted(e.dom.bits.items()))))
    for u, q in s.zeros:
        br.found.add(('zero', q))


def main():
    chk = Check('C27', '', rule='field elements are the reduction of fresh random bytes (at least 128 bits more than the modulus), points are on the curve, cofactor cleared, with both signs of y, for every output of the generator',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'reduction of byte strings (C25)', 'square roots (C22)', 'cofactor clearing (C15)'])
    P = dump('C27', ['rnd'])
    its = []
    for r, i in sorted(P.roots.items()):
        if not re.fullmatch(r'probe::rnd::\w+::\w+', r):
            continue
        its.append(((r, (r.split('::')[-1], ())), i))
    if len(its) < 41:
        print('probe roots missing', len(its))
        sys.exit(2)
    def fn(P, item, fid):
        mod = item[0].split('::')[-2]
        if item[1][0] == 'random':
            return check_field(P, mod, fid)
        return check_point(P, mod, fid, item[1][1])
    ex = run_items(P, chk, its, fn, 'random sampling')
    nxt = []
    for mod, conc, fid, rs in ex:
        r = [k for k, i in P.roots.items() if i == fid][0]
        for x in rs:
            nxt.append(((r, (r.split('::')[-1], (x,))), fid))
    if nxt:
        run_items(P, chk, nxt, fn, 'random sampling')
    chk.finish()
