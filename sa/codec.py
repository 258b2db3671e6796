"""Codec domain: the bytes of a field element are atoms named after the element, and an undetermined byte
string names the element it decodes to.  Summaries stand for the base-field codecs, which C09/C12/C23 verify."""
from lib import *
from field import *
from bv import *
import params as pm

BIG = {'halo2curves::bls12381::Fq'}          # to_bytes/from_bytes order; to_repr/from_repr are little-endian everywhere


def strip_generics(n):
    """name without a trailing ::<...>"""
    if not n.endswith('>'):
        return n, ''
    d = 0
    for i in range(len(n) - 1, -1, -1):
        if n[i] == '>' and n[i - 1] != '-':
            d += 1
        elif n[i] == '<':
            d -= 1
            if d == 0:
                if n[i - 2:i] == '::':
                    return n[:i - 2], n[i:]
                return n, ''
    return n, ''


def split_name(n, types):
    """(type, trait or None, trait args, method, method generics) when n is a method of one of the types"""
    n, gen = strip_generics(n)
    for t in types:
        if n.startswith(t + '::') and re.fullmatch(r'\w+', n[len(t) + 2:]):
            return t, None, '', n[len(t) + 2:], gen
        if n.startswith('<' + t + ' as '):
            m = re.fullmatch(r'([\w:]+)(?:<(.*)>)?>::(\w+)', n[len(t) + 5:])
            if m:
                return t, m.group(1).split('::')[-1], m.group(2) or '', m.group(3), gen
        m = re.fullmatch(r'(?:[\w:]+::)?<impl ([\w:]+)(?:<(.*)>)? for ' + re.escape(t) + r'>::(\w+)', n)
        if m:
            return t, m.group(1).split('::')[-1], m.group(2) or '', m.group(3), gen
        m = re.fullmatch(r'(?:[\w:]+::)?<impl ' + re.escape(t) + r'>::(\w+)', n)
        if m:
            return t, None, '', m.group(1), gen
        if t.endswith('>') and n.startswith(t[:t.index('<')] + '::' + t[t.index('<'):] + '::'):
            r = n[len(t) + 4:]
            if re.fullmatch(r'\w+', r):
                return t, None, '', r, gen
    return None


class Codec:
    def __init__(self, ctx, quads=True):
        self.ctx = ctx
        self.e = ctx.eng
        self.reg = {}               # (kind, spec, bits) -> element
        self.sqrts = {}
        self.rhs = []               # known right-hand sides whose square roots are non-zero
        self.used = {}
        self.install()
        dom = ctx.dom
        dom.codec = self

    # ---- elements <-> bits ---------------------------------------------------------------------
    def key(self, x):
        p = x.p
        if self.ctx.ops.nf is not None:
            p = self.ctx.ops.nf(p)
        return p

    def enc_bits(self, x, kind):
        """integer digits (little-endian bits) of the canonical ('can') or stored ('mont') integer of a base element"""
        f = x.f
        n = 64 * f.n
        p = self.key(x)
        if p.is_const():
            v = p.const_val()
            if kind == 'mont':
                v = v * f.R % f.p
            return tuple((v >> i) & 1 for i in range(n))
        nb = f.p.bit_length()
        D = self.e.bdd
        # an element that was itself read from bytes gives its bytes back
        k = (kind, f.short, p.key())
        b = self.back.get(k)
        if b is not None:
            return b
        b = tuple(D.atom(('bit', kind, f.short, p.key(), i)) if i < nb else 0 for i in range(n))
        self.reg[(kind, f.short, b)] = FE(f, p)
        self.back[k] = b
        return b

    back = None

    def dec_bits(self, f, bits, kind):
        """(element, node: the integer is below the modulus)"""
        D = self.e.bdd
        bits = tuple(bits)
        if all(b < 2 for b in bits):
            v = sum(b << i for i, b in enumerate(bits))
            return f.const(v if kind == 'can' else v * f.Rinv), int(v < f.p)
        x = self.reg.get((kind, f.short, bits))
        if x is not None:
            return x, 1
        v = f.vars.new(('dec', kind, f.short, bits), real=True)
        f.vars.info[v]['conj'] = v
        x = FE(f, Poly.var(f.ring, v))
        ok = D.atom(('below', f.short, bits))
        if any(b for b in bits[f.p.bit_length():]):
            # digits above the modulus' bit length must be zero
            for b in bits[f.p.bit_length():]:
                ok = D.And(ok, D.Not(b))
        self.back.setdefault((kind, f.short, x.p.key()), bits)
        return x, ok

    def comps(self, x):
        if getattr(x.f, 'base', None) is not None:
            return [x.f.project(self.e, x, 0), x.f.project(self.e, x, 1)]
        return [x]

    def size(self, f):
        return 16 * f.n if getattr(f, 'base', None) is not None else 8 * f.n

    def big(self, f, form):
        b = getattr(f, 'base', None) or f
        return form == 'bytes' and b.name in BIG

    def encode(self, x, form):
        """bytes of an element; form: bytes | repr | raw"""
        out = ()
        for c in self.comps(x):
            b = self.enc_bits(c, 'mont' if form == 'raw' else 'can')
            bs = tuple(mkbv(b[8 * i:8 * i + 8]) for i in range(len(b) // 8))
            out += tuple(reversed(bs)) if self.big(x.f, form) else bs
        return out

    def encode_g(self, x, form):
        def f(v):
            if not isinstance(v, FE):
                raise Unsupported(f'encoding of {v!r}'[:100])
            return self.encode(v, form)
        return self.e.lift(f, x)

    def decode(self, f, bs, form):
        """(element, node)"""
        base = getattr(f, 'base', None)
        if len(bs) != self.size(f):
            raise Unsupported('decode length')
        parts = [bs] if base is None else [bs[:len(bs) // 2], bs[len(bs) // 2:]]
        els, ok = [], 1
        for q in parts:
            if self.big(f, form):
                q = tuple(reversed(q))
            bits = ()
            for y in q:
                b = bits_of(y, 8)
                if b is None:
                    raise Unsupported(f'byte {y!r}'[:80])
                bits += b
            x, v = self.dec_bits(base or f, bits, 'mont' if form == 'raw' else 'can')
            els.append(x)
            ok = self.e.bdd.And(ok, v)
        if base is None:
            return els[0], ok
        x = f.build(self.e, tuple(els))
        if x.p.is_const() or not all(y.p.is_const() or f.vars.info[max(y.p.vars())].get('real') for y in els):
            return x, ok
        # one indeterminate per decoded element
        return FE(f, Poly.var(f.ring, f.vars.new(('pair', f.short, x.p.key())))), ok

    def decode_g(self, f, bs, form):
        """decode of a (possibly gated) byte tuple -> (gated element, node)"""
        bs = tuple(self.flatten(b) for b in bs)
        return self.decode(f, bs, form)

    def flatten(self, b):
        if isinstance(b, G):
            r = self.ctx.dom.merge_any(self.e, b.alts)
            if r is None:
                raise Unsupported(f'byte {b!r}'[:80])
            return r
        return b

    # ---- signs and roots -----------------------------------------------------------------------
    def sign(self, x, kind):
        """node of parity ('odd') / lexicographic sign ('lex') of an element"""
        D = self.e.bdd
        f = x.f
        p = self.key(x)
        if p.is_const():
            return self.const_sign(f, p.const_val(), kind)
        m = max(p.t)
        q = -p
        neg = q.t[m] < p.t[m]
        c = q if neg else p
        a = D.atom((kind, f.short, c.key()))
        if neg:
            a = D.Not(a)
        return D.And(a, D.Not(self.ctx.ops.zero_node(FE(f, p))))

    def const_sign(self, f, c, kind):
        def odd(v): return v & 1
        def lex(v): return int(v > (f.p - 1) // 2)
        if isinstance(c, tuple):
            if kind == 'odd':
                return odd(c[0]) | (int(c[0] == 0) & odd(c[1]))
            return lex(c[1]) | (int(c[1] == 0) & lex(c[0]))
        return odd(c) if kind == 'odd' else lex(c)

    def sqrt(self, x):
        """(root, node: is a square)"""
        f = x.f
        p = self.key(x)
        D = self.e.bdd
        if p.is_zero():
            return f.const(0), 1
        v = f.vars.new(('sqrt', f.short, p.key()))
        if p in self.rhs:
            f.vars.unit.add(v)
        cv = getattr(self.ctx, 'curve_vars', None)
        if cv is not None and f is self.ctx.base:
            cv[v] = p
        return FE(f, Poly.var(f.ring, v)), D.atom(('square', f.short, p.key()))

    def cmp(self, a, b):
        """Ordering of two elements"""
        e, D = self.e, self.e.bdd
        pa, pb = self.key(a), self.key(b)
        eq = self.ctx.ops.zero_node(FE(a.f, pa - pb))
        if pa.is_const() and pb.is_const():
            x, y = pa.const_val(), pb.const_val()
            if isinstance(x, tuple):
                x, y = x[::-1], y[::-1]
            return En(0 if x < y else 1 if x == y else 2, ())
        lt = self.lt_node(a, b)
        return e.mkg([(eq, En(1, ())), (D.And(D.Not(eq), lt), En(0, ())), (D.And(D.Not(eq), D.Not(lt)), En(2, ()))])

    def lt_node(self, a, b):
        """a < b, given a != b"""
        D = self.e.bdd
        pa, pb = self.key(a), self.key(b)
        ka, kb = pa.key(), pb.key()
        if ka < kb:
            return D.atom(('less', a.f.short, ka, kb))
        return D.Not(D.atom(('less', a.f.short, kb, ka)))

    # ---- vectors and readers -------------------------------------------------------------------
    def vec(self, items):
        e = self.e
        n = len(items)
        return (((Ptr(e.new_cell(tuple(items) if n else ((),)), (0,)), n, ()), ()), n)

    def vec_items(self, v):
        if isinstance(v, G):
            raise Unsupported('vector of undetermined length')
        p, n = v[0][0][0], v[1]
        if type(n) is not int:
            raise Unsupported('vector of undetermined length')
        return tuple(self.e.load(self.e.ptr_off(p, i)) for i in range(n))

    def reader(self, r):
        """pointer to the cell holding the remaining slice"""
        e = self.e
        for _ in range(4):
            v = e.load(r)
            if isinstance(v, Ptr) and isinstance(v.meta, int):
                return r, v
            if not isinstance(v, Ptr):
                break
            r = v
        raise Unsupported('unknown reader')

    def bytes_arg(self, a):
        """bytes of &[u8; N] / &[u8] / [u8; N] / Repr<N>"""
        e = self.e
        if isinstance(a, G):
            return None
        if isinstance(a, Ptr):
            v = e.load_slice(a) if a.meta is not None else e.load(a)
        else:
            v = a
        while isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple):
            v = v[0]
        if isinstance(v, tuple):
            return v
        raise Unsupported(f'byte argument {v!r}'[:100])

    # ---- summaries -----------------------------------------------------------------------------
    def install(self):
        self.back = {}
        e, ctx = self.e, self.ctx
        specs = ctx.specs
        ld = e.load
        def val(v):
            if isinstance(v, Ptr):
                return ld(v)
            if isinstance(v, G) and any(isinstance(x, Ptr) for _, x in v.alts):
                return e.lift(lambda p: ld(p) if isinstance(p, Ptr) else p, v)
            return v
        ch = lambda n: (e.simp_bool(n),)
        Some = lambda x: En(1, (x,))
        NONE = En(0, ())
        Ok = lambda x: En(0, (x,))
        Err = lambda: En(1, (Opq('io::Error'),))

        def to_(f, form, vec):
            def h(fn, a):
                r = self.encode_g(val(a[0]), form)
                return self.vec(r) if vec else (r,) if form == 'repr' else r
            return h
        def from_(f, form, loose=False):
            def h(fn, a):
                bs = self.bytes_arg(a[0])
                n = self.size(f)
                if len(bs) != n:
                    if len(bs) < n:
                        e.event('panic', e.pc, f'{fn.name}: slice of {len(bs)} bytes')
                        raise Diverge('short slice')
                    bs = bs[:n]
                x, ok = self.decode_g(f, bs, form)
                return (x, ch(ok))
            return h
        def raw_from(f):
            def h(fn, a):
                bs = self.bytes_arg(a[0])
                if len(bs) != self.size(f):
                    return NONE
                x, ok = self.decode_g(f, bs, 'raw')
                return e.mkg([(ok, Some(x)), (e.bdd.Not(ok), NONE)])
            return h
        def raw_from_un(f):
            def h(fn, a):
                bs = self.bytes_arg(a[0])
                if len(bs) != self.size(f):
                    e.event('panic', e.pc, f'{fn.name}: {len(bs)} bytes')
                    raise Diverge('length')
                return self.decode_g(f, bs, 'raw')[0]
            return h
        def take(a, n):
            r, s = self.reader(a)
            if s.meta < n:
                return None
            bs = tuple(ld(e.ptr_off(Ptr(s.cell, s.path), i)) for i in range(n))
            e.store(r, Ptr(s.cell, s.path[:-1] + (e.idx_add(s.path[-1], n),), s.meta - n))
            return bs
        def raw_read(f):
            def h(fn, a):
                bs = take(a[0], self.size(f))
                if bs is None:
                    return Err()
                x, ok = self.decode_g(f, bs, 'raw')
                return e.mkg([(ok, Ok(x)), (e.bdd.Not(ok), Err())])
            return h
        def raw_read_un(f):
            def h(fn, a):
                bs = take(a[0], self.size(f))
                if bs is None:
                    e.event('panic', e.pc, f'{fn.name}: short read')
                    raise Diverge('short read')
                return self.decode_g(f, bs, 'raw')[0]
            return h
        def raw_write(f):
            def h(fn, a):
                w = a[1]
                for _ in range(4):
                    v = ld(w)
                    if isinstance(v, tuple) and len(v) == 2 and type(v[1]) is int:
                        break
                    if not isinstance(v, Ptr):
                        raise Unsupported('unknown writer')
                    w = v
                else:
                    raise Unsupported('unknown writer')
                e.store(w, self.vec(self.vec_items(v) + tuple(self.encode_g(val(a[0]), 'raw'))))
                return Ok(())
            return h
        def sgn(f, kind, inv=False):
            def h(fn, a):
                x = val(a[0])
                n = 0
                for g, v in (x.alts if isinstance(x, G) else [(1, x)]):
                    n = e.bdd.Or(n, e.bdd.And(g, self.sign(v, kind)))
                return ch(e.bdd.Not(n) if inv else n)
            return h
        def sq(f):
            def h(fn, a):
                x = val(a[0])
                if isinstance(x, G):
                    out, n = [], 0
                    for g, v in x.alts:
                        if e.feasible(g):
                            y, s = self.sqrt(v)
                            out.append((g, y))
                            n = e.bdd.Or(n, e.bdd.And(g, s))
                    return (e.mkg(out), ch(n))
                y, s = self.sqrt(x)
                return (y, ch(s))
            return h
        def cmp_(f, kind):
            def h(fn, a):
                r = e.lift(self.cmp, val(a[0]), val(a[1]))
                if kind == 'cmp':
                    return r
                if kind == 'partial_cmp':
                    return Some(r)
                return e.lift(lambda o: int(o.v in {'lt': (0,), 'le': (0, 1), 'gt': (2,), 'ge': (1, 2)}[kind]), r)
            return h
        def small(f):
            def h(fn, a):
                v = a[0]
                if type(v) is int:
                    return NotImplemented
                b = bits_of(v, 64)
                if b is None:
                    return NotImplemented
                base = getattr(f, 'base', None) or f
                x, _ = self.dec_bits(base, b + (0,) * (64 * base.n - 64), 'can')
                return x if base is f else f.build(e, (x, base.const(0)))
            return h
        def wide(f):
            def h(fn, a):
                bs = self.bytes_arg(a[0])
                b = ()
                for y in bs:
                    b += bits_of(y, 8)
                v = f.vars.new(('wide', f.short, b), real=True)
                f.vars.info[v]['conj'] = v
                return FE(f, Poly.var(f.ring, v))
            return h

        tabs = {}
        for n, f in specs.items():
            t = {}
            t[(None, 'to_bytes')] = to_(f, 'bytes', False)
            t[('EndianRepr', 'to_bytes')] = to_(f, 'bytes', True)
            t[(None, 'from_bytes')] = from_(f, 'bytes')
            t[('EndianRepr', 'from_bytes')] = from_(f, 'bytes')
            t[('PrimeField', 'to_repr')] = to_(f, 'repr', False)
            t[('PrimeField', 'from_repr')] = from_(f, 'repr')
            t[('SerdeObject', 'to_raw_bytes')] = to_(f, 'raw', True)
            t[('SerdeObject', 'from_raw_bytes')] = raw_from(f)
            t[('SerdeObject', 'from_raw_bytes_unchecked')] = raw_from_un(f)
            t[('SerdeObject', 'read_raw')] = raw_read(f)
            t[('SerdeObject', 'read_raw_unchecked')] = raw_read_un(f)
            t[('SerdeObject', 'write_raw')] = raw_write(f)
            t[('PrimeField', 'is_odd')] = sgn(f, 'odd')
            t[('PrimeField', 'is_even')] = sgn(f, 'odd', True)
            t[(None, 'lexicographically_largest')] = sgn(f, 'lex')
            t[('Field', 'sqrt')] = sq(f)
            t[('Ord', 'cmp')] = cmp_(f, 'cmp')
            t[('PartialOrd', 'partial_cmp')] = cmp_(f, 'partial_cmp')
            for k in ('lt', 'le', 'gt', 'ge'):
                t[('PartialOrd', k)] = cmp_(f, k)
            t[('From', 'from')] = small(f)
            t[('FromUniformBytes', 'from_uniform_bytes')] = wide(f)
            tabs[n] = t
        types = sorted(specs, key=len, reverse=True)
        cache = {}
        def pred(fn):
            if fn.id not in cache:
                h = None
                if 'halo2curves' in fn.name:
                    s = split_name(fn.name, types)
                    if s and not (s[1] == 'From' and s[2] != 'u64'):
                        h = tabs[s[0]].get((s[1], s[3]))
                cache[fn.id] = h
            return cache[fn.id] is not None
        def handler(en, fn, a):
            self.used[fn.name] = self.used.get(fn.name, 0) + 1
            return cache[fn.id](fn, a)
        e.prefix_summaries.insert(0, (pred, handler))


class CodecDom(BVDom):
    codec = None

    def norm(self, eng, v):
        """raw limbs of an element as bits"""
        if isinstance(v, Opq) and v.op == 'limb' and self.codec is not None:
            x, i = v.args
            b = self.codec.enc_bits(x, 'mont')
            return mkbv(b[64 * i:64 * i + 64])
        return v

    def merge_any(self, eng, alts):
        n = 8
        D = eng.bdd
        out = [0] * n
        cols = [(g, bits_of(v, n)) for g, v in alts]
        if any(x is None for _, x in cols):
            return None
        for i in range(n):
            if all(x[i] == cols[0][1][i] for _, x in cols):
                out[i] = cols[0][1][i]
                continue
            for g, x in cols:
                out[i] = D.Or(out[i], D.And(g, x[i]))
        return mkbv(out)
