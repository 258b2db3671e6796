"""prime-field conversions: decoders and encoders (C09), integers and wide inputs (C25), order and parity (C23)"""
from lctx import *
from c01 import ftype_of, words, prime_items
from c07 import run_items
from limb import const, LP

BIG = {'bls12381::Fq'}       # documented byte order of to_bytes/from_bytes; every other field is little-endian


def bytes_in(c, n):
    """n symbolic bytes, least significant first"""
    if n % 8:
        return c.limbs('x', (1 << (8 * n)) - 1, n=n, bits=8)
    out = ()
    for x in c.limbs('x', (1 << (8 * n)) - 1, n=n // 8, bits=64):
        out += c.dom.to_bytes(c.eng, x, 8)
    return out


def elem_ref(c):
    return c.eng.ref(c.elem('a'))


def empty_vec(c):
    return (((Ptr(c.eng.new_cell(((),)), (0,)), 0, ()), ()), 0)


def vec_items(c, v):
    if isinstance(v, G):
        raise Unsupported('vector of undetermined length')
    p, n = v[0][0][0], v[1]
    if type(n) is not int:
        raise Unsupported('vector of undetermined length')
    return tuple(c.eng.load(c.eng.ptr_off(p, i)) for i in range(n))


def flat(v, n):
    """the n leaf words of an array-like value"""
    while isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple):
        v = v[0]
    if not (isinstance(v, tuple) and len(v) == n):
        raise Unsupported(f'expected {n} words: {v!r}'[:120])
    return v


def opt_parts(c, v):
    """(node of Some/Ok, payload or None) of CtOption / Option / Result values"""
    e = c.eng
    if isinstance(v, tuple) and len(v) == 2:
        return e.bnode(v[1][0] if isinstance(v[1], tuple) else v[1]), v[0]
    return None


def enum_parts(c, v, good):
    alts = v.alts if isinstance(v, G) else [(1, v)]
    n, pay = 0, None
    for g, x in alts:
        if not isinstance(x, En):
            raise Unsupported('not an enum value')
        if x.v == good:
            n = c.eng.bdd.Or(n, g)
            if pay is not None and pay != x.f[0]:
                raise Unsupported('several payloads')
            pay = x.f[0]
    return n, pay


def enc_bytes(c, bs, big, mont, what, dec=None):
    """bs: output bytes; they must be the digits of the integer (or of the raw limbs)"""
    p, R = c.p, c.R
    Ri = pow(R, -1, p)
    n = 8 * c.n
    if len(bs) != n:
        raise Bad(f'{what}: {len(bs)} bytes, expected {n}')
    bs = tuple(reversed(bs)) if big else tuple(bs)
    dec = dec or c.decider()
    A = c.gvar(dec, 0)
    if mont:
        c.elem_is(bs, lambda d, f: (A, 1), lambda x, e: x[0], what, bits=8, dec=dec)
    else:
        c.elem_is(bs, lambda d, f: (A, R), lambda x, e: x[0] * Ri % p, what, bits=8, dec=dec)


def dec_value(c, node, payload, mont, what, n=0):
    """decoder: accepts exactly X < p; then the value is X (times R unless the input is the raw form)"""
    p, R = c.p, c.R
    D = c.eng.bdd
    X0 = lambda dec: c.gvar(dec, 0)
    c.node_is(node, lambda dec: dec.neg_node(X0(dec).add(const(-p))), lambda x: x[0] < p, what + ': acceptance')
    dec = c.decider({0: p - 1})
    if payload is None:
        raise Bad(what + ': never returns a value')
    # directed points must respect the acceptance condition
    c.elem_is(words(payload), lambda d, f: (X0(dec).scale(1 if mont else R), 1), lambda x, e: x[0] * (1 if mont else R) % p, what + ': value',
              dec=dec, when=lambda x: x[0] < p)


def opt_of(c, v):
    r = opt_parts(c, v) if isinstance(v, tuple) else None
    return r


def check_codec(P, root, fid):
    parts = root.split('::')
    op = parts[-1]
    short = ftype_of(P, root)
    c = LCtx(P, 'halo2curves::' + short)
    e = c.eng
    n = 8 * c.n
    big = short in BIG
    if op in ('to_repr', 'to_bytes', 'end_to_bytes', 'into_repr', 'into_repr_r', 'raw_to', 'raw_write', 'le_bits'):
        a = c.elem('a')
        if op == 'raw_write':
            w = e.ref(empty_vec(c))
            r = e.call(fid, [e.ref(a), w])
            alts = r.alts if isinstance(r, G) else [(1, r)]
            if any(not isinstance(x, En) or x.v != 0 for _, x in alts):
                raise Bad('write_raw to a growing buffer can fail')
            bs = vec_items(c, e.load(w))
        else:
            r = e.call(fid, [a if op == 'into_repr' else e.ref(a)])
            if op in ('end_to_bytes', 'raw_to'):
                bs = vec_items(c, r)
            elif op == 'le_bits':
                p, R = c.p, c.R
                dec = c.decider()
                c.elem_is(flat(r, c.n), lambda d, f: (c.gvar(dec, 0), R), lambda x, q: x[0] * pow(R, -1, p) % p, op, dec=dec)
                return c
            else:
                bs = flat(r, n)
        enc_bytes(c, bs, big and op in ('to_bytes', 'end_to_bytes'), op.startswith('raw'), op)
        return c
    if op in ('from_repr', 'from_bytes', 'from_repr_vartime', 'end_from_bytes', 'raw_from', 'raw_read'):
        xs = bytes_in(c, n)
        src = tuple(reversed(xs)) if big and op in ('from_bytes', 'end_from_bytes') else xs
        if op in ('from_repr', 'from_repr_vartime'):
            arg = (src,)
        elif op == 'from_bytes':
            arg = e.ref(src)
        elif op in ('end_from_bytes', 'raw_from'):
            arg = e.ref_slice(src)
        else:
            arg = e.ref(e.ref_slice(src))
        r = e.call(fid, [arg])
        if op in ('from_repr_vartime', 'raw_from', 'raw_read'):
            node, pay = enum_parts(c, r, 0 if op == 'raw_read' else 1)
        else:
            node, pay = opt_parts(c, r)
        dec_value(c, node, pay, op.startswith('raw'), op)
        return c
    if op in ('raw_from_un', 'raw_read_un'):
        xs = bytes_in(c, n)
        r = e.call(fid, [e.ref_slice(xs) if op == 'raw_from_un' else e.ref(e.ref_slice(xs))])
        dec = c.decider({0: c.p - 1})
        c.elem_is(words(r), lambda d, f: (c.gvar(dec, 0), 1), lambda x, q: x[0], op, dec=dec, when=lambda x: x[0] < c.p)
        return c
    raise Unsupported(op)


def check_len(P, item, fid):
    """raw decoders on inputs of the wrong length: refused, never a panic"""
    root, ln = item
    op = root.split('::')[-1]
    c = LCtx(P, 'halo2curves::' + ftype_of(P, root))
    e = c.eng
    xs = c.limbs('x', (1 << (8 * ln)) - 1, n=ln, bits=8) if ln else ()
    if not ln:
        c.groups = []
    s = e.ref_slice(xs)
    try:
        r = e.call(fid, [s if op == 'raw_from' else e.ref(s)])
    except Diverge:
        c.no_panic(c.decider())
        raise Bad(f'{op} on {ln} bytes does not return')
    c.no_panic(c.decider())
    node, pay = enum_parts(c, r, 0 if op == 'raw_read' else 1)
    if node:
        raise Bad(f'{op} accepts {ln} bytes')
    return c


def check_int(P, root, fid):
    parts = root.split('::')
    op = parts[-1]
    if parts[-2] == 'u':
        m, ln = op.rsplit('_', 1)
        short = ftype_of(P, f'x::{m}::x')
    else:
        short = ftype_of(P, root)
        ln = 0
    c = LCtx(P, 'halo2curves::' + short)
    e, p, R = c.eng, c.p, c.R
    dec = None
    if parts[-2] == 'u':
        if int(ln) % 8:
            raise Unsupported('input is not a whole number of words')
        xs = ()
        for j in range(int(ln) // 8):
            xs += c.dom.to_bytes(e, c.limbs(f'x{j}_', W64, n=1)[0], 8)
        dec = c.decider()
        c.cuts(dec)
        r = e.call(fid, [e.ref(xs)])
    elif op == 'from_raw':
        r = e.call(fid, [c.limbs('x', R - 1)])
    elif op in ('from_u64', 'from_u128'):
        b = 64 if op == 'from_u64' else 128
        dec = c.decider()
        c.tables(dec)
        x = c.limbs('x', (1 << b) - 1, n=1, bits=b)[0]
        dec.add_group(*c.groups[0])
        r = e.call(fid, [x])
    elif op == 'from_bool':
        ch = e.atom('x')
        v = e.bdd.nodes[ch.n][0]
        r = e.call(fid, [ch])
        dec = c.decider()
        def spec(d, facts):
            return c.dom.bpoly(ch.n).scale(R), 1
        c.no_panic(dec)
        err = None
        def spec2(facts):
            for x, val in facts.items():
                a = c.dom.atoms[x]
                if a.kind == 'bdd' and a.d == v:
                    return const(R * val), 1
            return c.dom.bpoly(ch.n).scale(R), 1
        try:
            pr = dec.value(words(r), spec2, p)
            if not pr:
                return c
            err = pr[0][0]
        except Unsupported as ex:
            err = str(ex)
        for b in (0, 1):
            x = c.number(dec, words(r), {('bdd', v): b, -1: 0}, 64)
            if x != b * R % p:
                raise Bad(f'from(bool {b}) has raw value {hex(x)}')
        raise Unsupported(err)
    elif op == 'char_bits':
        r = flat(e.call(fid, []), c.n)
        if any(type(x) is not int for x in r):
            raise Unsupported('not a constant')
        if sum(x << (64 * i) for i, x in enumerate(r)) != p:
            raise Bad('char_le_bits is not the modulus')
        return c
    dec = dec or c.decider()
    X = LP({})
    for j in range(len(c.groups)):
        X = X.add(c.gvar(dec, j).scale(R << (64 * j)))
    c.elem_is(words(r), lambda d, f: (X, 1), lambda x, q: sum(v << (64 * j) for j, v in enumerate(x)) * R % p, op, dec=dec)
    return c


# ---- order and parity ------------------------------------------------------------------------------
def digits(c, fid, a):
    return flat(c.eng.call(fid, [c.eng.ref(a)]), 8 * c.n)


def check_order(P, root, fid):
    parts = root.split('::')
    op = parts[-1]
    c = LCtx(P, 'halo2curves::' + ftype_of(P, root))
    e, p, R, d = c.eng, c.p, c.R, c.dom
    Ri = pow(R, -1, p)
    D = e.bdd
    rep = P.roots[root.rsplit('::', 1)[0] + '::to_repr']
    a = c.elem('a')
    da = digits(c, rep, a)
    if op in ('is_odd', 'is_even', 'lex'):
        r = e.call(fid, [e.ref(a)])
        n = e.bnode(r[0] if isinstance(r, tuple) else r)
        dec = c.decider()
        if op == 'lex':
            def exp(dec):
                V = dec.closed(da, 8)
                return D.Not(dec.neg_node(V.add(const(-(p + 1) // 2))))
            c.node_is(n, exp, lambda x: x[0] * Ri % p > (p - 1) // 2, 'lexicographically_largest', dec=dec)
        else:
            def exp(dec):
                lo, hi = d.rng(da[0])
                b = e.bnode(d.low(d.P(da[0]), lo, hi, 1))
                return dec.node_canon(b if op == 'is_odd' else D.Not(b))
            c.node_is(n, exp, lambda x: (x[0] * Ri % p) & 1 == (op == 'is_odd'), op, dec=dec)
        return c
    b = c.elem('b')
    db = digits(c, rep, b)
    r = e.call(fid, [e.ref(a), e.ref(b)])
    dec = c.decider()
    def single(n):
        """(BDD variable, positive?) of a literal"""
        if n < 2:
            return None
        v, lo, hi = D.nodes[n]
        return (v, True) if (lo, hi) == (0, 1) else (v, False) if (lo, hi) == (1, 0) else None

    def chain(w):
        """lexicographic 'less' over digits of w bytes, most significant first, and the trichotomy of each digit pair
        as a replacement for the variables"""
        lt, gt, eq, rep = 0, 0, 1, {}
        k = w // 8
        xs, ys = [[sum_word(c, s[i:i + k]) for i in range(0, len(s), k)] for s in (da, db)]
        for x, y in zip(reversed(xs), reversed(ys)):
            l = e.bnode(d.binop(e, 'Lt', x, y, None, None))
            g = e.bnode(d.binop(e, 'Gt', x, y, None, None))
            q = e.bnode(d.binop(e, 'Eq', x, y, None, None))
            gl = D.And(g, D.Not(l))
            for n, r in ((g, gl), (q, D.And(D.Not(l), D.Not(g)))):
                sl = single(n)
                if sl is None:
                    raise Unsupported('digit comparison is not a literal')
                rep[sl[0]] = r if sl[1] else D.Not(r)
            lt = D.Or(lt, D.And(eq, l))
            gt = D.Or(gt, D.And(eq, gl))
            eq = D.And(eq, D.And(D.Not(l), D.Not(g)))
        return lt, gt, rep

    def replace(n, rep):
        memo = {0: 0, 1: 1}
        def go(n):
            if n not in memo:
                v, lo, hi = D.nodes[n]
                memo[n] = D.ite(rep.get(v, D._mk(v, 0, 1)), go(hi), go(lo))
            return memo[n]
        return go(n)
    if op == 'cmp':
        got = [enum_node(c, r, i) for i in (0, 2)]
    else:
        got = [e.bnode(r)]
    py = [lambda x: x[0] * Ri % p < x[1] * Ri % p, lambda x: x[0] * Ri % p > x[1] * Ri % p]
    for w in (8, 64):
        lt, gt, rep = chain(w)
        if all(replace(g, rep) == replace(h, rep) for g, h in zip(got, (lt, gt))):
            return c
    # borrow chain over the closed values
    Va, Vb = None, None
    try:
        Va, Vb = dec.closed(da, 8), dec.closed(db, 8)
        if all(dec.node_canon(g) == dec.neg_node(q) for g, q in zip(got, (Va.add(Vb, -1), Vb.add(Va, -1)))):
            return c
    except Unsupported:
        pass
    for g, f in zip(got, py):
        c.refute(dec, lambda env, pt: None if bool(dec.eval_node(g, env)) == f(pt) else f'wrong for {[hex(v) for v in pt]}', op)
    raise Unsupported('comparison form not recognised')


def sum_word(c, bs):
    d = c.dom
    if len(bs) == 1:
        return bs[0]
    p = LP({})
    for i, x in enumerate(bs):
        p = p.add(d.P(x).scale(1 << (8 * i)))
    return d.mk(p, 0, (1 << (8 * len(bs))) - 1)


def enum_node(c, v, i):
    n = 0
    for g, x in (v.alts if isinstance(v, G) else [(1, v)]):
        if not isinstance(x, En):
            raise Unsupported('not an enum value')
        if x.v == i:
            n = c.eng.bdd.Or(n, g)
    return n


def dumps(feats=('prime',)):
    yield 'generic', dump('prime_generic', ['prime'])
    yield 'asm', dump('prime_asm', ['prime', 'asm'])
