"""C01 prime-field arithmetic: limb code computes the field operation and its result is canonical"""
import itertools
from lctx import *
from c07 import run_items
import c04

FWD = ('_vv', '_vr', '_rv', '_as', '_as_r', '_v')


def stem_of(op):
    for s in FWD:
        if op.endswith(s) and op[:-len(s)] in ('add', 'sub', 'mul', 'neg'):
            return op[:-len(s)]
    return op


def ftype_of(P, root):
    m = root.split('::')[-2]
    return {'bn_fq': 'bn256::Fq', 'bn_fr': 'bn256::Fr', 'bls_fq': 'bls12381::Fq', 'bls_fr': 'bls12381::Fr', 'pl_fp': 'pluto_eris::Fp',
            'pl_fq': 'pluto_eris::Fq', 'k1_fp': 'secp256k1::Fp', 'k1_fq': 'secp256k1::Fq', 'r1_fp': 'secp256r1::Fp',
            'r1_fq': 'secp256r1::Fq'}[m]


def args_of(c, fid):
    P = c.P
    fn = P.fns[fid]
    out = []
    for i in range(fn.argc):
        t = P.types[fn.locals[1 + i]]
        nm = 'abcd'[i]
        if t.s == 'subtle::Choice':
            out.append((c.eng.atom('choice'),))
        elif t.k == 'ref':
            out.append(c.eng.ref(c.elem(nm)))
        else:
            out.append(c.elem(nm))
    return out


def words(v):
    """the limb tuple of an element value"""
    if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple):
        return v[0]
    raise Unsupported(f'not an element: {v!r}'[:120])


def check(P, root, fid):
    parts = root.split('::')
    op = parts[-1]
    inherent = parts[-3] == 'p'
    ft = 'halo2curves::' + ftype_of(P, root)
    if op in ('cube', 'sum_r', 'sum_v', 'prod_r', 'prod_v'):
        return derived(P, root, fid, op, ft)
    c = LCtx(P, ft)
    d, p, R = c.dom, c.p, c.R
    Ri = pow(R, -1, p)
    args = args_of(c, fid)
    ret = c.eng.call(fid, args)
    o = stem_of(op[1:] if inherent else op)
    if '_as' in op:
        ret = c.eng.load(args[0])
    dec = c.decider()
    g = [c.gvar(dec, i) for i in range(len(c.groups))]
    E = lambda spec, py: c.elem_is(words(ret), spec, py, op, dec=dec)
    if o == 'add':
        E(lambda dec, f: (g[0].add(g[1]), 1), lambda x, e: (x[0] + x[1]) % p)
    elif o == 'sub':
        E(lambda dec, f: (g[0].add(g[1], -1), 1), lambda x, e: (x[0] - x[1]) % p)
    elif o == 'mul':
        E(lambda dec, f: (d.pmul(g[0], g[1]), R), lambda x, e: x[0] * x[1] * Ri % p)
    elif o == 'neg':
        E(lambda dec, f: (g[0].scale(-1), 1), lambda x, e: -x[0] % p)
    elif o == 'double':
        E(lambda dec, f: (g[0].scale(2), 1), lambda x, e: 2 * x[0] % p)
    elif o == 'square':
        E(lambda dec, f: (d.pmul(g[0], g[0]), R), lambda x, e: x[0] * x[0] * Ri % p)
    elif o in ('zero', 'default', 'one'):
        v = words(ret)
        if not all(type(x) is int for x in v):
            raise Unsupported('not a constant')
        v = sum(x << (64 * i) for i, x in enumerate(v))
        if v != (R % p if o == 'one' else 0):
            raise Bad(f'{o}() is {hex(v)}')
    elif o in ('is_zero', 'is_zero_vartime', 'ct_eq', 'eq', 'ne'):
        two = o in ('ct_eq', 'eq', 'ne')
        n = c.eng.bnode(ret[0] if isinstance(ret, tuple) else ret)
        if o == 'ne':
            n = c.eng.bdd.Not(n)
        D = c.eng.bdd
        def exp(dec):
            r = 1
            for i in range(c.n):
                x = LP({(c.groups[0][0][i],): 1})
                h = (c.groups[0][2] >> (64 * i)) & W64
                if i < c.n - 1:
                    h = W64
                else:
                    h = c.groups[0][2] >> (64 * i)
                if two:
                    x = x.add(LP({(c.groups[1][0][i],): 1}), -1)
                r = D.And(r, d.eq0(c.eng, d.mk(x, -h if two else 0, h)))
            return dec.node_canon(r)
        c.node_is(n, exp, (lambda x: x[0] == x[1]) if two else (lambda x: x[0] == 0), op, dec=dec)
    elif o == 'sel':
        ch = args[2][0]
        v = D_var(c, ch)
        def spec(dec, facts):
            for x, val in facts.items():
                a = d.atoms[x]
                if a.kind == 'bdd' and a.d == v:
                    return g[1] if val else g[0], 1
            return (d.pmul(d.bpoly(ch.n), g[1]).add(d.pmul(const(1).add(d.bpoly(ch.n), -1), g[0])), 1)
        n0 = [None]
        err = None
        try:
            pr = dec.value(words(ret), lambda f: spec(dec, f), p)
            err = f'{pr[0][0]}' if pr else None
            if not pr:
                return c
        except Unsupported as e:
            err = str(e)
        def f(env, pt):
            x = c.number(dec, words(ret), env, 64)
            y = pt[1] if env[('bdd', v)] else pt[0]
            if x != y:
                return f'inputs {[hex(q) for q in pt]}, choice {env[("bdd", v)]}: {hex(x)}'
        c.refute(dec, f, 'conditional_select', flags=({('bdd', v): 0}, {('bdd', v): 1}))
        raise Unsupported(err)
    else:
        return None
    return c


def D_var(c, b):
    return c.eng.bdd.nodes[b.n][0]


def derived(P, root, fid, op, ft):
    """operations built from the inherent ones: interpreted with add/sub/neg/double/mul/square as field operations"""
    ctx = DCtx(P)
    eng = ctx.eng
    fn = P.fns[fid]
    a = ctx.sym(P.types[fn.locals[1]], 'a')
    ls = c04.leaves(eng.load(a) if isinstance(a, Ptr) else a)
    ret = eng.call(fid, [a])
    c04.no_panic(ctx, op)
    q = [x.p for x in ls]
    if op == 'cube':
        exp = q[0] * q[0] * q[0]
    elif op.startswith('sum'):
        exp = q[0] + q[1] + q[2]
    else:
        exp = q[0] * q[1] * q[2]
    c04.same(ctx, ret, [exp])
    return ctx


INH = [('inh', m) for m in ('add', 'sub', 'mul', 'neg', 'double', 'square', 'mul_const')]


class DCtx(c04.Ctx):
    """field elements are indeterminates; only the inherent arithmetic is summarised"""
    def __init__(self, P):
        super().__init__(P)
        keep = set(INH)
        self.eng.prefix_summaries.clear()
        skip = [k for k in ALLKEYS if k not in keep]
        self.used = field_summaries(self.eng, self.specs, self.ops, skip=skip)
        summ.install(self.eng)


ALLKEYS = [(a, b) for a in ('op', 'inh', 'field', 'default', 'cteq', 'peq', 'sel', 'from') for b in (
    'add', 'sub', 'mul', 'add_assign', 'sub_assign', 'mul_assign', 'neg', 'double', 'square', 'cube', 'square_assign', 'mul_const', 'zero',
    'one', 'default', 'is_zero', 'is_zero_vartime', 'invert', 'ct_eq', 'ct_ne', 'eq', 'ne', 'conditional_select', 'conditional_assign', 'from')]

OPS = {'add', 'sub', 'mul', 'neg', 'double', 'square', 'cube', 'is_zero', 'is_zero_vartime', 'ct_eq', 'eq', 'ne', 'sel', 'zero', 'one',
       'default', 'sum_r', 'sum_v', 'prod_r', 'prod_v'}
IOPS = {'iadd', 'isub', 'ineg', 'imul', 'idouble', 'isquare', 'izero', 'ione'}


def prime_items(P, tag, want):
    items = []
    for r, i in P.roots.items():
        parts = r.split('::')
        if parts[1] != 'prime':
            continue
        if want(parts):
            items.append(((r, tag), i))
    return items


def main():
    chk = Check('C01', 'abstract interpretation of MIR (and of the inline assembly) in an exact limb-polynomial domain',
                'for indeterminate canonical operands the recombined result limbs lie in [0, p) and are congruent to the field operation, '
                'in every case of the undetermined comparisons; all carry/borrow chains are closed symbolically',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'semantics of the x86-64 instructions used'])
    from field import field_summaries as fs
    for tag, feats in (('generic', ['prime']), ('asm', ['prime', 'asm'])):
        P = dump('prime_' + tag, feats)
        want = lambda p: p[2] == 'p' and p[4] in IOPS or p[2] != 'p' and (p[3] in OPS or stem_of(p[3]) in OPS)
        items = prime_items(P, tag, want)
        run_items(P, chk, items, lambda P, it, fid: check(P, it[0], fid), 'value congruent and canonical')
    chk.finish()


from field import field_summaries
