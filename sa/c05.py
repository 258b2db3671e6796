"""C05 Frobenius maps and their constants"""
from lib import *
from field import *
from c04 import *


class TowElem:
    """constant arithmetic in Fp2[w]/(w^n - xi)"""
    def __init__(self, ring, n, xi):
        self.r, self.n, self.xi = ring, n, ring.norm(xi)
    def mul(self, a, b):
        r, n = self.r, self.n
        out = [r.zero] * (2 * n)
        for i, x in enumerate(a):
            if r.is_zero(x):
                continue
            for j, y in enumerate(b):
                if not r.is_zero(y):
                    out[i + j] = r.add(out[i + j], r.mul(x, y))
        return [r.add(out[i], r.mul(out[i + n], self.xi)) for i in range(n)]
    def pow(self, a, e):
        res = [self.r.one] + [self.r.zero] * (self.n - 1)
        for b in bin(e)[2:]:
            res = self.mul(res, res)
            if b == '1':
                res = self.mul(res, a)
        return res


def frob_root(P, item_root, fid):
    root, k = item_root
    parts = root.split('::')
    tw, lvl, _ = tower_kind(parts[-2])
    base_t, nr, xi = pm.TOWERS[tw]
    ctx = Ctx(P, opaque_q=lvl > 2)
    eng = ctx.eng
    p = ctx.specs[base_t].p
    bspec = ctx.specs[base_t] if lvl <= 2 else ctx.specs[pm.Q % base_t]
    fn = P.fns[fid]
    a = ctx.sym(P.types[fn.locals[1]], 'a')
    orig = leaves(eng.load(a))
    eng.call(fid, [a, Opq('usize_mod', 12, k)])
    no_panic(ctx, 'frobenius_map')
    got = eng.load(a)
    if lvl == 1:
        same(ctx, got, [orig[0].p])
        return ctx
    if lvl == 2:
        # u^p = u * nr^((p-1)/2)
        s = pow(nr % p, (p - 1) // 2, p)
        same(ctx, got, [orig[0].p, orig[1].p.scale(pow(s, k, p))])
        return ctx
    n = 3 if lvl == 6 else 6
    r = bspec.ring
    # w^(i p^k): exponent arithmetic  w^(p) = w * xi^((p-1)/n); iterate k times with coefficient conjugation
    g = r.pow(r.norm(xi), (p - 1) // n)
    assert (p - 1) % n == 0
    conj = (lambda c: (c[0], -c[1] % p))
    coef = [r.one] * n
    for _ in range(k):
        coef = [r.mul(conj(coef[i]), r.pow(g, i)) for i in range(n)]
    perm = PERM[n]
    exp = []
    for x, i in zip(orig, perm):
        q = bspec.conj(x.p) if k % 2 else x.p
        exp.append(q.scale(coef[i]))
    same(ctx, got, exp, f'frobenius_map(power = {k} mod 12)')
    return ctx


def main():
    chk = Check('C05', 'abstract interpretation of MIR in the polynomial value-numbering domain',
                'frobenius_map(a, k), interpreted for indeterminate a and every residue class of k mod 12 (any use of k other than its '
                'residue is rejected), maps each basis coefficient exactly as x -> x^(p^k) does; every table constant enters through its use',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'prime-field operations implement F_p (C01)', 'tower arithmetic (C04)'])
    P = dump('tower', GROUPS)
    items = []
    for r, i in P.roots.items():
        if r.endswith('::frob'):
            for k in range(12):
                items.append(((r, k), i))
    def work(P, it, fid):
        return frob_root(P, it, fid)
    run_roots2(P, chk, items, frob_root, 'x -> x^(p^k)')
    chk.finish()


def run_roots2(P, chk, items, fn, rule):
    import c04
    named = {}
    def f(P, root, fid):
        return fn(P, named[root], fid)
    lst = []
    for (r, k), i in items:
        named[f'{r}[{k}]'] = (r, k)
        lst.append((f'{r}[{k}]', i))
    run_roots(P, chk, lst, f, rule)
