"""C19 fast Fourier transform"""
import par
from group import *
from c07 import run_items

MODS = {'bn_fr': ('F', 'halo2curves::bn256::Fr'), 'pl_fq': ('F', 'halo2curves::pluto_eris::Fq'), 'bn_g1': ('G', 'bn_g1'), 'pl_g1': ('G', 'pl_g1')}
THREADS = (1, 2, 8, 64)


def root(P, item, fid):
    mod, op, th = item
    kind, what = MODS[mod]
    if kind == 'F':
        c = Ctx(P)
        f = c.specs[what]
        g = f
        mk = lambda i: f.var(f'a{i}')
    else:
        c = GCtx(P, [what], scalars=True)
        g = c.of[(what, 'P')]
        f = g.scalar
        mk = lambda i: g.pt(f'a{i}')
    e = c.eng
    par.install(e, th)
    fn = P.fns[fid]
    n = P.types[P.types[fn.locals[1]].d['to']].d['len']
    w = f.var('w', True)
    a = [mk(i) for i in range(n)]
    ptr = e.ref(tuple(a))
    if op.startswith('bad'):
        try:
            e.call(fid, [ptr, w])
        except Diverge:
            return c
        raise Bad('a length that is not 2^log_n is accepted')
    e.call(fid, [ptr, w])
    no_panic(c, op)
    got = e.load(ptr)
    wv = max(w.p.vars())
    h = n // 2
    # w is a primitive n-th root of unity: w^(n/2) = -1
    def red(p):
        out = {}
        r = p.ring
        for m, co in p.t.items():
            d = dict(m)
            k = d.pop(wv, 0) % n if n > 1 else (d.pop(wv, 0), 0)[1]
            if n > 1 and k >= h:
                k -= h
                co = r.neg(co)
            if k:
                d[wv] = k
            m = tuple(sorted(d.items()))
            x = r.add(out.get(m, 0), co)
            out[m] = x
        return {m: x for m, x in out.items() if x}
    for i in range(n):
        exp = {}
        for j in range(n):
            v = max(a[j].p.vars())
            k = i * j % n
            co = 1
            if n > 1 and k >= h:
                k, co = k - h, g.ring.neg(1)
            exp[tuple(sorted([(v, 1)] + ([(wv, k)] if k else [])))] = co
        x = got[i]
        if not isinstance(x, FE):
            raise Unsupported(f'output {x!r}'[:100])
        d = red(x.p)
        if d != exp:
            bad = next(m for m in list(exp) + list(d) if d.get(m) != exp.get(m))
            nm = ' * '.join(f'{c.vars.show(v)}^{k}' for v, k in bad)
            raise Bad(f'output {i} of {n}: the coefficient of {nm} is {d.get(bad, 0)} but must be {exp.get(bad, 0)}')
    return c


def main():
    chk = Check('C19', '', level='other', rule='every output is the evaluation sum, as polynomials in the inputs and the root of unity modulo w^(n/2) + 1',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'field and point operations (C01, C07)', 'rayon::join runs both closures'])
    P = dump('C19', ['fft', 'curve'])
    its = []
    deep = chk.tier == 'thorough'
    for r, i in sorted(P.roots.items()):
        if '::fft::' not in r:
            continue
        mod, op = r.split('::')[-2:]
        n = int(re.sub('[^0-9]', '', op))
        if n > (4096 if deep else 1024):
            continue
        for th in THREADS:
            its.append(((r, (th,)), i))
    if len(its) < 80:
        print('probe roots missing')
        sys.exit(2)
    its.sort(key=lambda x: -int(re.sub('[^0-9]', '', x[0][0].split('::')[-1])))
    def fn(P, item, fid):
        mod, op = item[0].split('::')[-2:]
        try:
            return root(P, (mod, op, item[1][0]), fid)
        except Runaway as x:
            # sizes are concrete and the transform branches on nothing else
            raise Bad(f'the recursion for {op[1:]} values with {item[1][0]} threads does not end')
    run_items(P, chk, its, fn, 'evaluation at the powers of the root of unity')
    chk.finish()
