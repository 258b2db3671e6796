"""C04 tower arithmetic; C05 (frobenius) is decided by the same engine in c05.py"""
from lib import *
from field import *
from summ import install
import params as pm

GROUPS = ['tower']


class TowerDom(Dom):
    def binop(self, eng, op, a, b, t, t2):
        if isinstance(a, Opq) and a.op == 'usize_mod' and type(b) is int:
            m, r = a.args
            if op == 'Rem' and b and m % b == 0:
                return r % b
            if op == 'BitAnd' and (b + 1) & b == 0 and m % (b + 1) == 0:
                return r & b
        return super().binop(eng, op, a, b, t, t2)


class Ctx:
    """engine + field specs for one analysis"""
    def __init__(self, P, opaque_q=False, dom=None):
        self.P = P
        for t in P.types:
            t.fe = None
        self.dom = dom or TowerDom()
        self.eng = Engine(P, dom=self.dom)
        self.vars = Vars()
        self.specs = {}
        for n, (s, p, l) in pm.FIELDS.items():
            self.specs[n] = FSpec(n, s, p, l, self.vars)
        self.prime = dict(self.specs)
        if opaque_q:
            for k, (b, nr, xi) in pm.TOWERS.items():
                n = pm.Q % b
                self.specs[n] = QSpec(n, k + '_q2', self.specs[b], nr, self.vars)
        self.eng.type_fe = lambda t: self.specs.get(t.s)
        self.ops = Ops(self.eng)
        self.used = field_summaries(self.eng, self.specs, self.ops)
        if opaque_q:
            self.tower_summaries()
        install(self.eng)

    def tower_summaries(self):
        e = self.eng
        tab = {}
        for k, (b, nr, xi) in pm.TOWERS.items():
            n = pm.Q % b
            sp = self.specs[n]
            def mulnr(e, fn, a, sp=sp, xi=xi):
                return e.lift(lambda x: FE(x.f, x.p.scale(xi)), e.load(a[0]))
            def frob(e, fn, a, sp=sp):
                k = e.binop('Rem', a[1], 2, e.usize, e.usize)
                if k not in (0, 1):
                    raise Unsupported('frobenius power')
                if k:
                    e.store(a[0], e.lift(lambda x: FE(x.f, x.f.conj(x.p)), e.load(a[0])))
                return ()
            def conj(e, fn, a, sp=sp):
                e.store(a[0], e.lift(lambda x: FE(x.f, x.f.conj(x.p)), e.load(a[0])))
                return ()
            tab[n] = {'mul_by_nonresidue': mulnr, 'frobenius_map': frob, 'conjugate': conj}
        def find(fn):
            for n, d in tab.items():
                m = fn.name.split('::')[-1]
                if m in d and (fn.name.endswith(f'ExtField for {n}>::{m}') or fn.name.endswith(f'<{n} as halo2curves::ff_ext::ExtField>::{m}')
                               or fn.name == n[:n.index('<')] + '::' + n[n.index('<'):] + '::' + m):
                    return d[m]
            return None
        cache = {}
        def pred(fn):
            if fn.id not in cache:
                cache[fn.id] = find(fn)
            return cache[fn.id] is not None
        e.prefix_summaries.append((pred, lambda e, fn, a: cache[fn.id](e, fn, a)))

    def sym(self, t, name, unit=False):
        fe = self.eng.fe_of(t)
        P = self.P
        if fe:
            return fe.var(name, unit)
        if t.k == 'struct':
            if t.s == 'subtle::Choice':
                return (self.eng.atom(name),)
            return tuple(self.sym(P.types[x], f'{name}.{n}') for n, x in t.d['variants'][0][2])
        if t.k == 'array':
            return tuple(self.sym(P.types[t.d['elem']], f'{name}[{i}]') for i in range(t.d['len']))
        if t.k == 'ref':
            return self.eng.ref(self.sym(P.types[t.d['to']], name))
        if t.k == 'bool':
            return self.eng.atom(name)
        if t.k == 'tuple':
            return tuple(self.sym(P.types[x], f'{name}.{i}') for i, x in enumerate(t.d['elems']))
        raise Unsupported('symbolic value of type ' + t.s)


def leaves(v):
    if isinstance(v, tuple):
        out = []
        for x in v:
            out += leaves(x)
        return out
    return [v]


# ---- model: polynomial algebra coefficients[w^i], w^n = xi ------------------------------------
class Alg:
    def __init__(self, spec, n, xi, perm):
        self.s, self.n, self.xi, self.perm = spec, n, xi, perm
    def of(self, v):
        ls = leaves(v)
        assert len(ls) == self.n, (len(ls), self.n)
        out = [None] * self.n
        for x, i in zip(ls, self.perm):
            out[i] = x.p
        return out
    def zero(self): return [Poly(self.s.ring, {})] * self.n
    def const(self, c):
        z = self.zero()
        z[0] = Poly.const(self.s.ring, c)
        return z
    def add(self, a, b): return [x + y for x, y in zip(a, b)]
    def sub(self, a, b): return [x - y for x, y in zip(a, b)]
    def neg(self, a): return [-x for x in a]
    def mul(self, a, b):
        n = self.n
        out = [Poly(self.s.ring, {}) for _ in range(2 * n)]
        for i, x in enumerate(a):
            if not x.t:
                continue
            for j, y in enumerate(b):
                if y.t:
                    out[i + j] = out[i + j] + x * y
        return [out[i] + out[i + n].scale(self.xi) for i in range(n)]
    def scale(self, a, c): return [x.scale(c) for x in a]


PERM = {1: [0], 2: [0, 1], 3: [0, 1, 2], 6: [0, 2, 4, 1, 3, 5]}


def reduce_inv(p, info, vars):
    """multiply out inverse variables: returns numerator polynomial and the denominators used"""
    den = []
    for v in sorted(p.vars()):
        mon = info.get(v, {}).get('inv') if isinstance(info, dict) else None
        if mon is None:
            continue
        d = max(dict(m).get(v, 0) for m in p.t)
        out = Poly(p.ring, {})
        for m, c in p.t.items():
            k = dict(m).get(v, 0)
            m2 = tuple((w, e) for w, e in m if w != v)
            out = out + Poly(p.ring, {m2: c}) * mon.pow(d - k)
        p = out
        den.append((mon, d))
    return p, den


def eq_with_inv(a, b, vars):
    """a == b given inv(q)*q = 1"""
    d, _ = reduce_inv(a - b, vars.info, vars)
    return d.is_zero()


def gated_leaves(eng, v, fn):
    """apply fn(guard, value) for every feasible alternative of v"""
    if isinstance(v, G):
        for g, x in v.alts:
            if eng.feasible(g):
                fn(g, x)
    else:
        fn(1, v)


class Bad(Exception):
    pass


def same(ctx, got, exp, what='result'):
    """got (nested value of FE leaves, possibly gated) equals exp (list of polys)"""
    ls = leaves(got)
    if len(ls) != len(exp):
        raise Bad(f'{what}: shape mismatch')
    for i, (g, e) in enumerate(zip(ls, exp)):
        def one(gd, x, i=i, e=e):
            if not isinstance(x, FE):
                raise Bad(f'{what}[{i}]: not a field element: {x!r}'[:300])
            if not eq_with_inv(x.p, e, ctx.vars):
                raise Bad(f'{what}[{i}]: computed {x.f.show(x.p)[:300]} but must be {x.f.show(e)[:300]}'
                          + ('' if gd == 1 else ' when ' + ctx.eng.bdd.show(gd)[:200]))
        gated_leaves(ctx.eng, g, one)


def same_bool(ctx, got, exp, what='result'):
    e = ctx.eng
    while isinstance(got, tuple):
        got = got[0]
    n = e.bnode(got)
    d = e.bdd.And(e.pc, e.bdd.Xor(n, exp))
    if d:
        raise Bad(f'{what}: computed "{e.bdd.show(n)[:300]}" but must be "{e.bdd.show(exp)[:300]}"')


def no_panic(ctx, what='call'):
    for ev in ctx.eng.events:
        if ev[0] == 'panic' and ctx.eng.bdd.And(ev[1], 1):
            raise Bad(f'{what}: can panic: {ev[2]} at {site_str(ctx.P, ev)}')


def tower_kind(mod):
    """module name -> (tower, level)"""
    m = mod.split('_')
    tw = m[0]
    lvl = {'fq2': 2, 'fp2': 2, 'fq6': 6, 'fp6': 6, 'fq12': 12, 'fp12': 12, 'fq': 1, 'fp': 1}[m[1]]
    return tw, lvl, (m[2] if len(m) > 2 else '')


def fwd_pairs(name):
    return name


def check_root(P, root, fid, powers=None):
    """returns list of (obligation id, rule, status, detail)"""
    parts = root.split('::')
    mod, op = parts[-2], parts[-1]
    tw, lvl, kind = tower_kind(mod)
    base_t, nr, xi = pm.TOWERS[tw]
    ctx = Ctx(P, opaque_q=lvl > 2)
    eng = ctx.eng
    bspec = ctx.specs[base_t] if lvl <= 2 else ctx.specs[pm.Q % base_t]
    n = {1: 1, 2: 2, 6: 3, 12: 6}[lvl]
    if lvl == 2:
        alg = Alg(bspec, 2, nr, PERM[2])
    elif lvl == 1:
        alg = Alg(bspec, 1, 0, PERM[1])
    else:
        alg = Alg(bspec, n, xi, PERM[n])
    fn = P.fns[fid]
    args, cells = [], []
    for k in range(fn.argc):
        t = P.types[fn.locals[1 + k]]
        args.append(ctx.sym(t, 'abcde'[k]))
    orig = [eng.load(a) if isinstance(a, Ptr) else a for a in args]
    ret = eng.call(fid, args)
    no_panic(ctx, op)
    A = lambda i: alg.of(orig[i])
    final0 = eng.load(args[0]) if args and isinstance(args[0], Ptr) else None
    FEm = lambda ls: [ls[i] for i in alg.perm]       # back to storage order
    expect = lambda v, e: same(ctx, v, FEm(e))
    z = lambda i: eng.bdd  # placeholder
    def iszero(a):
        r = 1
        for x in a:
            r = eng.bdd.And(r, ctx.ops.zero_node(FE(bspec, x)))
        return r

    o = op
    if kind == 'q' or kind == 'c':
        o = {'i_add': 'add', 'i_sub': 'sub', 'i_neg': 'neg', 'i_mul': 'mul', 'i_square': 'square', 'i_double': 'double',
             'i_mul_assign': 'mul_as_r'}.get(op, op)
    stem = o
    for sfx in ('_vv', '_vr', '_rv', '_as', '_as_r', '_v'):
        if o.endswith(sfx) and o[:-len(sfx)] in ('add', 'sub', 'mul', 'neg'):
            stem = o[:-len(sfx)]
    tgt = final0 if '_as' in o else ret
    if stem in ('add', 'sub', 'mul') and kind in ('', 'q', 'c'):
        expect(tgt, getattr(alg, stem)(A(0), A(1)))
    elif stem == 'neg':
        expect(tgt, alg.neg(A(0)))
    elif o == 'double':
        expect(ret, alg.scale(A(0), 2))
    elif o == 'square':
        expect(ret, alg.mul(A(0), A(0)))
    elif o == 'i_square_assign':
        expect(final0, alg.mul(A(0), A(0)))
    elif o == 'cube':
        expect(ret, alg.mul(A(0), alg.mul(A(0), A(0))))
    elif o == 'invert':
        val, some = ret
        a = A(0)
        # the flag: inverse exists iff the norm (hence the element) is non-zero
        norm = norm_poly(alg, a, lvl)
        nz = ctx.ops.zero_node(FE(bspec, norm))
        same_bool(ctx, some, eng.bdd.Not(nz), 'is_some')
        eng.assume(eng.bnode(choice(some)))
        got = [None] * n
        def one(gd, x): return x
        ls = leaves(val)
        if any(isinstance(x, G) for x in ls):
            ls = [x if not isinstance(x, G) else pick(eng, x) for x in ls]
        prod = alg.mul(a, alg.of(tuple(ls)))
        for i, pl in enumerate(prod):
            tgtp = Poly.const(bspec.ring, 1 if i == 0 else 0)
            if not eq_with_inv(pl, tgtp, ctx.vars):
                raise Bad(f'a * a.invert() has w^{i} coefficient {bspec.show(pl)[:200]}')
    elif o in ('is_zero', 'is_zero_vartime'):
        same_bool(ctx, ret, iszero(A(0)))
    elif o in ('ct_eq', 'eq'):
        same_bool(ctx, ret, iszero(alg.sub(A(0), A(1))))
    elif o == 'ne':
        same_bool(ctx, ret, eng.bdd.Not(iszero(alg.sub(A(0), A(1)))))
    elif o == 'sel':
        c = choice(orig[2])
        for val, src in ((1, 1), (0, 0)):
            n1 = eng.bnode(c) if val else eng.bdd.Not(eng.bnode(c))
            sv = eng.pc
            eng.pc = eng.bdd.And(sv, n1)
            same(ctx, tuple(pick(eng, x) for x in leaves(ret)), FEm(A(src)), f'select(choice={val})')
            eng.pc = sv
    elif o in ('zero', 'default'):
        expect(ret, alg.zero())
    elif o == 'one':
        expect(ret, alg.const(1))
    elif o in ('sum_r', 'sum_v', 'prod_r', 'prod_v'):
        arr = orig[0]
        acc = alg.zero() if o[0] == 's' else alg.const(1)
        for x in arr:
            acc = (alg.add if o[0] == 's' else alg.mul)(acc, alg.of(x))
        expect(ret, acc)
    elif o == 'conjugate':
        a = A(0)
        expect(final0, [x if i % 2 == 0 else -x for i, x in enumerate(a)])
    elif o == 'norm':
        a = A(0)
        cj = [x if i % 2 == 0 else -x for i, x in enumerate(a)]
        full = alg.mul(a, cj)
        if any(full[i].t for i in range(1, n, 2)):
            raise Unsupported('norm model')
        same(ctx, ret, [full[i] for i in range(0, n, 2)])
    elif o == 'new':
        expect(ret, alg.of(tuple(orig)))
    elif o in ('c0', 'c1', 'c2'):
        same(ctx, ret, [x.p for x in leaves(orig[0][int(o[1])])])
    elif o == 'mul_nr':
        a = A(0)
        if lvl == 1:
            expect(ret, alg.scale(a, nr))
        elif lvl == 2:
            k = alg.zero()
            k[0], k[1] = Poly.const(bspec.ring, xi[0]), Poly.const(bspec.ring, xi[1])
            expect(ret, alg.mul(a, k))
        elif lvl == 6:
            k = alg.zero()
            k[1] = Poly.const(bspec.ring, 1)
            expect(ret, alg.mul(a, k))
        else:
            return None
    elif o in ('by_1', 'by_01'):
        k = alg.zero()
        if o == 'by_1':
            k[1] = orig[1].p
        else:
            k[0], k[1] = orig[1].p, orig[2].p
        expect(ret, alg.mul(A(0), k))
    elif o in ('by_014', 'by_034'):
        k = alg.zero()
        # coefficients of (1, v, v^2, w, v w, v^2 w) are w^0 w^2 w^4 w^1 w^3 w^5
        pos = {0: 0, 1: 2, 2: 4, 3: 1, 4: 3, 5: 5}
        for ch, arg in zip(o[3:], orig[1:]):
            k[pos[int(ch)]] = arg.p
        expect(final0, alg.mul(A(0), k))
    elif o == 'cyc':
        a = A(0)
        expect(final0, granger_scott(alg, a))
    elif o == 'frob':
        return None
    else:
        raise Unsupported(f'no specification for {root}')
    return ctx


def choice(v):
    while isinstance(v, tuple):
        v = v[0]
    return v


def pick(eng, x):
    if not isinstance(x, G):
        return x
    vals = [v for g, v in x.alts if eng.feasible(g)]
    v0 = vals[0]
    for v in vals[1:]:
        if v != v0:
            raise Unsupported('value still gated')
    return v0


def granger_scott(alg, a):
    """squaring in the cyclotomic subgroup (Granger-Scott 2010, 3.2) over Fp4 = Fp2[t]/(t^2 - xi), w^3 = t"""
    xi = alg.xi
    def sq4(x, y):      # (x + y t)^2
        return x * x + (y * y).scale(xi), (x * y).scale(2)
    # A = a0 + a3 w^3 ; B = a1 + a4 w^3 ; C = a2 + a5 w^3
    A, B_, C = (a[0], a[3]), (a[1], a[4]), (a[2], a[5])
    A2, B2, C2 = sq4(*A), sq4(*B_), sq4(*C)
    sc = lambda p, k: p.scale(k)
    rA = (sc(A2[0], 3) - sc(A[0], 2), sc(A2[1], 3) + sc(A[1], 2))
    # t * C^2
    tC = (C2[1].scale(xi), C2[0])
    rB = (sc(tC[0], 3) + sc(B_[0], 2), sc(tC[1], 3) - sc(B_[1], 2))
    rC = (sc(B2[0], 3) - sc(C[0], 2), sc(B2[1], 3) + sc(C[1], 2))
    return [rA[0], rB[0], rC[0], rA[1], rB[1], rC[1]]


def norm_poly(alg, a, lvl):
    """norm to the coefficient field"""
    if lvl == 2:
        return a[0] * a[0] - (a[1] * a[1]).scale(alg.xi)
    if lvl == 6:
        x = alg.xi
        return a[0].pow(3) + a[1].pow(3).scale(x) + a[2].pow(3).scale(alg.s.ring.mul(alg.s.ring.norm(x), alg.s.ring.norm(x))) \
            - (a[0] * a[1] * a[2]).scale(alg.s.ring.mul(alg.s.ring.norm(3), alg.s.ring.norm(x)))
    cj = [x if i % 2 == 0 else -x for i, x in enumerate(a)]
    full = alg.mul(a, cj)
    c = [full[0], full[2], full[4]]
    sub = Alg(alg.s, 3, alg.xi, PERM[3])
    return norm_poly(sub, c, 6)


def item_name(it):
    if isinstance(it, str):
        return it.replace('probe::', '')
    return ':'.join([str(it[0]).replace('probe::', '')] + [x if isinstance(x, str) else ','.join(map(str, x)) if isinstance(x, tuple) else str(x) for x in it[1:]])


class Slow(Unsupported):
    pass


def timed(f, secs):
    """run f, giving up after the given time (worker processes run in their main thread)"""
    import signal, threading
    if threading.current_thread() is not threading.main_thread():
        return f()
    if secs <= 0:
        raise Slow('no time left')
    def ring(*a):
        raise Slow('time limit')
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, secs, 5)     # repeats, should a handler on the way swallow it
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_items(P, chk, items, fn, rule):
    import time
    # the quick tier has to answer within its time: what is not decided by then is reported as undecided
    end = chk.t0 + (550 if chk.tier == 'quick' else 6 * 3600)
    def work(item):
        it, fid = item
        where = entry_of(P, fid) if fid is not None else 'curve constants'
        nm = item_name(it)
        try:
            ctx = timed(lambda: fn(P, it, fid), min(end - time.time(), 400 if chk.tier == 'quick' else 3600))
            if ctx is None:
                return None
            return (nm, 'proved', '', where, [P.fns[i].name for i in ctx.eng.visited if P.fns[i].crate == 'halo2curves'], ctx.eng.steps, getattr(ctx, 'extra', None))
        except Bad as e:
            return (nm, 'violated', str(e), where, [], 0)
        except Diverge as e:
            return (nm, 'violated', 'never returns: ' + str(e), where, [], 0)
        except (Unsupported, TooLarge) as e:
            tr = getattr(e, 'trace', None)
            return (nm, 'undecided', f'{e} at {tr[-1] if tr else "?"}', where, [], 0)
        except Exception as e:
            import traceback
            return (nm, 'undecided', f'analyser: {e!r} ' + traceback.format_exc()[-700:], where, [], 0)
    known = chk.load_known()
    new = lambda r: r is not None and r[1] == 'violated' and not any(o == r[0] and sg in r[2] for o, sg, _ in known)
    lost = lambda item: (item_name(item[0]), 'undecided', 'out of memory', entry_of(P, item[1]) if item[1] is not None else '', [], 0)
    seen = 0
    extras = []
    for r in pmap(work, items, lost, new, 60, end + 60):
        seen += 1
        if r is None:
            continue
        nm, st, det, where, fns, steps = r[:6]
        if len(r) > 6 and r[6] is not None:
            extras.append(r[6])
        chk.add(Obl(nm, rule, st, det, where))
        chk.fns.update(fns)
        chk.steps += steps
    if seen < len(items):
        print(f'{len(items) - seen} obligations not looked at')
    return extras


run_roots = run_items


def main():
    chk = Check('C04', 'abstract interpretation of MIR in the polynomial value-numbering domain',
                'each tower operation, abstractly interpreted on indeterminate coefficients, equals the operation of the ring '
                'Fp[u]/(u^2-nr), [v]/(v^3-xi), [w]/(w^2-v) as a polynomial identity, for every gated alternative, and has no feasible panic',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'core/alloc/subtle behave as documented',
                         'prime-field operations implement F_p (property C01)', 'Granger-Scott cyclotomic squaring theorem'])
    P = dump('tower', GROUPS)
    roots = [(r, i) for r, i in P.roots.items() if not r.endswith('::frob')]
    run_roots(P, chk, roots, check_root, 'equals the ring operation')
    chk.finish()
