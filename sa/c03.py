"""C03 field inversion.  invert() of every field is the compiled Bernstein-Yang inverter with compile-time constants.  Its two
loops are checked one iteration at a time from an arbitrary state satisfying a stated invariant (exact integers as
polynomials, machine words as residues, undetermined questions split); the wrapping big-integer operations it is made of are
analysed on their own on indeterminate limbs; the packing between 62-bit and 64-bit limbs is a plain flow of bits.  That 62 (or
any number of) exact division steps reach g = 0 is the published theorem of Bernstein and Yang."""
import random, re, time
from lib import *
from zdom import *
from engine import Engine, En, Ptr, UNDEF
from limb import LimbDom, L, LP
from limb import const as lconst
from bv import BVDom, BV, bits_of, mkbv
from c01 import prime_items, ftype_of
from c04 import Bad, run_items, site_str
import params as pm, summ

B62 = 1 << 62
DB = 1 << 40                    # bound assumed for |delta|
CINT = r'halo2curves::ff_ext::inverse::CInt<62, (\d+)>'
PRIMS = [('add', rf'<&{CINT} as std::ops::Add>::add'), ('sub', rf'<&{CINT} as std::ops::Sub>::sub'),
         ('neg', rf'<&{CINT} as std::ops::Neg>::neg'), ('mul', rf'<&{CINT} as std::ops::Mul<i64>>::mul'),
         ('shift', r'halo2curves::ff_ext::inverse::CInt::<62, (\d+)>::shift'),
         ('lowest', r'halo2curves::ff_ext::inverse::CInt::<62, (\d+)>::lowest'),
         ('negative', r'halo2curves::ff_ext::inverse::CInt::<62, (\d+)>::is_negative'),
         ('eq', rf'<{CINT} as std::cmp::PartialEq>::eq'), ('clone', rf'<{CINT} as std::clone::Clone>::clone')]
CONV = r'halo2curves::ff_ext::inverse::BYInverter::<(\d+)>::convert::<(\d+), (\d+), (\d+)>'
JUMP = r'halo2curves::ff_ext::inverse::BYInverter::<(\d+)>::jump'


class CI:
    """CInt<62, L> (and, for arr, the limb array inside it) as one exact signed integer"""
    def __init__(self, n, arr=None):
        self.n, self.short, self.name = n, f'CInt{n}' + ('' if arr else '[]'), f'CInt{n}'
        self.arr = arr

    def show(self, p): return repr(p)

    def decode(self, eng, hx):
        ws = [int.from_bytes(bytes.fromhex(hx[16 * i:16 * i + 16]), 'little') for i in range(self.n)]
        return FE(self, con(signed(ws)))

    def project(self, eng, v, e):
        if self.arr is not None and e == 0:
            return FE(self.arr, v.p)
        raise Unsupported(f'limb of a multi-word integer')

    def store(self, *a):
        raise Unsupported('limb of a multi-word integer stored')

    def build(self, eng, vals):
        v = vals[0]
        if isinstance(v, FE) and v.f is self.arr:
            return FE(self, v.p)
        if isinstance(v, tuple) and all(type(x) is int for x in v):
            return FE(self, con(signed(v)))
        raise Unsupported('multi-word integer from separate limbs')


def signed(ws):
    v = sum(w << (62 * i) for i, w in enumerate(ws))
    return v - (1 << (62 * len(ws))) if v >> (62 * len(ws) - 1) else v


class Stop(Exception):
    pass


def loop_heads(fn):
    """targets of back edges"""
    succ = []
    for st, t, sp in fn.raw:
        k = t[0]
        succ.append([t[1]] if k == 'goto' else [x[1] for x in t[2]] + [t[3]] if k == 'switch' else
                    [t[2]] if k == 'drop' else [t[4]] if k in ('call', 'assert', 'asm') and t[4] is not None else [])
    color, heads = {}, set()
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s) == 1:
                heads.add(s)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            color[b] = 2
            stack.pop()
    return heads


class IV:
    """an engine whose multi-word integers are exact"""
    def __init__(self, P):
        self.P = P
        for t in P.types:
            t.fe = None
        self.e = e = Engine(P)
        self.cis = {}
        def tf(t):
            m = re.fullmatch(CINT, t.s)
            return self.ci(int(m.group(1))) if m else None
        e.type_fe = tf
        summ.install(e)
        self.called = set()
        for f in P.fns:
            for nm, rx in PRIMS:
                m = re.fullmatch(rx, f.name)
                if m:
                    e.summaries[f.name] = self.prim(nm, int(m.group(1)))
            m = re.fullmatch(CONV, f.name)
            if m:
                e.summaries[f.name] = self.conv(*map(int, m.groups()))
        self.jump = None
        for f in P.fns:
            if re.fullmatch(JUMP, f.name):
                e.summaries[f.name] = self.do_jump
        self.concrete = False

    def ci(self, n):
        if n not in self.cis:
            self.cis[n] = CI(n, CI(n))
        return self.cis[n]

    def reset(self, paths):
        e = self.e
        e.mem, e.pc, e.events, e.stack = {}, 1, [], []
        e.alloc_cells, e.const_cache, e.loopcount = {}, {}, {}
        e.heads = None
        self.d = e.dom = ZDom(paths)
        return self.d

    def val(self, v):
        if not isinstance(v, FE):
            raise Unsupported('multi-word integer expected')
        return v.p

    def width(self, p, n, what):
        lo, hi = self.d.iv(self.d.fix(p))
        h = 1 << (62 * n - 1)
        if lo < -h or hi >= h:
            raise Bad(f'{what}: a value up to {max(-lo, hi).bit_length()} bits does not fit the {62 * n}-bit integers')

    def prim(self, nm, n):
        def f(e, fn, a):
            self.called.add(fn.id)
            d = self.d
            ld = lambda i: d.fix(self.val(e.load(a[i])))
            c = self.ci(n)
            if nm == 'add':
                return FE(c, ld(0) + ld(1))
            if nm == 'sub':
                return FE(c, ld(0) - ld(1))
            if nm == 'neg':
                return FE(c, -ld(0))
            if nm == 'clone':
                return FE(c, ld(0))
            if nm == 'mul':
                k = a[1]
                if type(k) is not int and not isinstance(k, Z):
                    raise Unsupported('multiplier is only known as a residue')
                if d.iv(d.poly(k))[0] == -(1 << 63):
                    raise Bad(f'{e.site()}: the multiplier may be -2^63')
                return FE(c, ld(0) * d.poly(k))
            p = ld(0)
            if nm == 'lowest':
                q = d.low(d.mk(p), 62)
                return q
            if nm == 'eq':
                q = ld(1)
                self.width(p, n, e.site())
                self.width(q, n, e.site())
                return d.eq0(p - q)
            self.width(p, n, e.site())
            if nm == 'negative':
                return d.lt0(p)
            # shift
            if p.is_const():
                return FE(c, con(p.cv() >> 62))
            if all(x % B62 == 0 for x in p.t.values()):
                return FE(c, Pol({m: x >> 62 for m, x in p.t.items()}))
            if not d.divisible(p, 62):
                raise Bad(f'{e.site()}: bits that are not zero are shifted out of {p!r}')
            lo, hi = d.iv(p)
            return FE(c, d.atom('q', -(-lo // B62), hi // B62, div=(62, p)).p)
        return f

    def conv(self, n, i, o, s):
        def f(e, fn, a):
            self.called.add(fn.id)
            q = a[0]
            if not isinstance(q, Ptr) or type(q.meta) is not int or not q.path or type(q.path[-1]) is not int:
                raise Unsupported('slice of limbs')
            v = e.get(e.mem[q.cell], q.path[:-1])
            if isinstance(v, tuple):
                v = e.load_slice(q)
            if isinstance(v, FE):
                if i != 62 or q.meta != v.f.n:
                    raise Unsupported('limb size')
                p = self.d.fix(v.p)
            elif all(type(x) is int for x in v):
                p = con(sum(x << (i * j) for j, x in enumerate(v)))
            else:
                if i != 64 or not all(isinstance(x, Opq) and x.op == 'limb' and x.args == (v[0].args[0], j, len(v)) for j, x in enumerate(v)):
                    raise Unsupported('limbs of different integers')
                p = self.d.fix(v[0].args[0])
            lo, hi = self.d.iv(p)
            if lo < 0 or hi >> min(i * q.meta, o * s):
                raise Bad(f'{e.site()}: a value in {lo}..{hi} is repacked into {s} words of {o} bits')
            if o == 62:
                if hi >> (62 * s - 1):
                    raise Bad(f'{e.site()}: the value does not fit the signed {62 * s}-bit integers')
                return FE(self.ci(s).arr, p)
            if p.is_const():
                return tuple(p.cv() >> (64 * j) & (1 << 64) - 1 for j in range(s))
            return tuple(Opq('limb', p, j, s) for j in range(s))
        return f

    def do_jump(self, e, fn, a):
        if self.jump is None:
            return NotImplemented
        self.called.add(fn.id)
        return self.jump(fn, a)


def live(fn, bb):
    n = len(fn.locals)
    dead = fn.dead[bb] if fn.dead is not None else ()
    return [l for l in range(1, n) if l not in dead]


def roles(e, fn, base, bb, match):
    """{role: [locals]} for the live locals whose value is recognised"""
    out = {}
    for l in live(fn, bb):
        v = e.mem.get(base + l, UNDEF)
        r = match(v, e.P.types[fn.locals[l]])
        if r:
            out.setdefault(r, []).append(l)
    return out


def others_same(e, fn, base, bb, rs, before):
    used = {l for ls in rs.values() for l in ls}
    for l in live(fn, bb):
        if l in used:
            continue
        v0, v1 = before.get(l, UNDEF), e.mem.get(base + l, UNDEF)
        if v0 is UNDEF or v1 is UNDEF or v0 == v1:
            continue
        raise Unsupported(f'the loop changes a variable of no recognised role ({fn.names.get(l, l)})')


def take(e, base, ls):
    vs = [e.mem.get(base + l, UNDEF) for l in ls]
    if any(v != vs[0] for v in vs):
        raise Unsupported('copies of a loop variable differ')
    return vs[0]


# ---- the transition matrix -----------------------------------------------------------------------

def jump_head(fn):
    hs = loop_heads(fn)
    if len(hs) != 1:
        raise Unsupported(f'{len(hs)} loops')
    return next(iter(hs))


def jump_match(f0, g0, d0):
    def match(v, t):
        if v == 62 and t.s in ('i64', 'u64', 'usize', 'u32', 'i32', 'isize', 'i128'):
            return 'steps'
        if isinstance(v, Z):
            return 'f' if v.p == f0 else 'g' if v.p == g0 else 'delta' if v.p == d0 else None
        if v == ((1, 0), (0, 1)):
            return 't'
    return match


def run_jump(iv, fid, paths, setter, second):
    """interprets jump(f, g, delta) up to its loop, replaces the state by setter(roles), hands the next arrival to second"""
    P = iv.P
    d = iv.reset(paths)
    e = iv.e
    fn = P.fns[fid]
    n = int(re.fullmatch(JUMP, fn.name).group(1))
    F, Gv, D = d.atom('F', -(1 << (62 * n - 2)), 1 << (62 * n - 2)), d.atom('G', -(1 << (62 * n - 2)), 1 << (62 * n - 2)), d.atom('D', -DB, DB)
    c = iv.ci(n)
    pf, pg = e.ref(FE(c, F.p)), e.ref(FE(c, Gv.p))
    f0, g0 = d.low(F, 62).p, d.low(Gv, 62).p
    bb = jump_head(fn)
    st = {}
    def head(e_, fn_, base, b):
        if not st:
            rs = roles(e, fn, base, bb, jump_match(f0, g0, D.p))
            if set(rs) != {'steps', 'f', 'g', 'delta', 't'}:
                raise Unsupported('loop variables of the transition matrix not recognised: ' + ', '.join(sorted(rs)))
            for r, v in setter(d).items():
                for l in rs[r]:
                    e.mem[base + l] = v
            st['rs'] = rs
            st['before'] = {l: e.mem.get(base + l, UNDEF) for l in live(fn, bb)}
            return
        if second is None:
            return
        others_same(e, fn, base, bb, st['rs'], st['before'])
        raise_stop({r: take(e, base, ls) for r, ls in st['rs'].items()})
    def raise_stop(s):
        x = Stop()
        x.state = s
        raise x
    e.heads = {(fid, bb): head}
    depth = len(e.stack)
    try:
        r = e.interp(fn, [pf, pg, D])
    except Stop as x:
        del e.stack[depth:]
        return d, ('again', x.state)
    return d, ('return', r)


def check_jump(P, fid, steps):
    iv = IV(P)
    n = 0
    for z in range(steps + 1):
        cur = {}
        def setter(d):
            B = B62
            f = d.atom('f', -B, B, odd=True)
            g1 = d.atom('g', -B, B, odd=z < steps)
            dl = d.atom('dl', -DB, DB)
            s = 62 - steps
            t = [[d.atom(f't{i}{j}', -(1 << (s + i * z)), 1 << (s + i * z)) for j in range(2)] for i in range(2)]
            for i in range(2):
                d.groups.append((f't{i}0', f't{i}1', 1 << (s + i * z)))
            cur.update(f=f, g1=g1, dl=dl, t=t)
            return {'steps': steps, 'f': f, 'g': d.mk(g1.p.scale(1 << z)), 'delta': dl, 't': tuple(map(tuple, t))}
        def run(paths):
            nonlocal n
            try:
                d, (how, r) = run_jump(iv, fid, paths, setter, True)
            except Diverge as x:
                raise Unsupported('a path ends in ' + str(x))
            n += 1
            if iv.e.events:
                raise Unsupported('a panic cannot be excluded: ' + str(iv.e.events[0][2]))
            one_jump(d, how, r, steps, z, cur)
        try:
            explore(run)
        except (Bad, Unsupported) as x:
            refute_jump(P, iv, fid, steps, z, x)
            raise
    return iv, n


def one_jump(d, how, r, steps, z, c):
    where = f'with {steps} steps left and {z} trailing zeros in g' + (': ' + ', '.join(d.log) if d.log else '')
    P = lambda v: d.fix(d.poly(v)) if type(v) is int or isinstance(v, Z) else _uns('a loop variable is only known as a residue')
    f, g, dl, t = c['f'].p, c['g1'].p, c['dl'].p, [[x.p for x in row] for row in c['t']]
    eq = lambda a, b: not d.fix(a - b).t
    t0z = [x.scale(1 << z) for x in t[0]]
    if how == 'return':
        if z != steps:
            raise Bad(f'the loop ends early {where}')
        de, m = r
        exp = [t0z, t[1]]
        if not eq(P(de), dl + con(z)):
            raise Bad(f'delta after the last step is wrong {where}')
        if not all(eq(P(m[i][j]), exp[i][j]) for i in range(2) for j in range(2)):
            raise Bad(f'the transition matrix returned is wrong {where}')
        return
    if z == steps:
        raise Bad(f'the loop goes on after the last step {where}')
    if r['steps'] != steps - z:
        raise Bad(f"{r['steps']} steps are left {where}")
    f2, g2, d2 = P(r['f']), P(r['g']), P(r['delta'])
    m = [[P(x) for x in row] for row in r['t']]
    d1 = dl + con(z)
    if eq(f2, f) and not eq(f, g):
        base_g, base_t, row0, dd = g, t[1], t0z, d1
        if d.iv(d.fix(d1))[1] > 0:
            raise Bad(f'f and g are not exchanged although delta may be positive {where}')
    elif eq(f2, g):
        base_g, base_t, row0, dd = -f, [-x for x in t0z], t[1], -d1
        if d.iv(d.fix(d1))[0] < 1:
            raise Bad(f'f and g are exchanged although delta may not be positive {where}')
    else:
        raise Bad(f'f is neither kept nor replaced by g {where}')
    if not eq(d2, dd):
        raise Bad(f'delta is {d2!r} instead of {dd!r} {where}')
    if not all(eq(a, b) for a, b in zip(m[0], row0)):
        raise Bad(f'the first row of the matrix does not follow f {where}')
    # g2 = base_g + w f2
    q = d.fix(g2 - base_g)
    fa = next(iter(f2.atoms()))
    if not all(x.count(fa) == 1 for x in q.t):
        raise Bad(f'g changes by something else than a multiple of f {where}')
    w = Pol({tuple(y for y in x if y != fa): k for x, k in q.t.items()})
    if f2 != var(fa):
        raise Unsupported('unexpected form of f')
    if not all(eq(m[1][j] - base_t[j], w * m[0][j]) for j in range(2)):
        raise Bad(f'the second row of the matrix does not follow g {where}')
    lo, hi = d.iv(w)
    if lo < 0:
        raise Bad(f'the multiple of f added to g may be negative {where}')
    k = max(1, hi.bit_length())
    if k > steps - z:
        raise Bad(f'{k} bits of g are cleared with {steps - z} steps left {where}')
    if d.iv(d.fix(con(1) - d2))[0] < k:
        raise Bad(f'{k} bits of g are cleared although delta may become positive before {where}')
    v = d.divisible(g2, k)
    if v is None:
        raise Unsupported('low bits of g not decided')
    if not v:
        raise Bad(f'g + w f is not divisible by 2^{k} (residues {d.witness}) {where}')
    # the bounds the next iteration relies on
    s = 62 - (steps - z)
    if d.l1(m[0]) > 1 << s or d.l1(m[1]) > 1 << (s + k) or max(map(abs, d.iv(g2))) > B62 << k:
        raise Bad(f'the entries outgrow their bounds {where}')


def _uns(m):
    raise Unsupported(m)


def divsteps(n, dl, f, g, t):
    a, b = map(list, t)
    for _ in range(n):
        if g & 1 and dl > 0:
            dl, f, g, a, b = 1 - dl, g, (g - f) >> 1, [2 * x for x in b], [x - y for x, y in zip(b, a)]
        else:
            o = g & 1
            b = [x + o * y for x, y in zip(b, a)]
            dl, g, a = dl + 1, (g + o * f) >> 1, [2 * x for x in a]
    return dl, (tuple(a), tuple(b))


def refute_jump(P, iv, fid, steps, z, why):
    """follow the code from concrete loop states of this shape (or, if its loop has another form, from its start) and compare
    with the division steps; a difference is a violation with that state, otherwise the failed argument stands as it is"""
    rnd = random.Random(steps * 100 + z)
    t0 = time.time()
    looped = 'not recognised' not in str(why) and 'loops' not in str(why) and 'no recognised role' not in str(why)
    for i in range(400):
        if time.time() - t0 > 20:
            break
        f = rnd.choice((1, -1)) * (rnd.getrandbits(rnd.choice((3, 6, 20, 61))) | 1)
        g = rnd.choice((1, -1)) * rnd.getrandbits(rnd.choice((3, 6, 20, 61)))
        dl = rnd.randint(-9, 9)
        try:
            if looped:
                g = (g | 1) << z if z < steps else g << z
                t = []
                for j in range(2):
                    m = min(99, 1 << (62 - steps + j * z))
                    x = rnd.randint(-m, m)
                    t.append((x, rnd.choice((1, -1)) * rnd.randint(0, m - abs(x))))
                t = tuple(t)
                d, (how, r) = run_jump(iv, fid, None, lambda d: {'steps': steps, 'f': f, 'g': g, 'delta': dl - z, 't': t}, None)
                exp = divsteps(steps, dl - z, f, g, t)
                st = f'steps={steps} delta={dl - z} f={f} g={g} t={t}'
            else:
                f, g = f % B62, g % B62
                d = iv.reset(None)
                c = iv.ci(int(re.fullmatch(JUMP, P.fns[fid].name).group(1)))
                r = iv.e.interp(P.fns[fid], [iv.e.ref(FE(c, con(f))), iv.e.ref(FE(c, con(g))), dl])
                exp = divsteps(62, dl, f, g, ((1, 0), (0, 1)))
                st = f'delta={dl} f={f} g={g}'
        except Diverge as x:
            raise Bad(f'jump from {st if i else "a state"}: {x}')
        if r != exp:
            raise Bad(f'jump differs from the division steps from the state {st}: {r} instead of {exp}; {why}')
    raise Unsupported(f'{why} (no differing state found)')


# ---- the outer loop ------------------------------------------------------------------------------

def elem(iv, p, n, x):
    return iv.e.ref((tuple(Opq('limb', x.p, j, n) for j in range(n)) if not isinstance(x, int) else tuple(x >> (64 * j) & (1 << 64) - 1 for j in range(n)),))


def ct_some(v):
    if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and type(v[1][0]) is int):
        raise Unsupported('unexpected form of the result')
    return v[0][0] if isinstance(v[0], tuple) and len(v[0]) == 1 and isinstance(v[0][0], tuple) else v[0], v[1][0]


def check_invert(P, root, fid):
    short, p, n = pm.FIELDS['halo2curves::' + ftype_of(P, root)]
    iv = IV(P)
    R2 = pow(2, 128 * n, p)
    inv_fn = [f for f in P.fns if re.fullmatch(r'halo2curves::ff_ext::inverse::BYInverter::<\d+>::invert::<\d+>', f.name)]
    ids = {f.id: f for f in inv_fn}
    cases = [0, 0]
    def run(paths):
        d = iv.reset(paths)
        e = iv.e
        x = d.atom('x', 1, p - 1)
        st = {}
        def jump(fn, a):
            f, g, dl = iv.val(e.load(a[0])), iv.val(e.load(a[1])), a[2]
            k = len(st.setdefault('jumps', []))
            t = [[d.atom(f'm{i}{j}', -B62, B62) for j in range(2)] for i in range(2)]
            for i in range(2):
                d.groups.append((t[i][0].p.atoms().copy().pop(), t[i][1].p.atoms().copy().pop(), B62))
                d.facts.append((t[i][0].p * f + t[i][1].p * g, 62))
            nd = d.atom('nd', -DB, DB)
            st['jumps'].append((f, g, dl, t, nd))
            return (nd, tuple(map(tuple, t)))
        iv.jump = jump
        def match(v, t):
            if isinstance(v, FE):
                return {con(0): 'd', con(R2): 'e', con(p): 'f', x.p: 'g'}.get(v.p)
            if v == 1 and t.s in ('i64', 'i128', 'i32', 'isize'):
                return 'delta'
        def head(e_, fn, base, bb):
            if 'rs' not in st:
                rs = roles(e, fn, base, bb, match)
                if set(rs) != {'d', 'e', 'f', 'g', 'delta'}:
                    raise Unsupported('loop variables of invert not recognised: ' + ', '.join(sorted(rs)))
                c = iv.ci(next(e.mem[base + l] for l in rs['d']).f.n)
                v = st['v'] = {'d': d.atom('d', -2 * p + 1, p - 1), 'e': d.atom('e', -2 * p + 1, p - 1), 'f': d.atom('f', -p, p, odd=True),
                               'g': d.atom('g', -p, p), 'delta': d.atom('dl', -DB + 64, DB - 64)}
                for r, ls in rs.items():
                    for l in ls:
                        e.mem[base + l] = v[r] if r == 'delta' else FE(c, v[r].p)
                st['rs'] = rs
                st['before'] = {l: e.mem.get(base + l, UNDEF) for l in live(fn, bb)}
                return
            others_same(e, fn, base, bb, st['rs'], st['before'])
            y = Stop()
            y.state = {r: take(e, base, ls) for r, ls in st['rs'].items()}
            raise y
        e.heads = {}
        for f in inv_fn:
            hs = loop_heads(f)
            if len(hs) != 1:
                raise Unsupported(f'{len(hs)} loops in invert')
            e.heads[(f.id, next(iter(hs)))] = head
        try:
            r = e.call(fid, [elem(iv, p, n, x)])
        except Stop as y:
            cases[0] += 1
            outer(d, y.state, st, p, R2)
            return
        except Diverge as y:
            raise Bad(f'can panic: {y} ({", ".join(d.log)})')
        if e.events:
            raise Bad(f'can panic: {e.events[0][2]}')
        if 'v' not in st:
            raise Unsupported('the inverter is not used')
        cases[1] += 1
        if st.get('jumps'):
            raise Unsupported('the loop is left in the middle')
        v = {k: d.fix(w.p) for k, w in st['v'].items()}
        if v['g'] != con(0):
            raise Bad('the loop is left although g may not be zero')
        val, ok = ct_some(r)
        where = f' ({", ".join(d.log)})'
        if v['f'].is_const():
            s = v['f'].cv()
            if s not in (1, -1):
                raise Unsupported('unexpected comparison of f')
            if not ok:
                raise Bad(f'no inverse although f = {s} at the end{where}')
            if isinstance(val, tuple) and len(val) == n and all(type(w) is int for w in val):
                q = con(sum(w << (64 * j) for j, w in enumerate(val)))
            elif isinstance(val, tuple) and len(val) == n and all(isinstance(w, Opq) and w.op == 'limb' and w.args == (val[0].args[0], j, n) for j, w in enumerate(val)):
                q = d.fix(val[0].args[0])
            else:
                raise Bad(f'the result is not the normalised number{where}')
            lo, hi = d.iv(q)
            if lo < 0 or hi >= p:
                raise Bad(f'the result {q!r} may lie in {lo}..{hi}, outside [0, p){where}')
            if d.fix(q - v['d'].scale(s)).mod(p).t:
                raise Bad(f'the result is {q!r}, not congruent to {"-" if s < 0 else ""}d{where}')
        else:
            # neither 1 nor -1: excluded, the modulus is prime and x is not a multiple of it
            fa = var('f')
            if not all(k in d.nonzero or -k in d.nonzero for k in (fa - con(1), fa + con(1))):
                raise Bad(f'a decision is made without looking at f{where}')
    explore(run)
    # zero has no inverse
    d = iv.reset(None)
    iv.jump = None
    iv.e.heads = None
    val, ok = ct_some(iv.e.call(fid, [elem(iv, p, n, 0)]))
    if ok or any(w != 0 for w in val):
        raise Bad('the inverse of zero is not refused')
    if not cases[0] or not cases[1]:
        raise Unsupported('no path through the loop')
    return iv


def outer(d, s, st, p, R2):
    where = f' ({", ".join(d.log)})'
    v = st['v']
    if len(st.get('jumps', [])) != 1:
        raise Unsupported('number of transition matrices per iteration')
    f, g, dl, t, nd = st['jumps'][0]
    if (f, g, dl) != (v['f'].p, v['g'].p, v['delta']):
        raise Bad('the transition matrix is not computed from f, g and delta' + where)
    if s['delta'] != nd:
        raise Bad('delta is not updated' + where)
    if d.iv(v['g'].p) == (0, 0):
        raise Bad('another iteration although g = 0')
    n2 = {k: d.fix(s[k].p) for k in 'defg'}
    # unfold the divided sums
    def clear(q):
        out = con(0)
        for m, c in q.t.items():
            ds = [a for a in m if d.at[a].div]
            if len(ds) > 1:
                raise Unsupported('product of quotients')
            if not ds:
                out = out + Pol({m: c * B62})
            else:
                k, P = d.at[ds[0]].div
                out = out + Pol({tuple(a for a in m if a != ds[0]): c}) * P
        return d.fix(out)
    for r, row in (('f', 0), ('g', 1)):
        exp = t[row][0].p * v['f'].p + t[row][1].p * v['g'].p
        if d.fix(clear(n2[r]) - d.fix(exp)).t:
            raise Bad(f'{r} is not row {row} of the matrix applied to (f, g){where}')
        lo, hi = d.iv(n2[r])
        if lo < -p or hi > p:
            raise Bad(f'{r} may leave [-p, p]{where}')
    xs = var('x')
    D, E = d.fix(v['d'].p), d.fix(v['e'].p)
    for r, k in (('d', 'f'), ('e', 'g')):
        lo, hi = d.iv(n2[r])
        if lo <= -2 * p or hi >= p:
            raise Bad(f'{r} may lie in {lo}..{hi}, outside (-2p, p){where}')
        # d x = R2 f and e x = R2 g (mod p) carry over
        q = clear(n2[r])
        lin = con(0)
        for m, c in q.t.items():
            if m.count('d') + m.count('e') == 0:
                lin = lin + Pol({m: c}) * xs
            elif m.count('d') + m.count('e') == 1:
                a = 'd' if 'd' in m else 'e'
                lin = lin + Pol({tuple(y for y in m if y != a): c * R2}) * (v['f'].p if a == 'd' else v['g'].p)
            else:
                raise Unsupported('degree')
        if d.fix(lin - clear(n2[k]).scale(R2)).mod(p).t:
            raise Bad(f'{r} x = R^2 {k} (mod p) is not kept{where}')


def concrete_inverse(P, root, fid, secs):
    """looks for an element whose inverse comes out wrong (used when an argument could not be completed)"""
    short, p, n = pm.FIELDS['halo2curves::' + ftype_of(P, root)]
    for t in P.types:
        t.fe = None
    e = Engine(P)
    summ.install(e)
    R = 1 << (64 * n)
    rnd = random.Random(3)
    pts = [1, 2, 3, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, R % p, R * R % p, 1 << 62, 1 << 63, (1 << 124) - 1] + [rnd.randrange(1, p) for _ in range(60)]
    t0 = time.time()
    for x in pts:
        if time.time() - t0 > secs:
            return
        e.mem, e.pc, e.events, e.stack = {}, 1, [], []
        e.alloc_cells, e.const_cache, e.loopcount = {}, {}, {}
        try:
            val, ok = ct_some(e.call(fid, [e.ref((tuple(x >> (64 * j) & (1 << 64) - 1 for j in range(n)),))]))
        except Diverge as y:
            raise Bad(f'invert of the element with limbs {hex(x)}: {y}')
        y = sum(w << (64 * j) for j, w in enumerate(val))
        if not ok or y != pow(x, -1, p) * R * R % p:
            raise Bad(f'invert of the element with limbs {hex(x)} gives {hex(y) if ok else "nothing"}')


# ---- the multi-word integers ---------------------------------------------------------------------

class LD(LimbDom):
    def word(self, p, lo, hi):
        return p

    def bits(self, t):
        if t is not None and t.k == 'int':
            return t.bits
        return super().bits(t)

    def unop(self, eng, op, a, t):
        if op == 'Neg':
            lo, hi = self.rng(a)
            if -hi < -(1 << (t.bits - 1)) or -lo >= 1 << (t.bits - 1):
                raise Unsupported('negation may overflow')
            return self.mk(self.P(a).scale(-1), -hi, -lo)
        return super().unop(eng, op, a, t)

    def int_cast(self, eng, v, ft, tt):
        lo, hi = self.rng(v)
        if lo < 0 or tt.signed and hi >> (tt.bits - 1):
            raise Unsupported('sign-changing cast')
        return super().int_cast(eng, v, ft, tt)


def check_bits(P, fid, nm, n):
    """operations that only move or compare bits, on indeterminate bits"""
    for t in P.types:
        t.fe = None
    d = BVDom()
    e = Engine(P, dom=d)
    d.eng = e
    summ.install(e)
    D = e.bdd
    xs = [[None] * (62 * n), [None] * (62 * n)]
    for i in range(62 * n):
        for k in range(2):
            xs[k][i] = D.atom((k, i))
    num = lambda k: tuple(mkbv(tuple(xs[k][62 * i:62 * i + 62]) + (0, 0)) for i in range(n))
    a, b = num(0), num(1)
    args = [e.ref((a,))] + ([e.ref((b,))] if nm == 'eq' else [])
    try:
        r = e.call(fid, args)
    except Diverge as x:
        raise Bad('panics: ' + str(x))
    if e.events:
        raise Bad(f'can panic: {e.events[0][2]} at {site_str(P, e.events[0])}')
    x = xs[0]
    def words(ws, want, what):
        if len(ws) != len(want):
            raise Bad(what)
        for w, q in zip(ws, want):
            bs = bits_of(w, 64) if not isinstance(w, G) else [0] * 64
            if isinstance(w, G):
                for g, y in w.alts:
                    z = bits_of(y, 64)
                    if z is None:
                        raise Unsupported('bits of a limb')
                    bs = [D.Or(p, D.And(g, q)) for p, q in zip(bs, z)]
            if bs is None:
                raise Unsupported('bits of a limb')
            if tuple(bs) != tuple(q) + (0,) * (64 - len(q)):
                raise Bad(what)
    if nm in ('shift', 'clone'):
        y = x[62:] + [x[-1]] * 62 if nm == 'shift' else x
        words(r[0], [y[62 * i:62 * i + 62] for i in range(n)], 'the limbs are not ' + ('those of the number shifted down' if nm == 'shift' else 'copied'))
    elif nm == 'lowest':
        words((r,), [x[:62]], 'not the lowest limb')
    elif nm == 'negative':
        if e.bnode(r) != x[-1]:
            raise Bad('not the sign bit')
    elif nm == 'eq':
        want = 1
        for p, q in zip(reversed(x), reversed(xs[1])):
            want = D.And(want, D.Not(D.Xor(p, q)))
        if e.bnode(r) != want:
            raise Bad('not equality of all bits')
    return e


def check_prim(P, fid, nm, n):
    if nm in ('shift', 'clone', 'lowest', 'negative', 'eq'):
        return check_bits(P, fid, nm, n)
    for t in P.types:
        t.fe = None
    fn = P.fns[fid]
    M62 = B62 - 1
    out = None
    rngs = [None]
    if nm == 'mul':
        rngs = [(-(1 << 63) + 1, -1), (0, (1 << 63) - 1)]
    for rg in rngs:
        d = LD()
        e = Engine(P, dom=d)
        d.eng = e
        summ.install(e)
        mk = lambda s: tuple(d.inp(f'{s}{i}', M62) for i in range(n))
        a, b = mk('a'), mk('b')
        num = lambda ws: sum_lp(d, ws)
        args = [e.ref((a,))]
        if nm in ('add', 'sub', 'eq'):
            args.append(e.ref((b,)))
        if nm == 'mul':
            k = d.atom('in', 'k', rg[0], rg[1], None, 'k')
            k = L(LP({(k.id,): 1}), rg[0], rg[1])
            args.append(k)
        try:
            r = e.call(fid, args)
        except Diverge as x:
            raise Bad('panics: ' + str(x))
        if e.events:
            raise Bad(f'can panic: {e.events[0][2]} at {site_str(P, e.events[0])}')
        A_, B_ = num(a), num(b)
        if nm in ('add', 'sub', 'neg', 'mul'):
            exp = {'add': lambda: A_.add(B_), 'sub': lambda: A_.add(B_, -1), 'neg': lambda: A_.scale(-1), 'mul': lambda: d.pmul(A_, k.p)}[nm]()
            ws = r[0]
            if len(ws) != n:
                raise Bad('number of limbs')
            for j, w in enumerate(ws):
                lo, hi = d.rng(w)
                if lo < 0 or hi > M62:
                    raise Bad(f'limb {j} of the result may lie in {lo}..{hi}')
            diff = num(ws).add(exp, -1)
            if any(not isinstance(c, int) or c % (1 << (62 * n)) for c in diff.t.values()):
                pt = refute_prim(P, fid, nm, n, rg)
                if pt:
                    raise Bad(pt)
                raise Unsupported('the limbs do not visibly recombine to the result')
        out = e
    return out


def sum_lp(d, ws):
    out = LP({})
    for i, w in enumerate(ws):
        out = out.add(d.P(w).scale(1 << (62 * i)))
    return out


def refute_prim(P, fid, nm, n, rg):
    e = Engine(P)
    summ.install(e)
    M62 = B62 - 1
    rnd = random.Random(n)
    edge = [0, 1, 2, M62, M62 - 1, 1 << 61, (1 << 61) - 1]
    for i in range(3000):
        ws = [tuple(rnd.choice(edge) if rnd.random() < .7 else rnd.getrandbits(62) for _ in range(n)) for _ in range(2)]
        e.mem, e.pc, e.events, e.stack, e.loopcount = {}, 1, [], [], {}
        args = [e.ref((ws[0],))]
        A_, B_ = (sum(w << (62 * i) for i, w in enumerate(x)) for x in ws)
        if nm in ('add', 'sub'):
            args.append(e.ref((ws[1],)))
        k = 0
        if nm == 'mul':
            k = rnd.choice([rg[0], rg[1], rg[0] + 1, rg[1] - 1] + [max(rg[0], min(rg[1], x)) for x in (1, 2, -1, -2, B62, -B62, rnd.randint(*rg))])
            args.append(k)
        try:
            r = e.call(fid, args)
        except Diverge as x:
            return f'panics: {x}'
        v = sum(w << (62 * i) for i, w in enumerate(r[0]))
        exp = {'add': A_ + B_, 'sub': A_ - B_, 'neg': -A_, 'mul': A_ * k}[nm]
        if v != exp % (1 << (62 * n)):
            return f'wrong result for limbs {ws[0]}' + (f' and {ws[1]}' if nm in ('add', 'sub') else f' times {k}' if nm == 'mul' else '')
    return None


def check_conv(P, fid, I, O, S, lens):
    """every bit of the input number ends up in its place"""
    for t in P.types:
        t.fe = None
    out = None
    for n in lens:
        d = BVDom()
        e = Engine(P, dom=d)
        d.eng = e
        summ.install(e)
        D = e.bdd
        bits = [D.atom(('x', i)) for i in range(I * n)]
        ws = tuple(mkbv(tuple(bits[I * i:I * i + I]) + (0,) * (64 - I)) for i in range(n))
        try:
            r = e.call(fid, [e.ref_slice(ws)])
        except Diverge as x:
            raise Bad('panics: ' + str(x))
        if e.events:
            raise Bad(f'can panic: {e.events[0][2]} at {site_str(P, e.events[0])}')
        for j, w in enumerate(r):
            b = bits_of(w, 64)
            for i in range(64):
                src = O * j + i
                want = bits[src] if i < O and src < I * n else 0
                if b is None or b[i] != want:
                    raise Bad(f'bit {i} of word {j} of the repacked number is wrong ({n} words of {I} bits in)')
        out = e
    return out


class Ctx:
    def __init__(self, e, extra=None):
        self.eng = e
        self.extra = extra


def dispatch(P, it, fid):
    k = it[1]
    if k == 'invert':
        try:
            iv = check_invert(P, it[0], fid)
        except (Unsupported, Overflow) as x:
            concrete_inverse(P, it[0], fid, 60)
            raise
        return Ctx(iv.e)
    if k == 'jump':
        iv, n = check_jump(P, fid, int(it[2]))
        return Ctx(iv.e, n)
    if k == 'conv':
        m = re.fullmatch(CONV, P.fns[fid].name)
        n, i, o, s = map(int, m.groups())
        return Ctx(check_conv(P, fid, i, o, s, [n] if i == 62 else [x for x in range(1, n + 1) if 64 * x <= 62 * s]))
    return Ctx(check_prim(P, fid, k, int(it[2])))


def main():
    chk = Check('C03', 'abstract interpretation of MIR over exact integer polynomials with loop invariants',
                'each iteration of the two loops keeps its invariant from an arbitrary state satisfying it: the inner loop performs exact '
                'Bernstein-Yang division steps and the matching matrix rows, the outer one keeps d x = R^2 f, e x = R^2 g (mod p) and all ranges; '
                'big-integer operations are exact modulo 2^(62 L); the repacking moves every bit to its place',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'the division step theorem of Bernstein and Yang (termination)',
                         'the moduli are prime (C02)'])
    P = dump('prime_generic', ['prime'])
    items = []
    for (r, tag), fid in prime_items(P, 'generic', lambda p: p[2] == 'p' and p[4] == 'inv'):
        items.append(((r, ('invert',)), fid))
    for f in P.fns:
        if re.fullmatch(JUMP, f.name):
            for s in range(62, 0, -1):
                items.append(((f.name, ('jump', str(s))), f.id))
        for nm, rx in PRIMS:
            m = re.fullmatch(rx, f.name)
            if m:
                items.append(((f.name, (nm, m.group(1))), f.id))
        if re.fullmatch(CONV, f.name):
            items.append(((f.name, ('conv',)), f.id))
    run_items(P, chk, items, lambda P, it, fid: dispatch(P, (it[0],) + tuple(it[1]), fid), 'exact inversion step')
    chk.finish()
