"""Abstract interpreter over monomorphic MIR.

Forward dataflow over each function's control-flow graph, interprocedural by inlining resolved
callees.  Memory is a map from abstract cells to abstract values; branches whose condition the
analysis cannot decide are both followed from the branch to its immediate post-dominator and their
memories are joined there as *gated* values (guard -> value).  Scalars and field elements are
interpreted in pluggable domains (canonical polynomials, linear limb expressions, bit fields).
Nothing is executed and no solver is involved."""
import sys
from bdd import BDD
from poly import TooLarge

sys.setrecursionlimit(200000)


class B:
    """symbolic truth value"""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, B) and o.n == self.n
    def __hash__(self): return hash(('B', self.n))
    def __repr__(self): return f'B{self.n}'


class G:
    """gated value: disjoint guards covering the path condition"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __eq__(self, o): return isinstance(o, G) and o.alts == self.alts
    def __hash__(self): return hash(('G', tuple(self.alts)))
    def __repr__(self): return 'G' + repr(self.alts)


class En:
    __slots__ = ('v', 'f')
    def __init__(self, v, f): self.v = v; self.f = f
    def __eq__(self, o): return isinstance(o, En) and o.v == self.v and o.f == self.f
    def __hash__(self): return hash(('En', self.v, self.f))
    def __repr__(self): return f'En({self.v},{self.f})'


class Ptr:
    __slots__ = ('cell', 'path', 'meta')
    def __init__(self, cell, path=(), meta=None): self.cell = cell; self.path = path; self.meta = meta
    def __eq__(self, o): return isinstance(o, Ptr) and o.cell == self.cell and o.path == self.path and o.meta == self.meta
    def __hash__(self): return hash(('Ptr', self.cell, self.path, self.meta))
    def __repr__(self): return f'&{self.cell}{list(self.path)}{"" if self.meta is None else ":" + str(self.meta)}'


class FE:
    """field element of the named type"""
    __slots__ = ('f', 'p')
    def __init__(self, f, p): self.f = f; self.p = p
    def __eq__(self, o): return isinstance(o, FE) and o.f is self.f and o.p == self.p
    def __hash__(self): return hash((self.f.name, self.p))
    def __repr__(self): return f'{self.f.short}<{self.f.show(self.p)}>'


class FnV:
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn
    def __eq__(self, o): return isinstance(o, FnV) and o.fn == self.fn
    def __hash__(self): return hash(('FnV', self.fn))


class Opq:
    """uninterpreted term"""
    __slots__ = ('op', 'args', '_h')
    def __init__(self, op, *args): self.op = op; self.args = args; self._h = hash((op, args))
    def __eq__(self, o): return self is o or (isinstance(o, Opq) and o._h == self._h and o.op == self.op and o.args == self.args)
    def __hash__(self): return self._h
    def __repr__(self): return f'{self.op}({", ".join(map(repr, self.args))})' if self.args else str(self.op)


class VecV:
    __slots__ = ('cell', 'len')
    def __init__(self, cell, n): self.cell = cell; self.len = n
    def __eq__(self, o): return isinstance(o, VecV) and o.cell == self.cell and o.len == self.len
    def __hash__(self): return hash(('VecV', self.cell, self.len))
    def __repr__(self): return f'Vec@{self.cell}[{self.len}]'


class Undef:
    def __repr__(self): return '⊥'
UNDEF = Undef()


class Sub:
    """array view [start, start+n) of the enclosing array"""
    __slots__ = ('s', 'n')
    def __init__(self, s, n): self.s = s; self.n = n
    def __eq__(self, o): return isinstance(o, Sub) and o.s == self.s and o.n == self.n
    def __hash__(self): return hash(('Sub', self.s, self.n))
    def __repr__(self): return f'[{self.s}+{self.n}]'


class Diverge(Exception):
    pass


class Unsupported(Exception):
    pass


class Runaway(Unsupported):
    """recursion deeper than any the analysed programs need"""


EXIT = -1


def compute_ipdom(nblocks, succ, is_exit):
    """immediate post-dominators over the normal-exit subgraph (iterative set algorithm on a
    reversed graph, with a virtual exit)."""
    # blocks that can reach a normal exit
    preds = [[] for _ in range(nblocks)]
    for b in range(nblocks):
        for s in succ[b]:
            preds[s].append(b)
    live = set(b for b in range(nblocks) if is_exit[b])
    st = list(live)
    while st:
        b = st.pop()
        for p in preds[b]:
            if p not in live:
                live.add(p)
                st.append(p)
    # reverse postorder from the virtual exit on the reversed graph
    order = []
    seen = set()
    def rsucc(b):
        return [x for x in range(nblocks) if is_exit[x]] if b == EXIT else [p for p in preds[b] if p in live]
    stack = [(EXIT, iter(rsucc(EXIT)))]
    seen.add(EXIT)
    while stack:
        b, it = stack[-1]
        for n in it:
            if n not in seen:
                seen.add(n)
                stack.append((n, iter(rsucc(n))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    ip = {EXIT: EXIT}
    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = ip[a]
            while idx[b] > idx[a]:
                b = ip[b]
        return a
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            ss = [s for s in succ[b] if s in live and s in idx]
            if is_exit[b]:
                ss = [EXIT] + ss
            for s in ss:
                if s in ip:
                    new = s if new is None else inter(s, new)
            if new is not None and ip.get(b) != new:
                ip[b] = new
                changed = True
    return ip


def places(o, out):
    """the places read by an operand or rvalue"""
    if isinstance(o, dict):
        if o.get('o') in ('c', 'm'):
            out.append(o['p'])
    elif isinstance(o, list):
        for x in o:
            if isinstance(x, (dict, list)):
                places(x, out)


def liveness(blocks, succ, nlocals, argc):
    """per block: the locals whose value may still be read from its entry on; None when nothing is known.  Locals whose
    address is taken are always in the set."""
    taken = set()
    use, kill = [], []
    def walk(u, k, pl, write=False):
        l, pr = pl
        for e in pr:
            if e[0] == 'i' and e[1] not in k:
                u.add(e[1])
        if (not write or pr) and l not in k:
            u.add(l)
    def addr(pl):
        if not any(e[0] == 'd' for e in pl[1]):
            taken.add(pl[0])
    for st, t, sp in blocks:
        u, k = set(), set()
        def reads(o):
            ps = []
            places(o, ps)
            for pl in ps:
                walk(u, k, pl)
        def write(pl):
            walk(u, k, pl, True)
            if not pl[1] and pl[0] not in u:
                k.add(pl[0])
        for s in st:
            if s[0] == '=':
                r = s[2]
                if r[0] in ('ref', 'addr', 'discr', 'len'):
                    if r[0] in ('ref', 'addr'):
                        addr(r[1])
                    walk(u, k, r[1])
                else:
                    reads(r[1:])
                write(s[1])
            elif s[0] == 'sd':
                walk(u, k, s[1])
            elif s[0] == 'dead':
                if s[1] not in u:
                    k.add(s[1])
            else:
                reads(s[1:])
        q = t[0]
        if q == 'call':
            reads([t[1], t[2]])
            write(t[3])
        elif q in ('switch', 'assert'):
            reads(t[1])
        elif q == 'drop':
            taken.add(t[1][0])
            walk(u, k, t[1])
        elif q == 'return':
            if 0 not in k:
                u.add(0)
        elif q == 'asm':
            return None
        use.append(u)
        kill.append(k)
    n = len(blocks)
    live = [set(x) for x in use]
    preds = [[] for _ in range(n)]
    for b in range(n):
        for s in succ[b]:
            preds[s].append(b)
    wl = list(range(n))
    inq = set(wl)
    while wl:
        b = wl.pop()
        inq.discard(b)
        o = set()
        for s in succ[b]:
            o |= live[s]
        new = use[b] | (o - kill[b])
        if new != live[b]:
            live[b] = new
            for p in preds[b]:
                if p not in inq:
                    inq.add(p)
                    wl.append(p)
    return [frozenset(range(nlocals)) - taken - x for x in live]      # dead locals at block entry


class Engine:
    def __init__(self, prog, summaries=None, dom=None, max_steps=20000000):
        self.P = prog
        self.bdd = BDD()
        self.mem = {}
        self.pc = 1
        self.next_cell = 1
        self.events = []           # (kind, pc, message, stack)
        self.stack = []            # [(fn, span)]
        self.summaries = summaries if summaries is not None else {}
        self.prefix_summaries = []
        self.dom = dom
        self.steps = 0
        self.max_steps = max_steps
        self.visited = {}          # fn id -> number of analysed activations
        self.alloc_cells = {}
        self.type_fe = None        # callable(Ty) -> field spec or None
        self.sumcache = {}
        self.loopcount = {}
        self.callback = None
        self.heads = None           # {(function id, block): called on arrival}
        self.post = None            # called with every interpreted call's result
        self.max_iter = 5000
        self.const_cache = {}
        self.unsup = None
        self.dropmemo = {}

    # ---- types -------------------------------------------------------------------------------
    def fe_of(self, ty):
        if ty.fe is None:
            ty.fe = (self.type_fe(ty) if self.type_fe else None) or False
        return ty.fe

    # ---- cells -------------------------------------------------------------------------------
    def new_cell(self, v):
        c = self.next_cell
        self.next_cell += 1
        self.mem[c] = v
        return c

    def ref(self, v):
        """a thin reference to a fresh cell holding v"""
        return Ptr(self.new_cell(v))

    def ref_slice(self, vals):
        return Ptr(self.new_cell(tuple(vals)), (0,), len(vals))

    # ---- conditions --------------------------------------------------------------------------
    def mkb(self, n):
        return n if n < 2 else B(n)

    def bnode(self, v):
        """BDD node of a boolean value"""
        if isinstance(v, int):
            return 1 if v else 0
        if isinstance(v, B):
            return v.n
        if isinstance(v, G):
            r = 0
            for g, x in v.alts:
                r = self.bdd.Or(r, self.bdd.And(g, self.bnode(x)))
            return r
        if self.dom is not None:
            r = self.dom.as_bool(self, v)
            if r is not None:
                return r
        raise Unsupported(f'not a boolean: {v!r}')

    def atom(self, key):
        return B(self.bdd.atom(key))

    def assume(self, n):
        self.pc = self.bdd.And(self.pc, n)

    def feasible(self, n):
        return self.bdd.And(self.pc, n) != 0

    # ---- gated values ------------------------------------------------------------------------
    def mkg(self, alts):
        """build a gated value from (guard, value) pairs"""
        flat = []
        pc = self.pc
        A = self.bdd.And
        for g, v in alts:
            if isinstance(v, G):
                for g2, v2 in v.alts:
                    x = A(g, g2)
                    if A(x, pc):
                        flat.append((x, v2))
            elif A(g, pc):
                flat.append((g, v))
        if not flat:
            raise Diverge('infeasible')
        return self._join(flat)

    def _join(self, flat):
        v0 = flat[0][1]
        if all(v is v0 or v == v0 for _, v in flat[1:]):
            return v0
        if all(isinstance(v, tuple) for _, v in flat) and len({len(v) for _, v in flat}) == 1:
            return tuple(self._join2([(g, v[i]) for g, v in flat]) for i in range(len(v0)))
        if all(isinstance(v, En) for _, v in flat) and len({v.v for _, v in flat}) == 1 and len({len(v.f) for _, v in flat}) == 1:
            return En(v0.v, tuple(self._join2([(g, v.f[i]) for g, v in flat]) for i in range(len(v0.f))))
        if any(isinstance(v, B) for _, v in flat) and all(isinstance(v, B) or v in (0, 1) for _, v in flat):
            n = 0
            for g, v in flat:
                n = self.bdd.Or(n, self.bdd.And(g, self.bnode(v)))
            # guards may not cover: fine, outside the path condition
            return self.simp_bool(n)
        if self.dom is not None and self.dom.merges:
            r = self.dom.merge(self, flat)
            if r is not None:
                return r
        out = []
        for g, v in flat:
            for i, (g2, v2) in enumerate(out):
                if v2 is v or v2 == v:
                    out[i] = (self.bdd.Or(g, g2), v2)
                    break
            else:
                out.append((g, v))
        if len(out) == 1:
            return out[0][1]
        return G(out)

    def _join2(self, flat):
        if any(isinstance(v, G) for _, v in flat):
            return self.mkg(flat)
        return self._join(flat)

    def simp_bool(self, n):
        if n > 1:
            x = self.bdd.And(n, self.pc)
            if x == 0:
                return 0
            if x == self.pc:
                return 1
        return self.mkb(n)

    def ite(self, c, a, b):
        """value that is a when c else b"""
        n = c if isinstance(c, int) else self.bnode(c)
        if n == 1:
            return a
        if n == 0:
            return b
        return self.mkg([(n, a), (self.bdd.Not(n), b)])

    def unop_bool_not(self, v):
        if type(v) is int:
            return 1 - v
        return self.simp_bool(self.bdd.Not(self.bnode(v)))

    def ty_named(self, n):
        for t in self.P.types:
            if t.s == n:
                return t
        return None

    @property
    def usize(self):
        if self._usize is None:
            self._usize = self.ty_named('usize')
        return self._usize
    _usize = None

    def zero_like(self, v):
        if isinstance(v, tuple):
            return tuple(self.zero_like(x) for x in v)
        if isinstance(v, FE):
            return v.f.const(0)
        return 0

    def lift(self, f, *args):
        for i, a in enumerate(args):
            if isinstance(a, G):
                out = []
                for g, v in a.alts:
                    if self.bdd.And(g, self.pc):
                        sv = self.pc
                        self.pc = self.bdd.And(sv, g)
                        try:
                            out.append((g, self.lift(f, *args[:i], v, *args[i + 1:])))
                        except Diverge:
                            pass
                        finally:
                            self.pc = sv
                if not out:
                    raise Diverge('infeasible')
                return self.mkg(out)
        return f(*args)

    # ---- path access -------------------------------------------------------------------------
    def norm_path(self, path):
        out = []
        for e in path:
            if out and isinstance(out[-1], Sub):
                if isinstance(e, Sub):
                    s = out[-1]
                    out[-1] = Sub(s.s + e.s, e.n)
                    continue
                if isinstance(e, int) or not isinstance(e, Sub):
                    s = out.pop()
                    out.append(self.idx_add(s.s, e))
                    continue
            out.append(e)
        return tuple(out)

    def idx_add(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if a == 0:
            return b
        if b == 0:
            return a
        return self.binop('Add', a, b, None)

    def get(self, v, path):
        for i, e in enumerate(path):
            t = type(v)
            if t is tuple:
                if type(e) is int:
                    if not 0 <= e < len(v):
                        raise Unsupported(f'index {e} out of range {len(v)}')
                    v = v[e]
                elif type(e) is Sub:
                    if e.s + e.n > len(v):
                        raise Unsupported('sub-array out of range')
                    v = v[e.s:e.s + e.n]
                elif type(e) is tuple:       # downcast marker
                    continue
                else:
                    return self.get_sym_index(v, e, path[i + 1:])
            elif t is En:
                if type(e) is tuple:
                    if e[1] != v.v:
                        raise Diverge('infeasible variant')
                    continue
                v = v.f[e]
            elif t is G:
                rest = path[i:]
                return self.lift(lambda x: self.get(x, rest), v)
            elif t is FE:
                v = v.f.project(self, v, e)
            elif t is BigArr:
                if type(e) is int:
                    if not 0 <= e < v.n:
                        raise Unsupported(f'index {e} out of range {v.n}')
                    v = v.item(e)
                else:
                    v = self.dom.big_index(self, v, e)
            elif t is VecV:
                raise Unsupported('raw Vec access')
            elif v is UNDEF:
                return UNDEF
            elif t is Opq:
                v = self.dom.project(self, v, e) if self.dom else Opq('proj', v, e)
            else:
                raise Unsupported(f'projection {e} of {v!r}')
        return v

    def get_sym_index(self, v, e, rest):
        if isinstance(e, G):
            return self.lift(lambda k: self.get(v, (k,) + tuple(rest)), e)
        if self.dom is not None:
            r = self.dom.sym_index(self, v, e)
            if r is not None:
                return self.get(r, rest)
        raise Unsupported(f'symbolic index {e!r}')

    def put(self, v, path, x):
        if not path:
            return x
        e = path[0]
        t = type(v)
        if t is tuple:
            if type(e) is int:
                if not 0 <= e < len(v):
                    raise Unsupported(f'store index {e} out of range {len(v)}')
                return v[:e] + (self.put(v[e], path[1:], x),) + v[e + 1:]
            if type(e) is Sub:
                inner = self.put(v[e.s:e.s + e.n], path[1:], x)
                return v[:e.s] + tuple(inner) + v[e.s + e.n:]
            if type(e) is tuple:
                return self.put(v, path[1:], x)
            if isinstance(e, G):
                out = []
                for g, k in e.alts:
                    if self.feasible(g):
                        out.append((g, self.put(v, (k,) + tuple(path[1:]), x)))
                return self.mkg(out)
            if self.dom is not None:
                r = self.dom.sym_store(self, v, e, path[1:], x)
                if r is not None:
                    return r
            raise Unsupported(f'symbolic store index {e!r}')
        if t is En:
            if type(e) is tuple:
                if e[1] != v.v:
                    n = 0
                    return self.put(En(e[1], ()), path[1:], x)
                return self.put(v, path[1:], x)
            f = v.f
            while len(f) <= e:
                f = f + (UNDEF,)
            return En(v.v, f[:e] + (self.put(f[e], path[1:], x),) + f[e + 1:])
        if t is G:
            out = []
            for g, y in v.alts:
                if self.feasible(g):
                    out.append((g, self.put(y, path, self.ite(g, x, x))))
            return self.mkg(out)
        if v is UNDEF:
            if type(e) is tuple:
                return self.put(En(e[1], ()), path[1:], x)
            n = e + 1
            vals = [UNDEF] * n
            vals[e] = self.put(UNDEF, path[1:], x)
            return tuple(vals)
        if t is FE:
            return v.f.store(self, v, path, x)
        raise Unsupported(f'store into {v!r} at {path}')

    def load(self, p):
        if isinstance(p, G):
            return self.lift(self.load, p)
        if not isinstance(p, Ptr):
            raise Unsupported(f'load through {p!r}')
        if p.cell not in self.mem:
            raise Unsupported('load from dead cell')
        return self.get(self.mem[p.cell], p.path)

    def store(self, p, x):
        if isinstance(p, G):
            for g, q in p.alts:
                if self.feasible(g):
                    old = self.mem[q.cell]
                    self.mem[q.cell] = self.ite(g, self.put(old, q.path, x), old)
            return
        if not isinstance(p, Ptr):
            raise Unsupported(f'store through {p!r}')
        if not p.path:
            self.mem[p.cell] = x
        else:
            self.mem[p.cell] = self.put(self.mem[p.cell], p.path, x)

    def load_slice(self, p):
        """tuple of the elements a slice pointer covers"""
        if isinstance(p, G):
            return self.lift(self.load_slice, p)
        n = p.meta
        if isinstance(n, G):
            return self.lift(lambda k: self.load_slice(Ptr(p.cell, p.path, k)), n)
        s = p.path[-1]
        arr = self.get(self.mem[p.cell], p.path[:-1])
        def f(a):
            if isinstance(a, tuple) and isinstance(s, int) and isinstance(n, int):
                if s + n > len(a):
                    raise Unsupported('slice out of range')
                return a[s:s + n]
            raise Unsupported(f'slice of {a!r}')
        return self.lift(f, arr)

    # ---- constants ---------------------------------------------------------------------------
    def const_val(self, op):
        t = self.P.types[op['t']]
        if 'bad' in op:
            return Opq('badconst', t.s)
        if 'z' in op:
            return self.zst(t)
        k = (op['t'], op['b'], str(op['p']))
        # constants without pointers can be cached
        if not op['p']:
            r = self.const_cache.get(k)
            if r is None:
                r = self.decode(t, op['b'], {}, 0)
                self.const_cache[k] = r
            return r
        return self.decode(t, op['b'], {o: a for o, a in op['p']}, 0)

    def zst(self, t):
        if t.k == 'fndef':
            return FnV(t.d['fn'])
        if t.k == 'tuple':
            return tuple(self.zst(self.P.types[x]) for x in t.d['elems'])
        if t.k == 'array':
            n = t.d['len']
            return tuple(self.zst(self.P.types[t.d['elem']]) for _ in range(n or 0))
        if t.k == 'struct':
            if t.transparent:
                return ()
            return tuple(self.zst(self.P.types[x[1]]) for x in t.d['variants'][0][2])
        if t.k == 'enum':
            return En(0, ())
        return ()

    def decode(self, t, hx, prov, off):
        """typed value of constant bytes"""
        fe = self.fe_of(t)
        if fe:
            return fe.decode(self, hx[2 * off:2 * (off + t.size)])
        k = t.k
        if k in ('int', 'uint', 'char'):
            h = hx[2 * off:2 * (off + t.size)]
            if '_' in h:
                return UNDEF
            if off in prov:
                return self.decode_ptr(t, hx, prov, off)
            return int.from_bytes(bytes.fromhex(h), 'little', signed=t.signed)
        if k == 'bool':
            h = hx[2 * off:2 * off + 2]
            return UNDEF if '_' in h else int(h, 16)
        if k in ('ref', 'ptr', 'fnptr'):
            return self.decode_ptr(t, hx, prov, off)
        if k == 'array':
            e = self.P.types[t.d['elem']]
            if (t.d['len'] or 0) > 4096:
                return BigArr(self, e, hx[2 * off:2 * (off + t.size)], t.d['len'])
            return tuple(self.decode(e, hx, prov, off + i * e.size) for i in range(t.d['len']))
        if k == 'tuple':
            offs = t.d['l']['fields'] or []
            return tuple(self.decode(self.P.types[x], hx, prov, off + o) for x, o in zip(t.d['elems'], offs))
        if k == 'closure':
            up = self.P.types[t.d['up']]
            offs = t.d['l']['fields'] or []
            return tuple(self.decode(self.P.types[x], hx, prov, off + o) for x, o in zip(up.d['elems'], offs))
        if k == 'struct':
            fs = t.d['variants'][0][2]
            if t.transparent:
                for (n, x) in fs:
                    if self.P.types[x].size:
                        return self.decode(self.P.types[x], hx, prov, off)
                return ()
            offs = t.d['l']['fields'] or []
            return tuple(self.decode(self.P.types[x], hx, prov, off + o) for (n, x), o in zip(fs, offs))
        if k == 'union':
            fs = t.d['variants'][0][2]
            best = max(fs, key=lambda f: self.P.types[f[1]].size or 0)
            return self.decode(self.P.types[best[1]], hx, prov, off)
        if k == 'enum':
            v = t.d['l']['variants']
            if isinstance(v, dict) and 'single' in v:
                i = v['single']
                offs = t.d['l']['fields'] or []
                fs = t.d['variants'][i][2]
                return En(i, tuple(self.decode(self.P.types[x], hx, prov, off + o) for (n, x), o in zip(fs, offs)))
            if v == 'empty':
                return UNDEF
            tg = v['tag']
            to = off + v['off']
            if to in prov:
                i = v['enc']['untagged']
            else:
                h = hx[2 * to:2 * (to + tg[1])]
                if '_' in h:
                    return UNDEF
                raw = int.from_bytes(bytes.fromhex(h), 'little')
                if v['enc'] == 'direct':
                    i = None
                    for j, x in enumerate(t.d['variants']):
                        if x[1] % (1 << (8 * tg[1])) == raw:
                            i = j
                else:
                    e = v['enc']
                    rel = (raw - e['start']) % (1 << (8 * tg[1]))
                    n = e['hi'] - e['lo']
                    i = e['lo'] + rel if rel <= n else e['untagged']
            fs = t.d['variants'][i][2]
            return En(i, tuple(self.decode(self.P.types[x], hx, prov, off + o) for (n, x), o in zip(fs, v['vars'][i])))
        if k == 'fndef':
            return FnV(t.d['fn'])
        if t.size == 0:
            return ()
        return Opq('const', t.s)

    def decode_ptr(self, t, hx, prov, off):
        if t.k == 'fnptr':
            a = prov.get(off)
            if a is not None and self.P.allocs[a]['k'] == 'fn':
                return FnV(self.P.allocs[a]['fn'])
            return Opq('fnptr')
        if t.k not in ('ref', 'ptr'):
            return Opq('ptrint')
        to = self.P.types[t.d['to']]
        addend = int.from_bytes(bytes.fromhex(hx[2 * off:2 * off + 16]), 'little')
        a = prov.get(off)
        meta = None
        if t.size == 16:
            if off + 8 in prov:
                meta = Opq('vtable', prov[off + 8])
            else:
                meta = int.from_bytes(bytes.fromhex(hx[2 * off + 16:2 * off + 32]), 'little')
        if a is None:
            if t.size == 16 and meta == 0:
                return Ptr(self.new_cell(()), (0,), 0)
            return Ptr(self.new_cell(()), (), meta) if to.size == 0 else Opq('dangling', addend, t.s)
        al = self.P.allocs[a]
        if al['k'] not in ('mem', 'static') or 'b' not in al:
            if al['k'] == 'fn':
                return FnV(al['fn'])
            return Opq('alloc', al.get('name', al['k']))
        key = (a, to.id, meta if isinstance(meta, int) else None, addend)
        if key in self.alloc_cells:
            c = self.alloc_cells[key]
            if c in self.mem:
                return self._cptr(c, to, meta)
        p2 = {o: x for o, x in al['p']}
        if to.k == 'slice' or to.k == 'str':
            e = self.P.types[to.d['elem']] if to.k == 'slice' else None
            if e is None:
                v = tuple(bytes.fromhex(al['b'][2 * addend:2 * (addend + meta)]))
            elif meta > 4096:
                v = BigArr(self, e, al['b'][2 * addend:2 * (addend + meta * e.size)], meta)
            else:
                v = tuple(self.decode(e, al['b'], p2, addend + i * e.size) for i in range(meta))
        elif to.k == 'dyn':
            v = Opq('dynobj', a)
        else:
            v = self.decode(to, al['b'], p2, addend)
        c = self.new_cell(v)
        self.alloc_cells[key] = c
        self.base_mem[c] = v if hasattr(self, 'base_mem') else v
        return self._cptr(c, to, meta)

    base_mem = {}

    def _cptr(self, c, to, meta):
        if to.k in ('slice', 'str'):
            return Ptr(c, (0,), meta)
        return Ptr(c, (), meta)

    # ---- function preparation ----------------------------------------------------------------
    def prepare(self, fn):
        blocks = fn.raw
        n = len(blocks)
        succ = [[] for _ in range(n)]
        is_exit = [False] * n
        for i, (st, t, sp) in enumerate(blocks):
            k = t[0]
            if k == 'goto':
                succ[i] = [t[1]]
            elif k == 'switch':
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif k == 'return':
                is_exit[i] = True
            elif k == 'drop':
                succ[i] = [t[2]]
            elif k == 'call':
                succ[i] = [t[4]] if t[4] is not None else []
            elif k == 'assert':
                succ[i] = [t[4]]
            elif k == 'asm':
                succ[i] = [t[4]] if t[4] is not None else []
        fn.ipdom = compute_ipdom(n, succ, is_exit)
        fn.dead = liveness(blocks, succ, len(fn.locals), fn.argc)
        fn.blocks = [(
            [self.prep_stmt(fn, s) for s in st],
            self.prep_term(fn, t), sp) for (st, t, sp) in blocks]
        fn.compiled = True

    def prep_place(self, fn, pl):
        """(local, steps) with transparent wrappers erased; a step is
        ('f', i) ('d',) ('i', local) ('c', off, fromend) ('s', from, to, fromend) ('v', variant)"""
        local, projs = pl
        ty = self.P.types[fn.locals[local]]
        steps = []
        down = None
        for e in projs:
            k = e[0]
            if k == 'd':
                steps.append(('d',))
                if ty.k in ('ref', 'ptr'):
                    ty = self.P.types[ty.d['to']]
                elif ty.d.get('box'):
                    ty = self.P.types[ty.d['args'][0]]
            elif k == 'f':
                nt = self.P.types[e[2]]
                if ty.transparent:
                    if nt.size == 0 and ty.size != 0:
                        steps.append(('zst',))
                elif ty.k == 'pat':
                    pass
                elif nt.k == 'slice' and ty.k == 'struct':
                    steps.append(('ft', e[1]))
                else:
                    steps.append(('f', e[1]))
                ty = nt
            elif k == 'i':
                steps.append(('i', e[1]))
                ty = self.P.types[ty.d['elem']]
            elif k == 'c':
                steps.append(('c', e[1], e[3]))
                ty = self.P.types[ty.d['elem']]
            elif k == 's':
                steps.append(('s', e[1], e[2], e[3]))
            elif k == 'v':
                if ty.k == 'enum':
                    steps.append(('v', e[1]))
            elif k == 'o':
                ty = self.P.types[e[1]]
        return (local, tuple(steps), ty)

    def prep_op(self, fn, o):
        k = o['o']
        if k in ('c', 'm'):
            return ('p', self.prep_place(fn, o['p']))
        if k == 'r':
            return ('v', 0)
        return ('k', o)

    def op_ty(self, fn, o):
        if o['o'] in ('c', 'm'):
            return self.prep_place(fn, o['p'])[2]
        if o['o'] == 'k':
            return self.P.types[o['t']]
        return None

    def prep_stmt(self, fn, s):
        if s[0] == '=':
            return ('=', self.prep_place(fn, s[1]), self.prep_rv(fn, s[2]), s[3])
        if s[0] == 'sd':
            return ('sd', self.prep_place(fn, s[1]), s[2], None)
        if s[0] == 'cno':
            return ('cno', self.prep_op(fn, s[1]), self.prep_op(fn, s[2]), self.prep_op(fn, s[3]))
        if s[0] == 'dead':
            return ('dead', s[1])
        return ('nop',)

    def prep_rv(self, fn, r):
        k = r[0]
        if k in ('use',):
            return ('use', self.prep_op(fn, r[1]))
        if k in ('addr', 'ref'):
            return ('ref', self.prep_place(fn, r[1]))
        if k in ('discr', 'len'):
            return (k, self.prep_place(fn, r[1]))
        if k == 'agg':
            ops = [self.prep_op(fn, o) for o in r[2]]
            ak = r[1]
            if ak[0] == 'adt':
                t = self.P.types[ak[1]]
                if t.transparent:
                    pick = None
                    for i, o in enumerate(r[2]):
                        ot = self.op_ty(fn, o)
                        if ot is None or ot.size:
                            pick = i
                            break
                    return ('use', ops[pick]) if pick is not None else ('v', ())
                return ('adt', t, ak[2], ops)
            if ak[0] == 'rawptr':
                return ('rawptr', ops)
            return ('tup', ops)
        if k in ('bin', 'cbin'):
            return (k, r[1], self.prep_op(fn, r[2]), self.prep_op(fn, r[3]), self.op_ty(fn, r[2]), self.op_ty(fn, r[3]))
        if k == 'cast':
            return ('cast', r[1], self.prep_op(fn, r[2]), self.op_ty(fn, r[2]), self.P.types[r[3]], r[4] if len(r) > 4 else None)
        if k == 'repeat':
            return ('repeat', self.prep_op(fn, r[1]), r[2])
        if k == 'un':
            return ('un', r[1], self.prep_op(fn, r[2]), self.op_ty(fn, r[2]))
        return (k,)

    def prep_term(self, fn, t):
        k = t[0]
        if k == 'switch':
            return ('switch', self.prep_op(fn, t[1]), t[2], t[3], self.op_ty(fn, t[1]))
        if k == 'call':
            f = t[1]
            callee = None
            if f['o'] == 'k':
                ft = self.P.types[f['t']]
                if ft.k == 'fndef':
                    callee = ft.d['fn']
            return ('call', callee, self.prep_op(fn, f), [self.prep_op(fn, o) for o in t[2]],
                    self.prep_place(fn, t[3]), t[4])
        if k == 'assert':
            return ('assert', self.prep_op(fn, t[1]), t[2], t[3], t[4])
        if k == 'drop':
            return ('drop', self.prep_place(fn, t[1]), t[2], t[3])
        if k == 'asm':
            ops = []
            for i, p, raw in t[2]:
                ops.append((self.prep_op(fn, i) if i else None, self.prep_place(fn, p) if p else None, raw))
            return ('asm', t[1], ops, t[3], t[4])
        return tuple(t)

    # ---- evaluation --------------------------------------------------------------------------
    def place_ptr(self, base, pl):
        local, steps, ty = pl
        cell = base + local
        path = ()
        meta = None
        p = None
        for idx, s in enumerate(steps):
            k = s[0]
            if k == 'f':
                path = path + (s[1],)
                if isinstance(meta, tuple) and meta[0] == 'tail':
                    continue
            elif k == 'ft':
                path = path + (s[1], 0)
                meta = meta[1] if isinstance(meta, tuple) else meta
                continue
            elif k == 'd':
                v = self.load(Ptr(cell, self.norm_path(path)) if p is None else self._ext(p, path))
                if isinstance(v, VecV):
                    raise Unsupported('deref Vec')
                p, path = v, ()
                if isinstance(p, Ptr):
                    cell, path, meta = p.cell, p.path, p.meta
                    p = None
                elif isinstance(p, G):
                    return self.lift(lambda q: self._place_from(q, base, steps[idx + 1:]), p)
                else:
                    raise Unsupported(f'deref of {v!r}')
            else:
                cell, path, meta = self._step(Ptr(cell, path, meta), s, base)
                continue
            if k != 'd':
                meta = None
        return Ptr(cell, self.norm_path(path), meta)

    def _ext(self, p, path):
        return Ptr(p.cell, self.norm_path(p.path + path))

    def _place_from(self, q, base, steps):
        if not isinstance(q, Ptr):
            raise Unsupported(f'deref of {q!r}')
        cell, path, meta = q.cell, q.path, q.meta
        for idx, s in enumerate(steps):
            k = s[0]
            if k == 'f':
                path = path + (s[1],)
                if not (isinstance(meta, tuple) and meta[0] == 'tail'):
                    meta = None
            elif k == 'ft':
                path = path + (s[1], 0)
                meta = meta[1] if isinstance(meta, tuple) else meta
            elif k == 'd':
                v = self.load(Ptr(cell, self.norm_path(path)))
                if isinstance(v, G):
                    return self.lift(lambda r: self._place_from(r, base, steps[idx + 1:]), v)
                if not isinstance(v, Ptr):
                    raise Unsupported(f'deref of {v!r}')
                cell, path, meta = v.cell, v.path, v.meta
            else:
                cell, path, meta = self._step(Ptr(cell, path, meta), s, base)
        return Ptr(cell, self.norm_path(path), meta)

    def _step(self, p, s, base):
        """index-like steps; p is the place being indexed"""
        cell, path, meta = p.cell, p.path, p.meta
        k = s[0]
        if k == 'v':
            return cell, path + (('v', s[1]),), None
        if k == 'zst':
            c = self.new_cell(())
            return c, (), None
        if k == 'i':
            i = self.mem[base + s[1]]
        elif k == 'c':
            i = s[1]
            if s[2]:
                n = meta if meta is not None else len(self.get(self.mem[cell], self.norm_path(path)))
                i = n - s[1]
        elif k == 's':
            frm, to, fe = s[1], s[2], s[3]
            n = meta if meta is not None else len(self.get(self.mem[cell], self.norm_path(path)))
            end = n - to if fe else to
            if meta is not None:
                return cell, path[:-1] + (self.idx_add(path[-1], frm),), end - frm
            return cell, path + (Sub(frm, end - frm),), None
        if meta is not None:       # slice: last path component is the start index
            return cell, path[:-1] + (self.idx_add(path[-1], i),), None
        return cell, path + (i,), None

    def read_place(self, base, pl):
        local, steps, ty = pl
        if not steps:
            return self.mem[base + local]
        if steps[-1] == ('zst',):
            return ()
        p = self.place_ptr(base, pl)
        if isinstance(p, Ptr) and p.meta is not None and ty.k in ('slice', 'str'):
            return self.load_slice(p)
        return self.load(p)

    def write_place(self, base, pl, v):
        local, steps, ty = pl
        if not steps:
            self.mem[base + local] = v
            return
        if steps[-1] == ('zst',):
            return
        self.store(self.place_ptr(base, pl), v)

    def ev(self, base, o):
        k = o[0]
        if k == 'p':
            pl = o[1]
            if not pl[1]:
                return self.mem[base + pl[0]]
            return self.read_place(base, pl)
        if k == 'k':
            return self.const_val(o[1])
        return o[1]

    def wrap(self, v, t):
        if t is None or t.bits is None:
            return v
        v &= (1 << t.bits) - 1
        if t.signed and v >> (t.bits - 1):
            v -= 1 << t.bits
        return v

    def binop(self, op, a, b, t, t2=None):
        if isinstance(a, G) or isinstance(b, G):
            return self.lift(lambda x, y: self.binop(op, x, y, t, t2), a, b)
        if type(a) is int and type(b) is int:
            return self.ibin(op, a, b, t, t2)
        if op == 'Offset':
            return self.ptr_off(a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_bin(op, a, b)
        ba = isinstance(a, B) or a in (0, 1) if type(a) in (int, B) else False
        bb = isinstance(b, B) or b in (0, 1) if type(b) in (int, B) else False
        if ba and bb:
            r = self.bool_bin(op, a, b)
            if r is not None:
                return r
        if self.dom is not None:
            return self.dom.binop(self, op, a, b, t, t2)
        raise Unsupported(f'{op} on {a!r}, {b!r}')

    def bool_bin(self, op, a, b):
        x, y = self.bnode(a), self.bnode(b)
        D = self.bdd
        if op == 'BitAnd' or op == 'Mul':
            return self.simp_bool(D.And(x, y))
        if op == 'BitOr':
            return self.simp_bool(D.Or(x, y))
        if op in ('BitXor', 'Ne'):
            return self.simp_bool(D.Xor(x, y))
        if op == 'Eq':
            return self.simp_bool(D.Not(D.Xor(x, y)))
        if op == 'Gt':
            return self.simp_bool(D.And(x, D.Not(y)))
        if op == 'Lt':
            return self.simp_bool(D.And(D.Not(x), y))
        if op == 'Ge':
            return self.simp_bool(D.Or(x, D.Not(y)))
        if op == 'Le':
            return self.simp_bool(D.Or(D.Not(x), y))
        return None

    def ibin(self, op, a, b, t, t2):
        w = self.wrap
        if op in ('Add', 'AddUnchecked'):
            return w(a + b, t)
        if op in ('Sub', 'SubUnchecked'):
            return w(a - b, t)
        if op in ('Mul', 'MulUnchecked'):
            return w(a * b, t)
        if op == 'Div':
            if b == 0:
                raise Diverge('div by zero')
            q = abs(a) // abs(b)
            return w(q if (a < 0) == (b < 0) else -q, t)
        if op == 'Rem':
            if b == 0:
                raise Diverge('rem by zero')
            q = abs(a) % abs(b)
            return w(-q if a < 0 else q, t)
        if op == 'BitXor':
            return w(a ^ b, t)
        if op == 'BitAnd':
            return w(a & b, t)
        if op == 'BitOr':
            return w(a | b, t)
        if op in ('Shl', 'ShlUnchecked'):
            return w(a << (b % (t.bits if t else 64)), t)
        if op in ('Shr', 'ShrUnchecked'):
            return w(a >> (b % (t.bits if t else 64)), t)
        if op == 'Eq':
            return int(a == b)
        if op == 'Ne':
            return int(a != b)
        if op == 'Lt':
            return int(a < b)
        if op == 'Le':
            return int(a <= b)
        if op == 'Gt':
            return int(a > b)
        if op == 'Ge':
            return int(a >= b)
        if op == 'Cmp':
            return En(0 if a < b else 1 if a == b else 2, ())
        raise Unsupported(op)

    def ptr_off(self, p, n):
        if isinstance(p, G) or isinstance(n, G):
            return self.lift(self.ptr_off, p, n)
        if isinstance(p, Ptr):
            if n == 0:
                return p
            if not p.path:
                # pointer to a single value treated as a one-element array end marker
                return Ptr(p.cell, (('off', n),), p.meta)
            last = p.path[-1]
            if isinstance(last, Sub):
                return Ptr(p.cell, p.path[:-1] + (Sub(last.s + n * last.n, last.n),), p.meta)
            if isinstance(last, tuple) and last[0] == 'off':
                m = last[1] + n
                return Ptr(p.cell, p.path[:-1] + ((('off', m),) if m else ()), p.meta)
            return Ptr(p.cell, p.path[:-1] + (self.idx_add(last, n),), p.meta)
        raise Unsupported(f'pointer offset of {p!r}')

    def ptr_pos(self, p):
        if isinstance(p.path[-1] if p.path else None, Sub):
            return p.path[:-1], p.path[-1].s
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'off':
            return p.path[:-1], p.path[-1][1]
        if p.path:
            return p.path[:-1], p.path[-1]
        return p.path, 0

    def ptr_bin(self, op, a, b):
        if op in ('Eq', 'Ne'):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.cell == b.cell:
                    e = a.path == b.path or self.ptr_pos(a) == self.ptr_pos(b)
                else:
                    e = False
                return int(e == (op == 'Eq'))
            # a pointer into a live cell is never null / dangling
            return int(op == 'Ne')
        if op in ('Lt', 'Le', 'Gt', 'Ge') and isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell:
            return self.ibin(op, self.ptr_pos(a)[1], self.ptr_pos(b)[1], None, None)
        if op == 'BitAnd':
            return 0 if isinstance(b, int) else Opq('ptrbits')
        raise Unsupported(f'pointer {op}: {a!r} {b!r}')

    def unop(self, op, a, t):
        if isinstance(a, G):
            return self.lift(lambda x: self.unop(op, x, t), a)
        if op == 'PtrMetadata':
            if isinstance(a, Ptr):
                return a.meta if a.meta is not None else ()
            raise Unsupported(f'metadata of {a!r}')
        if type(a) is int:
            if op == 'Not':
                return (1 - a) if t.k == 'bool' else self.wrap(~a, t)
            return self.wrap(-a, t)
        if isinstance(a, B) and op == 'Not' and (t is None or t.k == 'bool'):
            return self.simp_bool(self.bdd.Not(a.n))
        if self.dom is not None:
            return self.dom.unop(self, op, a, t)
        raise Unsupported(f'{op} on {a!r}')

    def cast(self, kind, v, ft, tt, vt=None):
        if isinstance(v, G):
            return self.lift(lambda x: self.cast(kind, x, ft, tt, vt), v)
        if kind == 'IntToInt':
            if type(v) is int:
                return self.wrap(v, tt)
            if isinstance(v, B):
                return v
            if self.dom is not None:
                return self.dom.int_cast(self, v, ft, tt)
            raise Unsupported(f'int cast of {v!r}')
        if kind in ('PtrToPtr', 'MutToConstPointer', 'ArrayToPointer'):
            return self.cast_ptr(v, ft, tt)
        if kind == 'Unsize':
            return self.unsize(v, ft, tt, vt)
        if kind == 'Transmute':
            return self.transmute(v, ft, tt)
        if kind.startswith('ReifyFnPointer') or kind.startswith('UnsafeFn') or kind.startswith('ClosureFn'):
            if isinstance(v, FnV):
                return v
            if kind.startswith('ClosureFn'):
                return ('closurefn', ft.id)
            return v
        if kind in ('Subtype', 'BoxDerefTransmute'):
            return v
        if kind in ('PointerExposeAddress', 'PointerWithExposedProvenance', 'FnPtrToPtr'):
            return Opq('addr', v) if isinstance(v, Ptr) else v
        raise Unsupported(f'cast {kind} of {v!r} to {tt.s}')

    def pointee(self, t):
        while True:
            if t.k in ('ref', 'ptr'):
                return self.strip(self.P.types[t.d['to']])
            if t.transparent:
                n = None
                if t.d.get('box'):
                    return self.strip(self.P.types[t.d['args'][0]])
                for (nm, x) in t.d['variants'][0][2]:
                    if self.P.types[x].size:
                        n = self.P.types[x]
                        break
                if n is None:
                    return None
                t = n
            elif t.k == 'pat':
                t = self.P.types[t.d['base']]
            else:
                return None

    def strip(self, t):
        """see through transparent wrappers"""
        while t.k == 'pat' or t.transparent and t.k in ('struct', 'union') and not t.d.get('box'):
            if t.k == 'pat':
                t = self.P.types[t.d['base']]
                continue
            fs = t.d['variants'][0][2]
            cand = [self.P.types[x] for (nm, x) in fs if self.P.types[x].size != 0]
            if not cand:
                return t
            t = max(cand, key=lambda x: x.size or 0)
        return t

    def same_ty(self, a, b):
        a, b = self.strip(a), self.strip(b)
        if a.id == b.id:
            return True
        if a.k == b.k == 'array':
            return a.d['len'] == b.d['len'] and self.same_ty(self.P.types[a.d['elem']], self.P.types[b.d['elem']])
        return False

    def cast_ptr(self, v, ft, tt):
        if not isinstance(v, Ptr):
            return v
        a, b = self.pointee(ft), self.pointee(tt)
        if a is None or b is None:
            return v
        thin = tt.size == 8
        if a.k in ('slice', 'str'):
            if not thin:
                return v
            e = self.P.types[a.d['elem']] if a.k == 'slice' else None
            if b.k == 'array' and e is not None and self.same_ty(self.P.types[b.d['elem']], e):
                return Ptr(v.cell, v.path[:-1] + (Sub(v.path[-1], b.d['len']),))
            return Ptr(v.cell, v.path)
        if b.k == 'slice':
            return v
        if self.same_ty(a, b):
            return Ptr(v.cell, v.path, None if thin else v.meta)
        if a.k == 'array' and self.same_ty(self.P.types[a.d['elem']], b):
            return Ptr(v.cell, self.norm_path(v.path + (0,)))
        if b.k == 'array' and self.same_ty(self.P.types[b.d['elem']], a):
            if v.path and not isinstance(v.path[-1], Sub):
                return Ptr(v.cell, v.path[:-1] + (Sub(v.path[-1], b.d['len']),))
            if not v.path:
                return Ptr(v.cell, (('asarr', b.d['len']),))
        if b.k == 'array' and a.k == 'uint' and a.bits == 8 and v.path and type(v.path[-1]) is int:
            # a type-erased buffer pointer recovered as an array of its elements
            x = self.load(v)
            e = self.strip(self.P.types[b.d['elem']])
            if not isinstance(x, tuple) and e.k in ('uint', 'int', 'bool'):
                return Ptr(v.cell, v.path[:-1] + (Sub(v.path[-1], b.d['len']),))
        if b.size == 0 or b.k in ('uint', 'int') and b.bits == 8 or a.k in ('uint',) and a.bits == 8:
            return v           # type-erased pointer; must be cast back before use
        if a.k == 'tuple' and not a.d['elems']:
            return v
        # newtype structs around the pointee
        if b.k == 'struct' and a.size == b.size:
            return v
        return v

    def unsize(self, v, ft, tt, vt=None):
        if not isinstance(v, Ptr):
            return v
        a, b = self.pointee(ft), self.pointee(tt)
        if a is not None and a.k == 'array':
            if v.path and isinstance(v.path[-1], Sub):
                s = v.path[-1]
                return Ptr(v.cell, v.path[:-1] + (s.s,), s.n)
            return Ptr(v.cell, v.path + (0,), a.d['len'])
        n = self.tail_len(a)
        if n is not None:
            return Ptr(v.cell, v.path, ('tail', n))
        if b is not None and b.k == 'dyn':
            if a is not None and a.k == 'dyn':
                return v
            return Ptr(v.cell, v.path, ('dyn', a.id if a else None, tuple(map(tuple, vt or ()))))
        return v

    def tail_len(self, t):
        while t is not None and t.k == 'struct':
            fs = t.d['variants'][0][2]
            if not fs:
                return None
            t = self.strip(self.P.types[fs[-1][1]])
            if t.k == 'array':
                return t.d['len']
        return None

    def leaves(self, v):
        if isinstance(v, tuple):
            out = []
            for x in v:
                out += self.leaves(x)
            return out
        return [v]

    def transmute(self, v, ft, tt):
        if self.same_ty(ft, tt):
            return v
        f, t = self.strip(ft), self.strip(tt)
        if f.k in ('ref', 'ptr') and t.k in ('ref', 'ptr'):
            return self.cast_ptr(v, f, t)
        if isinstance(v, Ptr) or isinstance(v, VecV):
            # wrappers around a pointer
            if t.k in ('ref', 'ptr', 'fnptr') or t.transparent:
                return v
            if t.k in ('uint', 'int'):
                return Opq('addr', v)
            return self.build_from_leaves(t, [v])
        if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], Ptr) and t.k in ('ref', 'ptr'):
            return v[0]
        if t.k == 'array' and self.P.types[t.d['elem']].bits == 8 and f.k in ('uint', 'int'):
            return self.int_to_bytes(v, f.size)
        if f.k == 'array' and self.P.types[f.d['elem']].bits == 8 and t.k in ('uint', 'int'):
            return self.bytes_to_int(v, t)
        if f.k in ('uint', 'int', 'char', 'bool') and t.k in ('uint', 'int', 'char'):
            return self.wrap(v, t) if type(v) is int else v
        if t.k == 'enum':
            l = t.d['l']['variants']
            if type(v) is int and isinstance(l, dict) and 'tag' in l and l['enc'] == 'direct':
                for j, x in enumerate(t.d['variants']):
                    if x[1] == v % (1 << (8 * l['tag'][1])):
                        return En(j, ())
            if t.s.startswith('std::option::Option<std::num::NonZero<') and f.k in ('uint', 'int') and type(v) is int:
                return En(1, (v,)) if v else En(0, ())
        if f.k == 'enum' and isinstance(v, En) and t.k in ('int', 'uint') and not v.f:
            return self.wrap(f.d['variants'][v.v][1], t)
        if isinstance(v, FE):
            # reinterpret as raw limbs
            if t.k in ('array', 'struct'):
                return self.build_from_leaves(t, self.leaves(v.f.project(self, v, 0)))
        fe = self.fe_of(t)
        if fe:
            return fe.from_raw(self, v)
        ls = self.leaves(v)
        return self.build_from_leaves(t, ls)

    def build_from_leaves(self, t, ls):
        ls = list(ls)
        def go(t):
            t = self.strip(t)
            if t.k in ('int', 'uint', 'bool', 'char', 'ref', 'ptr', 'fnptr') or t.transparent:
                if t.size == 0:
                    return ()
                return ls.pop(0)
            if t.k == 'array':
                return tuple(go(self.P.types[t.d['elem']]) for _ in range(t.d['len']))
            if t.k == 'tuple':
                return tuple(go(self.P.types[x]) for x in t.d['elems'])
            if t.k == 'struct':
                return tuple(go(self.P.types[x]) for n, x in t.d['variants'][0][2])
            raise Unsupported(f'transmute to {t.s}')
        v = go(t)
        if ls:
            raise Unsupported(f'transmute to {t.s}: leftover leaves')
        return v

    def int_to_bytes(self, v, n):
        if type(v) is int:
            return tuple((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
        if isinstance(v, G):
            return self.lift(lambda x: self.int_to_bytes(x, n), v)
        if self.dom is not None:
            return self.dom.to_bytes(self, v, n)
        raise Unsupported('to_bytes')

    def bytes_to_int(self, v, t):
        if isinstance(v, G):
            return self.lift(lambda x: self.bytes_to_int(x, t), v)
        if all(type(x) is int for x in v):
            return int.from_bytes(bytes(v), 'little', signed=t.signed)
        if self.dom is not None:
            return self.dom.from_bytes(self, v, t)
        raise Unsupported('from_bytes')

    def discr(self, v, t):
        if isinstance(v, G):
            return self.lift(lambda x: self.discr(x, t), v)
        if isinstance(v, En):
            if t.k == 'enum':
                d = t.d['variants'][v.v][1]
                return -1 if d == 255 and t.d['name'] == 'std::cmp::Ordering' else d
            return v.v
        if v is UNDEF and t.k == 'enum' and isinstance(t.d['l']['variants'], dict) and 'single' in t.d['l']['variants']:
            return t.d['variants'][t.d['l']['variants']['single']][1]
        if isinstance(v, Opq) and self.dom is not None:
            return self.dom.discr(self, v, t)
        raise Unsupported(f'discriminant of {v!r}')

    def rv(self, fr, base, r):
        k = r[0]
        if k == 'use':
            return self.ev(base, r[1])
        if k == 'ref':
            return self.place_ptr(base, r[1])
        if k == 'bin':
            return self.binop(r[1], self.ev(base, r[2]), self.ev(base, r[3]), r[4], r[5])
        if k == 'cbin':
            a, b = self.ev(base, r[2]), self.ev(base, r[3])
            return self.checked(r[1], a, b, r[4])
        if k == 'cast':
            return self.cast(r[1], self.ev(base, r[2]), r[3], r[4], r[5])
        if k == 'tup':
            return tuple(self.ev(base, o) for o in r[1])
        if k == 'adt':
            t, var = r[1], r[2]
            vals = tuple(self.ev(base, o) for o in r[3])
            fe = self.fe_of(t)
            if fe:
                return fe.build(self, vals)
            if t.k == 'enum':
                return En(var, vals)
            return vals
        if k == 'repeat':
            v = self.ev(base, r[1])
            return (v,) * r[2]
        if k == 'un':
            return self.unop(r[1], self.ev(base, r[2]), r[3])
        if k == 'discr':
            return self.discr(self.read_place(base, r[1]), r[1][2])
        if k == 'len':
            p = self.place_ptr(base, r[1])
            return p.meta if p.meta is not None else r[1][2].d['len']
        if k == 'rawptr':
            p, m = self.ev(base, r[1][0]), self.ev(base, r[1][1])
            if m == () or m is None:
                return p
            def f(p, m):
                if not isinstance(p, Ptr):
                    if m == 0:
                        return Ptr(self.new_cell(()), (0,), 0)
                    raise Unsupported(f'slice from {p!r}')
                path = p.path
                if path and isinstance(path[-1], tuple) and path[-1][0] == 'asarr':
                    path = path[:-1]
                if not path:
                    # slice of one element over a scalar cell
                    return Ptr(p.cell, (('one',),), m)
                if isinstance(path[-1], Sub):
                    return Ptr(p.cell, path[:-1] + (path[-1].s,), m)
                return Ptr(p.cell, path, m)
            return self.lift(f, p, m)
        if k == 'v':
            return r[1]
        raise Unsupported(f'rvalue {k}')

    def checked(self, op, a, b, t):
        if isinstance(a, G) or isinstance(b, G):
            return self.lift(lambda x, y: self.checked(op, x, y, t), a, b)
        if type(a) is int and type(b) is int:
            x = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}.get(op)
            if x is None:
                return (self.ibin(op, a, b, t, None), 0)
            y = self.wrap(x, t)
            return (y, int(x != y))
        if self.dom is not None:
            return self.dom.checked(self, op, a, b, t)
        raise Unsupported(f'checked {op} on {a!r} {b!r}')

    def asserts(self, cond, expected, msg, span):
        n = self.bnode(cond)
        if not expected:
            n = self.bdd.Not(n)
        bad = self.bdd.And(self.pc, self.bdd.Not(n))
        if bad:
            self.event('panic', bad, msg, span)
        self.pc = self.bdd.And(self.pc, n)
        if self.pc == 0:
            raise Diverge(msg)

    def event(self, kind, cond, msg, span=None):
        st = [(f.name, s) for f, s in self.stack]
        self.events.append((kind, cond, msg, st, self.P.loc(span) if span else None))

    def site(self):
        """innermost stack entry inside halo2curves, for reports"""
        for f, s in reversed(self.stack):
            if f.crate == 'halo2curves':
                return f'{f.name} ({self.P.loc(s) if s else f.span[0]})'
        return '?'

    # ---- calls -------------------------------------------------------------------------------
    def find_summary(self, fn):
        s = self.sumcache.get(fn.id, 0)
        if s == 0:
            s = self.summaries.get(fn.name) or self.summaries.get(fn.defn)
            if s is None:
                for pred, h in self.prefix_summaries:
                    if pred(fn):
                        s = h
                        break
            self.sumcache[fn.id] = s
        return s

    def call(self, fid, args, span=None):
        fn = self.P.fns[fid]
        s = self.find_summary(fn)
        if s is not None:
            self.stack.append((fn, None))
            try:
                r = s(self, fn, args)
            finally:
                self.stack.pop()
            if r is not NotImplemented:
                return r
        if fn.kind == 'intrinsic' and fn.raw is None:
            raise Unsupported(f'intrinsic {fn.intr}')
        if fn.kind == 'virtual' and args and isinstance(args[0], Ptr) and isinstance(args[0].meta, tuple) and args[0].meta[0] == 'dyn':
            m = dict(args[0].meta[2]).get(fn.vidx)
            if m is not None:
                return self.call(m, [Ptr(args[0].cell, args[0].path)] + list(args[1:]), span)
        if fn.raw is None:
            raise Unsupported(f'no body for {fn.name}')
        if self.post is not None:
            return self.post(self, fn, args, self.interp(fn, args))
        return self.interp(fn, args)

    def interp(self, fn, args):
        if fn.compiled is None:
            self.prepare(fn)
        if fn.is_closure and args and isinstance(args[-1], (tuple, G)):
            last = args[-1]
            if len(args) - 1 + (len(last) if isinstance(last, tuple) else 0) == fn.argc and isinstance(last, tuple):
                args = list(args[:-1]) + list(last)
        if fn.spread is not None and len(args) != fn.argc:
            args = list(args[:fn.spread - 1]) + [tuple(args[fn.spread - 1:])]
        if len(args) != fn.argc:
            raise Unsupported(f'arity mismatch calling {fn.name}: {len(args)} vs {fn.argc}')
        self.visited[fn.id] = self.visited.get(fn.id, 0) + 1
        n = len(fn.locals)
        base = self.next_cell
        self.next_cell += n
        mem = self.mem
        for i in range(n):
            mem[base + i] = UNDEF
        for i, a in enumerate(args):
            mem[base + 1 + i] = a
        # zero-sized locals never written
        fr = [fn, base, None]
        self.stack.append((fn, None))
        depth = len(self.stack)
        if depth > 400:
            self.stack.pop()
            raise Runaway('call depth')
        try:
            self.run(fn, base, 0, EXIT)
            r = self.mem[base]
        except Unsupported as e:
            if not getattr(e, 'trace', None):
                e.trace = [(f.name, self.P.loc(s) if s else None) for f, s in self.stack]
            raise
        finally:
            self.stack.pop()
            m = self.mem
            for i in range(n):
                m.pop(base + i, None)
        if r is UNDEF:
            rt = self.P.types[fn.locals[0]]
            if rt.size == 0:
                r = self.zst(rt)
        return r

    def run(self, fn, base, bb, stop):
        blocks = fn.blocks
        while True:
            if bb == stop:
                return
            if self.heads is not None and (fn.id, bb) in self.heads:
                self.heads[(fn.id, bb)](self, fn, base, bb)
            stmts, t, sp = blocks[bb]
            self.steps += 1 + len(stmts)
            if self.steps > self.max_steps:
                raise Unsupported('step budget exceeded')
            for s in stmts:
                k = s[0]
                if k == '=':
                    self.stack[-1] = (fn, s[3])
                    v = self.rv(fn, base, s[2])
                    pl = s[1]
                    if not pl[1]:
                        self.mem[base + pl[0]] = v
                    else:
                        self.write_place(base, pl, v)
                elif k == 'dead':
                    self.mem[base + s[1]] = UNDEF
                elif k == 'sd':
                    old = self.read_place(base, s[1])
                    f = old.f if isinstance(old, En) and old.v == s[2] else ()
                    self.write_place(base, s[1], En(s[2], f))
                elif k == 'cno':
                    self.copy_nonoverlapping(self.ev(base, s[1]), self.ev(base, s[2]), self.ev(base, s[3]))
            self.stack[-1] = (fn, sp)
            k = t[0]
            if k == 'goto':
                bb = t[1]
            elif k == 'return':
                return
            elif k == 'call':
                callee = t[1]
                args = [self.ev(base, o) for o in t[3]]
                if callee is None:
                    f = self.ev(base, t[2])
                    r = self.call_value(f, args)
                else:
                    r = self.call(callee, args, sp)
                if t[5] is None:
                    raise Diverge('noreturn')
                pl = t[4]
                if not pl[1]:
                    self.mem[base + pl[0]] = r
                else:
                    self.write_place(base, pl, r)
                bb = t[5]
            elif k == 'switch':
                bb = self.switch(fn, base, bb, t, stop)
                if bb is None:
                    return
            elif k == 'assert':
                self.asserts(self.ev(base, t[1]), t[2], 'assert: ' + str(t[3][0]) + (' ' + str(t[3][1]) if t[3][0] == 'other' else ''), sp)
                bb = t[4]
            elif k == 'drop':
                if t[3] is not None and self.drops(t[3]):
                    self.call(t[3], [self.place_ptr(base, t[1])], sp)
                bb = t[2]
            elif k == 'asm':
                self.asm(fn, base, t)
                bb = t[4]
            elif k == 'unreachable':
                raise Diverge('unreachable')
            elif k in ('resume', 'abort'):
                raise Diverge(k)
            else:
                raise Unsupported(f'terminator {k}')

    def drops(self, fid):
        """does this drop glue have an effect the analysis tracks? (Vec length guards)"""
        r = self.dropmemo.get(fid)
        if r is None:
            self.dropmemo[fid] = False
            f = self.P.fns[fid]
            r = f.name.startswith('<std::vec::set_len_on_drop')
            if not r:
                for st, t, sp in f.raw or []:
                    x = None
                    if t[0] == 'drop':
                        x = t[3]
                    elif t[0] == 'call' and t[1]['o'] == 'k' and self.P.types[t[1]['t']].k == 'fndef':
                        x = self.P.types[t[1]['t']].d['fn']
                    if x is not None and self.drops(x):
                        r = True
                        break
            self.dropmemo[fid] = r
        return r

    def asm(self, fn, base, t):
        if self.dom is None:
            raise Unsupported('inline asm')
        self.dom.asm(self, fn, base, t)

    def call_value(self, f, args):
        if isinstance(f, FnV):
            return self.call(f.fn, args)
        if isinstance(f, G):
            raise Unsupported('gated function pointer')
        raise Unsupported(f'call through {f!r}')

    def copy_nonoverlapping(self, src, dst, n):
        if n == 0:
            return
        if not isinstance(n, int):
            raise Unsupported('symbolic copy length')
        if n == 1 and isinstance(src, Ptr) and (not src.path or not isinstance(src.path[-1], int)):
            self.store(dst, self.load(src))
            return
        vals = [self.load(self.ptr_off(src, i)) for i in range(n)]
        for i, v in enumerate(vals):
            self.store(self.ptr_off(dst, i), v)

    def switch(self, fn, base, bb, t, stop):
        v = self.ev(base, t[1])
        targets, other, ty = t[2], t[3], t[4]
        if type(v) is int:
            u = v if v >= 0 else v & ((1 << ty.bits) - 1)
            for val, tb in targets:
                if val == u:
                    return tb
            return other
        parts = []
        rest = 1
        D = self.bdd
        for val, tb in targets:
            c = self.eq_const(v, val, ty)
            parts.append((c, tb))
            rest = D.And(rest, D.Not(c))
        parts.append((rest, other))
        byt = {}
        for c, tb in parts:
            byt[tb] = D.Or(byt.get(tb, 0), c)
        live = [(c, tb) for tb, c in byt.items() if D.And(self.pc, c)]
        if not live:
            raise Diverge('infeasible')
        if len(live) == 1:
            return live[0][1]
        ip = fn.ipdom.get(bb, EXIT)
        if bb not in fn.ipdom:
            ip = EXIT
        key = (fn.id, base, bb)
        self.loopcount[key] = self.loopcount.get(key, 0) + 1
        if self.loopcount[key] > self.max_iter:
            raise Unsupported('unbounded loop')
        mem0, pc0 = self.mem, self.pc
        outs = []
        sp = self.stack[-1]
        for c, tb in live:
            self.mem = dict(mem0)
            self.pc = D.And(pc0, c)
            self.stack[-1] = sp
            depth = len(self.stack)
            try:
                self.refine(v, c)
                self.run(fn, base, tb, ip)
            except Diverge:
                del self.stack[depth:]
                continue
            outs.append((self.pc, self.mem))
        if not outs:
            raise Diverge('all branches diverge')
        self.stack[-1] = sp
        self.loopcount[key] -= 1
        if len(outs) == 1:
            self.pc, self.mem = outs[0]
        else:
            pc = 0
            for c, _ in outs:
                pc = D.Or(pc, c)
            self.pc = pc
            # a local that is dead at the join has no value there
            if ip == EXIT:
                dead = range(base + 1, base + len(fn.locals))
            else:
                dead = [base + l for l in fn.dead[ip]] if fn.dead is not None else ()
            for _, m in outs:
                for x in dead:
                    m[x] = UNDEF
            self.mem = self.merge_mem(mem0, outs)
        if ip == EXIT:
            return None
        return ip

    def refine(self, v, c):
        if self.dom is not None:
            self.dom.refine(self, v, c)

    def merge_mem(self, mem0, outs):
        keys = set()
        for _, m in outs:
            keys.update(m.keys())
        res = {}
        first = outs[0][1]
        for k in keys:
            vals = []
            same = True
            v0 = first.get(k, UNDEF)
            for c, m in outs:
                x = m.get(k, UNDEF)
                if x is not v0:
                    same = False
                vals.append((c, x))
            if same:
                res[k] = v0
                continue
            vals = [(c, x) for c, x in vals if x is not UNDEF]
            if not vals:
                res[k] = UNDEF
            elif len(vals) == 1:
                res[k] = vals[0][1]
            else:
                res[k] = self.mkg(vals)
        return res

    def eq_const(self, v, val, ty):
        """BDD node of v == val"""
        if type(v) is int:
            u = v if v >= 0 or not ty or not ty.bits else v & ((1 << ty.bits) - 1)
            return 1 if u == val else 0
        if isinstance(v, B):
            return v.n if val == 1 else self.bdd.Not(v.n) if val == 0 else 0
        if isinstance(v, G):
            r = 0
            for g, x in v.alts:
                r = self.bdd.Or(r, self.bdd.And(g, self.eq_const(x, val, ty)))
            return r
        if self.dom is not None:
            return self.bnode(self.dom.binop(self, 'Eq', v, val, ty, ty))
        raise Unsupported(f'switch on {v!r}')


class BigArr:
    """large constant array, decoded lazily"""
    def __init__(self, eng, ety, hx, n):
        self.e = eng
        self.t = ety
        self.hx = hx
        self.n = n
    def __len__(self):
        return self.n
    def item(self, i):
        return self.e.decode(self.t, self.hx, {}, i * self.t.size)
