"""Summaries of rayon: a parallel operation runs its closures in some order; the closures given to it are data-race free
(the program is accepted by the borrow checker), so any sequential order gives the same result."""
from lib import *


class ParV:
    """a parallel iterator: the items it yields, in index order"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def __eq__(self, o): return isinstance(o, ParV) and o.items == self.items
    def __hash__(self): return hash(('ParV', self.items))
    def __repr__(self): return f'par{list(self.items)!r}'


def install(eng, threads, vec=None):
    """threads: number of worker threads reported by rayon"""
    P, T = eng.P, eng.P.types

    def closure(t):
        f = t.d.get('fn') if t.k in ('closure', 'fndef') else None
        if f is None:
            raise Unsupported(f'parallel closure {t.s}'[:120])
        return f

    def invoke(t, env, *args):
        """call a closure (or function item) value of type t"""
        f = closure(t)
        if t.k == 'fndef':
            return eng.call(f, list(args))
        return eng.call(f, [env, *args])

    def tyargs(fn):
        return [T[i] for i in fn.args]

    def join(e, fn, a):
        ts = tyargs(fn)
        x = invoke(ts[0], a[0], ())
        y = invoke(ts[1], a[1], ())
        return (x, y)

    def nthreads(e, fn, a):
        return threads

    def clos(fn, env):
        """the closure type among the generic arguments (a parameter that is not the iterator itself)"""
        c = [t for t in tyargs(fn) if t.k in ('closure', 'fndef') and t.d.get('fn') is not None]
        if len(c) == 1:
            return c[0]
        if isinstance(env, FnV):
            return None
        raise Unsupported(f'closure of {fn.name}'[:120])

    def app(fn, env, *args):
        if isinstance(env, FnV):
            return eng.call(env.fn, list(args))
        if isinstance(env, tuple) and len(env) == 2 and env[0] == 'closurefn':
            return eng.call(closure(T[env[1]]), [(), *args])
        return invoke(clos(fn, env), env, *args)

    def scope(e, fn, a):
        return app(fn, a[0], e.ref(()))

    def spawn(e, fn, a):
        app(fn, a[1], e.ref(()))
        return ()

    def isvec(v):
        try:
            return isinstance(v[0][0][0], Ptr) and type(v[1]) is int and len(v) == 2
        except (TypeError, IndexError):
            return False

    def items(v):
        if isinstance(v, ParV):
            return v.items
        if isinstance(v, Ptr) and type(v.meta) is int:
            return tuple(e_off(v, i) for i in range(v.meta))
        if isinstance(v, tuple) and len(v) == 2 and all(type(x) is int for x in v):
            return tuple(range(v[0], v[1]))
        if isinstance(v, Ptr):
            x = eng.load(v)
            if isvec(x):
                return tuple(e_off(x[0][0][0], i) for i in range(x[1]))
        if isvec(v):
            return tuple(eng.load(e_off(v[0][0][0], i)) for i in range(v[1]))
        raise Unsupported(f'parallel iterator over {v!r}'[:120])

    def e_off(p, i):
        q = eng.ptr_off(p, i)
        return Ptr(q.cell, q.path)

    def into(e, fn, a): return ParV(items(a[0]))
    def enum(e, fn, a): return ParV((i, x) for i, x in enumerate(items(a[0])))
    def rev(e, fn, a): return ParV(reversed(items(a[0])))
    def zipp(e, fn, a): return ParV(zip(items(a[0]), items(a[1])))
    def pmap_(e, fn, a): return ParV([app(fn, a[1], x) for x in items(a[0])])
    def chunks(e, fn, a):
        p, n = a[0], a[1]
        if not isinstance(p, Ptr) or type(p.meta) is not int or type(n) is not int:
            raise Unsupported('parallel chunks')
        out = []
        for i in range(0, p.meta, n):
            q = eng.ptr_off(p, i)
            out.append(Ptr(q.cell, q.path, min(n, p.meta - i)))
        return ParV(out)
    def each(e, fn, a):
        for x in items(a[0]):
            app(fn, a[1], x)
        return ()
    def collect(e, fn, a):
        v = items(a[0])
        rt = T[fn.args[-1]]
        if 'Vec<' not in rt.s or vec is None:
            raise Unsupported(f'parallel collect into {rt.s}'[:120])
        return vec(v)

    M = {'into_par_iter': into, 'par_iter': into, 'par_iter_mut': into, 'enumerate': enum, 'rev': rev, 'zip': zipp, 'map': pmap_,
         'for_each': each, 'collect': collect, 'par_chunks': chunks, 'par_chunks_mut': chunks}
    S = {'rayon_core::join::join': join, 'rayon::join': join, 'rayon_core::current_num_threads': nthreads, 'rayon::current_num_threads': nthreads,
         'rayon_core::scope::scope': scope, 'rayon::scope': scope}

    cache = {}
    def find(fn):
        d = fn.defn
        if d in S:
            return S[d]
        if not (d.startswith('rayon') or d.startswith('<rayon')):
            return None
        if d.startswith('rayon_core::scope::Scope') and d.endswith('::spawn'):
            return spawn
        m = d.split('::')[-1]
        return M.get(m)

    def pred(fn):
        if fn.id not in cache:
            cache[fn.id] = find(fn)
        return cache[fn.id] is not None
    eng.prefix_summaries.append((pred, lambda e, fn, a: cache[fn.id](e, fn, a)))
