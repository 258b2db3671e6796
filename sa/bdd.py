"""Reduced ordered BDDs: the condition domain of the analyser.

A condition is a node id (0 = false, 1 = true); atoms are registered with a hashable key.  Atoms are
uninterpreted except for the facts the analyser adds itself (e.g. "x is zero" under a guard)."""

class BDD:
    def __init__(self):
        self.nodes = [None, None]          # id -> (var, lo, hi)
        self.uniq = {}
        self.memo = {}
        self.atoms = []                    # var -> key
        self.atom_ids = {}

    def atom(self, key):
        v = self.atom_ids.get(key)
        if v is None:
            v = len(self.atoms)
            self.atoms.append(key)
            self.atom_ids[key] = v
        return self._mk(v, 0, 1)

    def _mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        nodes = self.nodes
        v = nodes[f][0]
        if g > 1 and nodes[g][0] < v:
            v = nodes[g][0]
        if h > 1 and nodes[h][0] < v:
            v = nodes[h][0]
        def cof(n):
            if n > 1 and nodes[n][0] == v:
                return nodes[n][1], nodes[n][2]
            return n, n
        f0, f1 = cof(f)
        g0, g1 = cof(g)
        h0, h1 = cof(h)
        r = self._mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def And(self, a, b):
        return self.ite(a, b, 0)

    def Or(self, a, b):
        return self.ite(a, 1, b)

    def Not(self, a):
        return self.ite(a, 0, 1)

    def Xor(self, a, b):
        return self.ite(a, self.Not(b), b)

    def restrict(self, n, v, val):
        """cofactor of n by variable v := val"""
        if n < 2:
            return n
        k = ('r', n, v, val)
        r = self.memo.get(k)
        if r is not None:
            return r
        x, lo, hi = self.nodes[n]
        if x > v:
            r = n
        elif x == v:
            r = hi if val else lo
        else:
            r = self._mk(x, self.restrict(lo, v, val), self.restrict(hi, v, val))
        self.memo[k] = r
        return r

    def project(self, n, keep, memo=None):
        """the weakest condition on the variables keep that n implies (all other variables quantified existentially)"""
        top = max(keep) if keep else -1
        memo = {} if memo is None else memo
        nodes = self.nodes
        def go(x):
            if x < 2:
                return x
            v, lo, hi = nodes[x]
            if v > top:
                return 1
            r = memo.get(x)
            if r is None:
                if v in keep:
                    r = self._mk(v, go(lo), go(hi))
                else:
                    r = go(lo)
                    if r != 1:
                        r = self.Or(r, go(hi))
                memo[x] = r
            return r
        return go(n)

    def eval(self, n, true):
        """value of n when exactly the given variables are true"""
        while n > 1:
            v, lo, hi = self.nodes[n]
            n = hi if v in true else lo
        return n

    def support(self, n):
        out = set()
        st = [n]
        seen = set()
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st.append(lo)
            st.append(hi)
        return out

    def cubes(self, n, limit=4096):
        """all paths to true, as lists of (var, bool)"""
        out = []
        st = [(n, ())]
        while st:
            x, c = st.pop()
            if x == 0:
                continue
            if x == 1:
                out.append(c)
                if len(out) > limit:
                    raise OverflowError('too many cubes')
                continue
            v, lo, hi = self.nodes[x]
            st.append((lo, c + ((v, False),)))
            st.append((hi, c + ((v, True),)))
        return out

    def show(self, n, limit=6):
        if n == 0:
            return 'false'
        if n == 1:
            return 'true'
        cs = self.cubes(n, 100000)
        s = []
        for c in cs[:limit]:
            s.append(' & '.join(('' if b else '!') + str(self.atoms[v]) for v, b in c))
        return ' | '.join(s) + (' | ...' if len(cs) > limit else '')
