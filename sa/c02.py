"""C02 published constants of the fields are what they claim to be"""
from conv import *
from c01 import ftype_of, prime_items
import facts, summ

INTS = {'num_bits', 'capacity', 's', 'size', 'num_limbs'}
ELTS = {'two_inv', 'mul_gen', 'root', 'root_inv', 'delta', 'zeta'}
OPS = INTS | ELTS | {'modulus'}
TWO = {'bn_fq2': 'bn256::Fq', 'bls_fq2': 'bls12381::Fq', 'pl_fp2': 'pluto_eris::Fp'}


def val(c, v):
    w = flat(v, c.n)
    if any(type(x) is not int for x in w):
        raise Unsupported('constant is not a literal')
    x = sum(l << (64 * i) for i, l in enumerate(w))
    if x >= c.p:
        raise Bad(f'{hex(x)} is not a canonical representation')
    return x * pow(c.R, -1, c.p) % c.p


def const(c, P, root):
    v = c.eng.call(P.roots[root], [])
    if any(e[0] == 'panic' for e in c.eng.events):
        raise Bad('evaluating the constant panics')
    return v


def check(P, root, fid):
    parts = root.split('::')
    op = parts[-1]
    two = parts[2] == 'q'
    short = TWO[parts[3]] if two else ftype_of(P, root)
    c = LCtx(P, 'halo2curves::' + short)
    p = c.p
    get = lambda o: const(c, P, '::'.join(parts[:-1] + [o]))
    S = ((p - 1) & -(p - 1)).bit_length() - 1
    if op in INTS:
        v = get(op)
        want = {'num_bits': p.bit_length(), 'capacity': p.bit_length() - 1, 's': S, 'size': 8 * c.n * (2 if two else 1), 'num_limbs': c.n}[op]
        if v != want:
            raise Bad(f'{op} is {v}, expected {want}')
        return c
    if op == 'modulus':
        s = summ.const_str(c.eng, get(op))
        if not s.startswith('0x') or s.lower() != s or int(s, 16) != p or len(s) % 2:
            raise Bad(f'MODULUS is {s!r}, expected {hex(p)}')
        return c

    def elem(o):
        v = get(o)
        if two:
            if not (isinstance(v, tuple) and len(v) == 2):
                raise Unsupported('shape of the extension element')
            a, b = val(c, v[0]), val(c, v[1])
            if b != 0:
                raise Bad(f'{o} is ({hex(a)}, {hex(b)}), expected an element of the base field')
            return a
        return val(c, v)
    v = elem(op)
    if op == 'two_inv' and 2 * v % p != 1:
        raise Bad(f'TWO_INV is {hex(v)}; twice it is not 1')
    if op == 'zeta' and (v == 1 or pow(v, 3, p) != 1):
        raise Bad(f'ZETA is {hex(v)}: not a primitive cube root of unity')
    if op == 'mul_gen':
        if v == 0 or pow(v, (p - 1) // 2, p) == 1:
            raise Bad(f'MULTIPLICATIVE_GENERATOR {hex(v)} is a square')
        for q in facts.prime_factors(short, p - 1):
            if pow(v, (p - 1) // q, p) == 1:
                raise Bad(f'MULTIPLICATIVE_GENERATOR {hex(v)} is a {q}-th power, so it does not generate the group')
    if op == 'root':
        if pow(v, 1 << S, p) != 1 or pow(v, 1 << (S - 1), p) == 1:
            raise Bad(f'ROOT_OF_UNITY {hex(v)} does not have order 2^{S}')
        if not two and v != pow(elem('mul_gen'), (p - 1) >> S, p):
            raise Bad(f'ROOT_OF_UNITY {hex(v)} is not GENERATOR^((p-1)/2^S)')
    if op == 'root_inv' and v * elem('root') % p != 1:
        raise Bad(f'ROOT_OF_UNITY_INV {hex(v)} is not the inverse of ROOT_OF_UNITY')
    if op == 'delta':
        if two:
            g = val(c, const(c, P, '::'.join(['probe', 'prime', 'p', {'bn_fq2': 'bn_fq', 'bls_fq2': 'bls_fq', 'pl_fp2': 'pl_fp'}[parts[3]], 'mul_gen'])))
        else:
            g = elem('mul_gen')
        if v != pow(g, 1 << S, p):
            raise Bad(f'DELTA {hex(v)} is not GENERATOR^(2^S)')
    return c


def main():
    chk = Check('C02', 'constant evaluation of the MIR of every published field constant',
                'the evaluated constant satisfies its defining equation modulo the published prime',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'factorisations of p-1 listed in sa/facts.py (each factor re-tested for primality)'])
    for tag, P in dumps():
        items = prime_items(P, tag, lambda p: (p[2] in 'pq') and p[-1] in OPS)
        run_items(P, chk, items, lambda P, it, fid: check(P, it[0], fid), 'constant satisfies its definition')
    chk.notes.append(facts.note())
    chk.finish()
