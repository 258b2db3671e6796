"""Arithmetic facts about the published primes: prime factors of p-1, re-verified whenever they are used."""
import random
import params as pm

# prime factors of p-1 (distinct). 
FACT = {
    'bls12381::Fr': [2, 3, 11, 19, 10177, 125527, 859267, 906349, 2508409, 2529403, 52437899, 254760293],
    'bn256::Fq': [2, 3, 13, 29, 67, 229, 311, 983, 11003, 405928799, 11465965001, 13427688667394608761327070753331941386769],
    'bn256::Fr': [2, 3, 13, 29, 983, 11003, 237073, 405928799, 1670836401704629, 13818364434197438864469338081],
    'secp256r1::Fq': [2, 3, 71, 131, 373, 3407, 17449, 38189, 187019741, 622491383, 1002328039319, 2624747550333869278416773953],
    'secp256r1::Fp': [2, 3, 5, 17, 257, 641, 1531, 65537, 490463, 6700417, 835945042244614951780389953367877943453916927241],
    'secp256k1::Fp': [2, 3, 7, 13441, 205115282021455665897114700593932402728804164701536103180137503955397371],
    'secp256k1::Fq': [2, 3, 149, 631, 107361793816595537, 174723607534414371449, 341948486974166000522343609283189],
    'bls12381::Fq': [2, 3, 11, 23, 47, 10177, 859267, 52437899, 2584487767265781317813,
                     15778400344354997994418419698270088123916926905054652752758194827714659],
    'pluto_eris::Fp': [2, 3, 17, 67, 293, 349, 1997, 19556633, 44179799701097,
                       1461985442088199434216480729118540833655826472878315075486478169293801719414121837587283877],
    'pluto_eris::Fq': [2, 3, 29, 67, 293, 349, 1997, 4481, 44179799701097, 5580686559493491521,
                       18096277472748244729518088747392459898159629320140432033219842230958001701259],
}


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    rnd = random.Random(n)
    for a in [2, 3, 5, 7, 11, 13] + [rnd.randrange(2, n - 1) for _ in range(24)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime_factors(short, m):
    out = []
    for q in FACT[short]:
        assert is_prime(q) and m % q == 0, (short, q)
        out.append(q)
    return out


def complete(short):
    p = pm.FIELDS['halo2curves::' + short][1]
    m = p - 1
    for q in FACT[short]:
        while m % q == 0:
            m //= q
    return m == 1


def note():
    return {s: 'complete' if complete(s) else 'partial' for s in FACT}
