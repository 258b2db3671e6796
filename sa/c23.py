"""C23 order, lexicographic largest and parity follow the canonical integer"""
from conv import *

OPS = {'is_odd', 'is_even', 'lex', 'cmp', 'lt'}


def main():
    chk = Check('C23', 'abstract interpretation of MIR in an exact limb-polynomial domain',
                'the returned condition is equivalent to the comparison of canonical integers',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'std iterator behaviour'])
    for tag, P in dumps():
        items = prime_items(P, tag, lambda p: p[2] == 'p' and p[4] in OPS)
        run_items(P, chk, items, lambda P, it, fid: check_order(P, it[0], fid), 'order of canonical integers')
    chk.finish()
