"""C25 conversions into and out of prime fields agree with the integers"""
from conv import *

OPS = {'from_raw', 'from_u64', 'from_u128', 'from_bool', 'char_bits', 'le_bits'}


def main():
    chk = Check('C25', 'abstract interpretation of MIR in an exact limb-polynomial domain',
                'result is canonical and congruent to the (little-endian) input integer',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'std slice/Vec/iterator behaviour'])
    for tag, P in dumps():
        items = prime_items(P, tag, lambda p: p[2] == 'p' and p[4] in OPS or p[2] == 'u')
        run_items(P, chk, items, lambda P, it, fid: (check_codec if it[0].endswith('le_bits') else check_int)(P, it[0], fid), 'integer conversion')
    chk.finish()
