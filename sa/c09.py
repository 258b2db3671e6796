"""C09 prime-field encodings are canonical"""
from conv import *

OPS = {'to_repr', 'to_bytes', 'end_to_bytes', 'into_repr', 'into_repr_r', 'raw_to', 'raw_write', 'from_repr', 'from_bytes', 'from_repr_vartime',
       'end_from_bytes', 'raw_from', 'raw_read', 'raw_from_un', 'raw_read_un'}


def main():
    chk = Check('C09', 'abstract interpretation of MIR in an exact limb-polynomial domain',
                'decoder acceptance is exactly "integer < modulus"; accepted value and encoded digits equal the canonical integer',
                trusted=['this analyser and the MIR dump driver', 'rustc', 'std slice/Vec/io behaviour'])
    for tag, P in dumps():
        items = prime_items(P, tag, lambda p: p[2] == 'p' and p[4] in OPS)
        run_items(P, chk, items, lambda P, it, fid: check_codec(P, it[0], fid), 'canonical encoding')
        if tag == 'generic':
            items = []
            for (r, t), i in prime_items(P, tag, lambda p: p[2] == 'p' and p[4] in ('raw_from', 'raw_read')):
                n = pm.FIELDS['halo2curves::' + ftype_of(P, r)][2] * 8
                for ln in ([0, 1, 7, 8, n - 8, n - 1] + ([n + 1, n + 8, 2 * n] if r.endswith('raw_from') else [])):
                    items.append(((r, ln), i))
            run_items(P, chk, items, check_len, 'wrong-length input refused')
    chk.finish()
