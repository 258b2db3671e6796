"""C11 uncompressed and raw point encodings"""
import c10


def main():
    c10.run('C11', c10.REST, 'uncompressed and raw encodings equal their byte-level specification; checked decoders accept exactly curve points')
