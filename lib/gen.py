"""Seeded generators of scripts shared by several checks."""
ASCII_WORD = [97, 98, 90, 48, 57, 45, 95]
SEPS = [32, 46, 47, 92, 10, 9, 13]
OTHER = [33, 123, 40, 39, 35]
UNI_W = [233, 223, 178, 19990, 1635, 913, 12354, 66560]
UNI_O = [8364, 128512, 8212, 160, 769]
CHARS = ASCII_WORD * 3 + SEPS * 2 + OTHER + UNI_W + UNI_O


def text(rng, n, chars=CHARS):
    return [rng.choice(chars) for _ in range(n)]


def tok(cps):
    return ",".join(map(str, cps)) if cps else "-"
