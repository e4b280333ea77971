"""LEB128 decoding compared with the definition (sa/ref/leb128.c)."""
from . import refs

BOUNDARY = []


def check(ctx, rep, rule, names=None):
    return refs.check(ctx, rep, rule, "leb128", "lib/leb128.c", BOUNDARY,
                      names=names, own=True)
