"""The functions that charge and credit a memory context, and the containers
that resize their storage, are turned into value graphs on compiler IR and
compared with their definitions in sa/ref/base.c."""
from .. import baseref

FUNCS = """mem_context_init mem_context_setlimit mem_reserve mem_reserve_one
mem_unreserve mem_unreserve_one mem_alloc mem_calloc mem_zalloc mem_free
mem_shrink mem_extend mem_extend_zero array_extend array_shrink _vec_resize
_vec_prealloc _vec_free bitmap_alloc bitmap_free""".split()


def check(ctx, rep):
    rep.rule("accounting", "every allocation, resize and release charges and "
             "credits exactly its size, all the way up or not at all")
    baseref.check(ctx, rep, "accounting", FUNCS)
