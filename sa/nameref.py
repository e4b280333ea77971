"""Names for messages compared with sa/ref/names.c."""
from . import refs

BOUNDARY = """read_leb_u32 read_leb_u32_nocheck read_name mem_free
mem_context_init mem_context_clear _read_vec_with_ctx_impl
set_name_cstr ptr2pc""".split()


def check(ctx, rep, rule, names):
    refs.check(ctx, rep, rule, "names", "lib/name.c", BOUNDARY, names=names,
               own=True)
