"""The functions that read numbers, vectors, names, sections and bodies from a
module are turned into value graphs on compiler IR and compared with their
definitions in sa/ref/module.c and sa/ref/leb128.c, which read a byte only
after comparing the position with the end of the enclosing part."""
from .. import lebref, moduleref

FUNCS = """read_u8 read_u32 read_u64 read_vec_count read_vec_u32
_read_vec_with_ctx_impl section_load read_name check_utf8 read_valtype
read_resulttype read_limits read_locals read_func read_expr_common
cellidx_alloc populate_resulttype_cellidx populate_localtype_cellidx
read_data read_element read_import_info read_dylink_mem_info
read_dylink_needs read_dylink_0_section read_name_section""".split()


def check(ctx, rep):
    rep.rule("leb", "a variable-length number is read inside the input, "
             "within its maximum length and range")
    lebref.check(ctx, rep, "leb")
    rep.rule("bounds", "what is read was compared with the end of the "
             "enclosing part; what is written fits what was allocated")
    moduleref.check(ctx, rep, "bounds", FUNCS)
