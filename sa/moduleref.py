"""The module decoder compared with sa/ref/module.c."""
from . import refs

BOUNDARY = """read_leb_u32 read_leb_i32 read_vec array_extend array_shrink
mem_alloc mem_zalloc mem_calloc mem_free bitmap_set bitmap_alloc bitmap_free
valtype_cellsize resulttype_cellsize module_tabletype module_functype
compare_name push_ctrlframe fetch_process_next_insn fetch_validate_next_insn
validation_context_init validation_context_reuse _vec_prealloc qsort
get_section_type""".split()


# arguments that matter: names are only for messages
MATTER = {"read_section": {0, 1, 3, 4}}


def check(ctx, rep, rule, names):
    refs.check(ctx, rep, rule, "module", "lib/module.c", BOUNDARY, MATTER,
               names=names, own=True)
