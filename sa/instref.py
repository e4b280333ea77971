"""Types, imports, instances and host-function helpers compared with
sa/ref/instance.c."""
from . import refs

BOUNDARY = """trap_with_id mem_alloc mem_zalloc mem_calloc mem_free
mem_context_init mem_context_clear clear_functype clear_resulttype
bitmap_alloc bitmap_free _vec_resize _vec_free valtype_cellsize
resulttype_cellsize escape_name escaped_string_clear table_instance_create
exec_const_expr table_init memory_init elem_drop data_drop invoke
exec_context_init exec_context_clear exec_expr_continue suspend_parked
memory_instance_getptr2 waiter_list_table_init toywasm_mutex_init
toywasm_mutex_destroy table_get_func exec_expr exec_pop_vals
exec_options_set_defaults report_clear""".split()


def check(ctx, rep, rule, names):
    refs.check(ctx, rep, rule, "instance", "lib/instance.c", BOUNDARY,
               ignore={"trap_with_id": {0, 1}},
               retval={"trap_with_id": -1}, mute=("memtype_page_size",), names=names, own=True)
