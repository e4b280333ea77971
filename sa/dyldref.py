"""The dynamic linker compared with sa/ref/dyld.c."""
from . import refs

BOUNDARY = """compare_name dyld_options_set_defaults slist_head_init
slist_insert_tail slist_remove_head xstrnstr mem_alloc mem_zalloc mem_calloc
mem_free mem_context_init mem_context_clear import_object_alloc
import_object_destroy import_object_create_for_dyld
import_object_create_for_host_funcs memory_grow table_grow
memory_instance_create memory_instance_destroy table_instance_create
table_instance_destroy table_get table_set table_get_func global_get
global_set instance_create instance_destroy module_create module_destroy
module_find_export module_functype functype_from_string functype_free
exec_context_init exec_context_clear instance_execute_func
instance_execute_handle_restart load_context_init load_context_clear
report_init report_clear map_file unmap_file _vec_prealloc _vec_free
funcinst_functype host_func_getptr host_func_copyout vals_from_cells
val_to_cells resulttype_cellidx memtype_page_shift dyld_plt
dyld_dlfcn_load_object dyld_dlfcn_resolve_symbol
is_GOT_mem_import is_GOT_func_import is_binding_weak import_memory_type
dyld_find_object_by_name dyld_search_and_load_object_from_file
dyld_load_object_from_file dyld_load_needed_objects dyld_create_got
dyld_allocate_memory dyld_allocate_table dyld_allocate_stack
dyld_allocate_heap dyld_allocate_table_for_obj_exports dyld_object_destroy
dyld_execute_obj_init_func1 dyld_execute_obj_init_func tsort_visit
dyld_execute_all_init_funcs dyld_create_shared_resources
dyld_create_shared_import_objects find_global dyld_adopt_shared_resources
dyld_register_funcinst dyld_resolve_symbol_in_obj dyld_resolve_symbol
dyld_resolve_got_symbols dyld_resolve_plt_symbols dyld_resolve_dependencies
dyld_resolve_plt dyld_dynamic_load_object_by_name dyld_clear""".split()


def check(ctx, rep, rule, names=None):
    return refs.check(ctx, rep, rule, "dyld", "libdyld/dyld.c", BOUNDARY,
                      mute=("report_init", "report_clear"), names=names)
