"""The command line tool compared with sa/ref/cli.c."""
from . import refs

BOUNDARY = """strtoumax sscanf strcmp strlen fread strdup malloc free mem_alloc
mem_free mem_context_init mem_context_clear load_context_init
load_context_clear module_create module_destroy report_getmessage
report_clear create_satisfying_shared_memories create_satisfying_functions
instance_create_no_init instance_destroy import_object_destroy cconv_memory
map_file unmap_file atoi _vec_prealloc _vec_resize dyld_init dyld_load
dyld_memory dyld_execute_init_funcs dyld_clear dyld_main_object_instance
set_name_cstr import_object_create_for_exports module_write
abstime_from_reltime_ms timespec_now timespec_cmp exec_context_init
exec_context_clear setup_timeout instance_execute_init
instance_execute_handle_restart_once print_trace print_trap exec_push_vals
exec_pop_vals instance_execute_func strtok module_find_export
module_functype module_globaltype wasi_threads_setup_exec_context
wasi_threads_complete_exec exec_context_print_stats instance_print_stats
wasi_instance_exit_code wasi_instance_set_memory
wasi_threads_instance_set_memory nbio_printf _vec_free
wasi_threads_instance_destroy wasi_instance_destroy wasi_vfs_fs_umount
dyld_print_stats""".split()


def check(ctx, rep, rule, names, mute=("nbio_printf",)):
    refs.check(ctx, rep, rule, "cli", "cli/repl.c", BOUNDARY, names=names,
               mute=tuple(mute), own=True)
