"""Guest threads compared with sa/ref/threads.c."""
from . import refs

BOUNDARY = """mem_zalloc mem_free idalloc_init idalloc_destroy idalloc_alloc
idalloc_free cluster_init cluster_destroy cluster_add_thread
cluster_remove_thread cluster_set_interrupt cluster_join sched_init
sched_clear sched_run sched_enqueue module_find_export
check_functype_with_string exec_push_vals instance_execute_func_nocheck
instance_execute_continue exec_context_init exec_context_clear
instance_create instance_destroy report_init report_clear suspend_parked
wasi_threads_instance_join wasi_threads_propagate_trap exec_thread_start_func
done_thread_start_func user_runner_exec_start user_runner_exec_done runner
wasi_thread_spawn_common wasi_convert_errno vals_from_cells val_to_cells
resulttype_cellidx host_func_copyout trap_with_id
import_object_create_for_host_funcs
toywasm_mutex_lock toywasm_mutex_unlock""".split()


def check(ctx, rep, rule, names=None, config="release"):
    refs.check(ctx, rep, rule, "threads", "libwasi_threads/wasi_threads.c",
               BOUNDARY, ignore={"trap_with_id": {0, 1}},
               retval={"trap_with_id": -1}, mute=("report_init",
                                                  "report_clear"),
               names=names, config=config)
