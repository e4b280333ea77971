"""Functions of lib/exec.c and its companions compared with sa/ref/exec.c."""
from . import refs

BOUNDARY = """trap_with_id _vec_prealloc cells_copy cells_move cells_zero
resulttype_cellsize localtype_cellsize valtype_cellsize frame_enter frame_exit
set_current_frame rewind_stack branch_to_label block_exit cached_block_exit
skip_expr jump_lookup jump_table_lookup get_arity_for_blocktype find_catch
do_call do_wasm_call do_host_call do_return_call do_exception do_branch
stack_prealloc fetch_exec_next_insn check_interrupt check_interrupt_interval_ms
timespec_now timespec_sub timespec_to_ms adjust_check_interval restart_insn
return_to_hostfunc module_functype read_leb_s33_nocheck read_leb_u32_nocheck
read_insn_nocheck sched_need_resched cluster_check_interrupt
suspend_check_interrupt exec_expr exec_expr_continue funcinst_functype
funcinst_func taginst_functype vals_to_cells vals_from_cells val_from_cells
exec_context_clear exec_context_init
frame_locals""".split()


def check(ctx, rep, rule, names):
    refs.check(ctx, rep, rule, "exec", "lib/exec.c", BOUNDARY,
               ignore={"trap_with_id": {0, 1}},
               retval={"trap_with_id": -1}, names=names, own=True)
