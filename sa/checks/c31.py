"""The control instructions and the functions that enter and leave blocks and
frames are turned into value graphs on compiler IR and compared with their
definitions in sa/ref/insns.c and sa/ref/exec.c."""
from .. import execref, insnref

INSNS = """unreachable nop block loop if else end br br_if br_table return call
return_call""".split()

FUNCS = """set_current_frame frame_enter frame_exit funcinst_func do_wasm_call
do_host_call do_call do_return_call jump_table_lookup jump_lookup
get_arity_for_blocktype rewind_stack block_exit cached_block_exit
branch_to_label do_branch skip_expr find_type_annotation exec_expr
exec_expr_continue""".split()


def check(ctx, rep):
    rep.rule("insn", "every control instruction schedules exactly the branch, "
             "call or return the specification defines")
    insnref.check(ctx, rep, "insn", INSNS)
    rep.rule("transfer", "branches, block exits, calls and returns continue "
             "at the specified place with the specified operands")
    execref.check(ctx, rep, "transfer", FUNCS)
