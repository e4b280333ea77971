"""The functions that keep, resume and drop the state of an interrupted operation
are turned into value graphs on compiler IR and compared with their
definitions in sa/ref/base.c, sa/ref/exec.c and sa/ref/wasi.c."""
from .. import baseref, execref, wasiref

BASE = """restart_info_prealloc restart_info_clear
restart_info_is_none memory_wait timespec_sleep
invoke""".split()
EXEC = """restart_insn return_to_hostfunc exec_expr_continue do_host_call
frame_exit check_interrupt""".split()
WASI = """wasi_poll wait_fd_ready emulate_blocking wasi_poll_oneoff""".split()


def check(ctx, rep):
    rep.rule("state", "deadlines and pending calls are kept on interruption, "
             "used once on resumption and dropped otherwise")
    baseref.check(ctx, rep, "state", BASE)
    wasiref.check(ctx, rep, "state", WASI)
    rep.rule("resume", "an interrupted instruction or host call is resumed "
             "exactly where it was")
    execref.check(ctx, rep, "resume", EXEC)
