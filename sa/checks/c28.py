"""throw, throw_ref and try_table, the search for a handler and the delivery of
an exception are turned into value graphs on compiler IR and compared with
their definitions in sa/ref/insns.c and sa/ref/exec.c."""
from .. import execref, insnref

INSNS = "throw throw_ref try_table".split()


def check(ctx, rep):
    rep.rule("insn", "throwing and block entry record the values, tag and "
             "position the specification defines")
    insnref.check(ctx, rep, "insn", INSNS)
    rep.rule("delivery", "the innermost matching handler of the activation "
             "gets the exception; otherwise it traps")
    execref.check(ctx, rep, "delivery", ["find_catch", "do_exception",
                                         "rewind_stack", "frame_exit"])
