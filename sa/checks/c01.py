"""The functions through which every access to linear memory goes."""
from .. import instref, refs

BOUNDARY = """memory_instance_getptr2 memory_getptr2 memory_atomic_unlock_
trap_with_id mem_extend mem_extend_zero suspend_threads resume_threads
toywasm_mutex_lock toywasm_mutex_unlock atomics_mutex_getptr""".split()


def check(ctx, rep):
    rep.rule("access", "the function locating a range of linear memory "
             "accepts exactly the ranges within the memory")
    functions(ctx, rep, "access")
    rep.rule("create", "a memory is as large as its type says")
    instref.check(ctx, rep, "create", ["memory_instance_create"])


def functions(ctx, rep, rule, names=None):
    refs.check(ctx, rep, rule, "memory", "lib/exec_insn_subr.c",
               BOUNDARY, ignore={"trap_with_id": {0, 1}},
               retval={"trap_with_id": -1}, names=names)
