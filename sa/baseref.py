"""Small building blocks of lib/ compared with sa/ref/base.c."""
from . import refs

BOUNDARY = """trap_with_id toywasm_mutex_init toywasm_mutex_lock
toywasm_mutex_unlock toywasm_cv_init toywasm_cv_destroy toywasm_cv_wait
toywasm_cv_timedwait toywasm_cv_signal toywasm_cv_broadcast
atomics_mutex_getptr memory_atomic_getptr check_interrupt
funcinst_functype compare_resulttype""".split()


def check(ctx, rep, rule, names):
    refs.check(ctx, rep, rule, "base", "lib/exec.c", BOUNDARY,
               ignore={"trap_with_id": {0, 1}},
               retval={"trap_with_id": -1}, names=names, own=True)
