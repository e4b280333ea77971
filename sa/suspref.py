"""Stopping and resuming threads compared with sa/ref/suspend.c."""
from . import refs

BOUNDARY = """toywasm_mutex_lock toywasm_mutex_unlock toywasm_cv_wait
toywasm_cv_broadcast timespec_now timespec_cmp timespec_sub""".split()


def check(ctx, rep, rule, names=None):
    refs.check(ctx, rep, rule, "suspend", "lib/suspend.c", BOUNDARY,
               mute=("timespec_now", "timespec_cmp", "timespec_sub"),
               names=names, own=True)
