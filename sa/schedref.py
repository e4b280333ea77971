"""The user-level scheduler compared with sa/ref/sched.c."""
from . import refs

BOUNDARY = """slist_insert_tail slist_remove_head slist_head_init timespec_now
timespec_cmp abstime_from_reltime_ms instance_execute_continue""".split()


def check(ctx, rep, rule, names=None):
    refs.check(ctx, rep, rule, "sched", "lib/usched.c", BOUNDARY,
               names=names, own=True, config="usched")
