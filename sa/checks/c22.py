"""Waiting and notification are turned into value graphs on compiler IR and
compared with their definitions in sa/ref/base.c."""
from .. import baseref

FUNCS = """waiter_list_lookup waiter_list_free atomics_notify atomics_wait
memory_atomic_unlock memory_notify memory_wait list_insert_tail list_remove
list_head_init""".split()


def check(ctx, rep):
    rep.rule("wait", "waiting, waking and leaving the queue happen in the "
             "order and under the lock the definition gives")
    baseref.check(ctx, rep, "wait", FUNCS)
