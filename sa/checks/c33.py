"""The user-level scheduler and the joining of threads are turned into value
graphs on compiler IR and compared with their definitions in sa/ref/sched.c and
sa/ref/base.c: first in, first out, one turn each, until none is left."""
from .. import baseref, schedref


def check(ctx, rep):
    rep.rule("turns", "threads run in turn until the queue is empty")
    schedref.check(ctx, rep, "turns")
    rep.rule("join", "the program ends when all threads have")
    baseref.check(ctx, rep, "join", """cluster_init cluster_join
    cluster_add_thread cluster_remove_thread slist_remove_head
    slist_insert_tail slist_head_init""".split())
