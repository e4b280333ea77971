"""Every function of a guest thread's life, the allocator of identifiers and
the cluster that counts threads are turned into value graphs on compiler IR,
with and without the user-level scheduler, and compared with their definitions
in sa/ref/threads.c, base.c and exec.c: what is taken before a thread may run,
what is given back on each way of ending, in which order and under which lock,
and whose exit or trap becomes that of the whole program."""
from .. import baseref, execref, threadsref

BASE = """idalloc_init idalloc_alloc idalloc_free cluster_init cluster_join
cluster_add_thread cluster_remove_thread""".split()


def check(ctx, rep):
    rep.rule("life", "a thread takes its identifier, instance and count before "
             "it runs and gives each back once, whichever way it ends")
    threadsref.check(ctx, rep, "life")
    rep.rule("scheduled", "the same with the user-level scheduler")
    threadsref.check(ctx, rep, "scheduled", config="usched")
    rep.rule("counts", "identifiers are unique among live ones and in range; "
             "the count of live threads is kept under the lock of the cluster")
    baseref.check(ctx, rep, "counts", BASE)
    execref.check(ctx, rep, "counts", ["cluster_set_interrupt",
                                       "cluster_check_interrupt"])
