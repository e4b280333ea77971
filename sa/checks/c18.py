"""Stopping, parking and resuming threads, and growing a memory between the two,
are turned into value graphs on compiler IR and compared with their definitions
in sa/ref/suspend.c and sa/ref/memory.c, and so are the functions that hold two
addresses of one memory at a time; no other function stops threads or replaces
the block that backs a memory."""
from .. import insnref, instref, suspref, wasiref
from . import c01

STOP, GO = "suspend_threads", "resume_threads"
# before it is shared, or with the other threads stopped
DATA = """memory_instance_create memory_instance_create2 memory_grow_impl
memory_grow2 memory_grow memory_instance_getptr2""".split()


def check(ctx, rep):
    rep.rule("park", "threads park, stop and resume as defined")
    suspref.check(ctx, rep, "park")
    rep.rule("grow", "a memory grows while the other threads are stopped")
    c01.functions(ctx, rep, "grow", ["memory_grow2", "memory_grow"])
    rep.rule("again", "an address is looked up again when finding another one "
             "moved the memory")
    insnref.check(ctx, rep, "again", ["memory_copy"])
    instref.check(ctx, rep, "again", ["host_func_getptr2", "host_func_getptr"])
    wasiref.check(ctx, rep, "again", ["wasi_copyin_iovec",
                                      "wasi_poll_oneoff"])
    rep.rule("who", "only the functions compared here stop or resume threads, "
             "or replace the block of a shared memory")
    p = ctx.prog()
    for f in p.defined():
        if f.base in (STOP, GO):
            continue
        for i in f.calls(STOP, GO):
            rep.seen("who")
            if f.base not in ("memory_grow_impl", "memory_grow2",
                              "memory_grow"):
                rep.bad("who", f.base, i.where, "%s calls %s, which only "
                        "growing a memory does" % (f.base, i.cname))
        for i in f.instrs():
            if i.op == "store" and f.fieldname(i.ops[1]) == "meminst.data":
                rep.seen("who")
                if f.base not in DATA:
                    rep.bad("who", f.base, i.where, "%s replaces the block of "
                            "a memory" % f.base)
