"""The functions that poll for interruption, and those that wait, are turned
into value graphs on compiler IR and compared with their definitions; in
addition, every loop of the libraries that waits for something passes a poll
for interruption on every turn, and no system call blocks without a limit."""
from .. import baseref, execref, suspref, wasiref

EXEC = """exec_expr_continue check_interrupt cluster_check_interrupt
cluster_set_interrupt adjust_check_interval""".split()
BASE = """suspend_check_interrupt check_interrupt_interval_ms memory_wait
atomics_wait timespec_sleep cluster_join""".split()
WASI = """wait_fd_ready emulate_blocking wasi_poll wasi_fdinfo_wait
wasi_table_lookup_locked_for_close wasi_poll_oneoff""".split()

# functions that wait, and the argument that limits the time
WAITS = {"poll": 2, "toywasm_cv_timedwait": 2, "pthread_cond_timedwait": 2,
         "nanosleep": None, "usleep": None, "clock_nanosleep": None,
         "select": 4, "pselect": 4, "ppoll": 2, "sleep": None}
# functions that wait without limit, and who may call them
FOREVER = {"pthread_cond_wait": {"toywasm_cv_wait"},
           "toywasm_cv_wait": {"suspend_threads", "parked", "cluster_join",
                               "resume_threads"},
           # messages to a terminal that does not take them
           "poll": {"nbio_vfprintf"},
           "pause": set(), "sigwait": set(), "pthread_join": set(),
           "wait": set(), "waitpid": set()}
ENDLESS = (("null",), ("c", -1, 32), ("c", 0xffffffff, 32))
LIBS = {"lib", "libwasi", "libwasi_threads", "libdyld"}


def check(ctx, rep):
    rep.rule("poll", "a request is noticed and leaves the interpreter loop")
    execref.check(ctx, rep, "poll", EXEC)
    rep.rule("wait", "waits are cut into pieces between which requests are "
             "noticed")
    baseref.check(ctx, rep, "wait", BASE)
    suspref.check(ctx, rep, "wait")
    rep.rule("calls", "a host call that waits notices requests")
    wasiref.check(ctx, rep, "calls", WASI)
    rep.rule("bounded", "no function waits without limit unless another "
             "thread of the program is sure to wake it")
    p = ctx.prog()
    for f in p.defined():
        if not LIBS & set((f.file or "").split("/")[-2:-1]):
            continue
        for i in f.calls(*WAITS, *FOREVER):
            rep.seen("bounded")
            k = WAITS.get(i.cname)
            if i.cname in WAITS and (k is None or i.ops[k] not in ENDLESS):
                continue
            if f.base not in FOREVER.get(i.cname, ()):
                rep.bad("bounded", f.base, i.where, "%s waits without limit "
                        "in %s" % (f.base, i.cname))
