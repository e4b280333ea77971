"""The fate of failures: every call of a function that reports failures by a
number (found by what the functions return) or of an allocator is followed on
the paths where it failed, in every function outside the instruction bodies
(those are compared with definitions by C05 to C12), until the failure is
returned, handed over or lost."""
import re

from .. import errs, flow

ENOENT, EBADF, EINVAL, ETIMEDOUT, EPROTO = 2, 9, 22, 110, 71
TRAP = -1

# (caller, callee): which failures the caller deals with itself, and why that
# is part of the behaviour (None: any)
HANDLED = {
    ("dyld_execute_obj_init_func", "dyld_execute_obj_init_func1"):
        ({ENOENT}, "an object need not have this init function"),
    ("dyld_resolve_plt_symbols", "dyld_resolve_plt"):
        (None, "weak symbols may stay unresolved"),
    ("dyld_resolve_symbol", "dyld_resolve_symbol_in_obj"):
        (None, "the next object is searched"),
    ("dyld_search_and_load_object_from_file", "dyld_load_object_from_file"):
        ({ENOENT}, "the next directory is searched"),
    ("dyld_dlfcn_load_object", "_vec_prealloc"):
        (None, "the guest gets 1 as the result"),
    ("dyld_dlfcn_load_object", "mem_zalloc"):
        (None, "the guest gets 1 as the result"),
    ("dyld_dlfcn_load_object", "mem_alloc"):
        (None, "the guest gets 1 as the result"),
    ("dyld_dlfcn_load_object", "dyld_dynamic_load_object_by_name"):
        (None, "the guest gets 1 as the result"),
    ("dyld_dlfcn_resolve_symbol", "dyld_resolve_symbol_in_obj"):
        (None, "the guest gets 1 as the result"),
    ("escape_name", "malloc"): (None, "a shorter text is used in messages"),
    ("find_entry_for_import", "import_object_find_entry"):
        ({ENOENT, EINVAL}, "the next import object is searched"),
    ("import_object_find_entry", None):
        (None, "the next entry of the same name is tried"),
    ("main", "toywasm_repl_set_timeout"):
        (None, "command line option; running without the limit"),
    ("main", "toywasm_repl_set_wasi_args"):
        ({EPROTO}, "WASI is not in use"),
    ("memory_wait", "atomics_wait"):
        ({ETIMEDOUT}, "waits again or reports the timeout to the guest"),
    ("map_file", "close"): (None, "only gives the descriptor back"),
    ("unmap_file", "munmap"): (None, "only gives the pages back"),
    ("set_nonblocking", "fcntl"):
        (None, "a descriptor that is not open fails at its next use"),
    ("timespec_sleep", "nanosleep"): (None, "errno says whether to sleep on"),
    ("nbio_vfprintf", "poll"): (None, "errno says whether to write again"),
    ("toywasm_repl_invoke", "exec_func"):
        ({TRAP}, "voluntary exit; the exit code is returned"),
    ("wasi_host_fd_get_flags", "fcntl"):
        (None, "-1 without errno is a set of flags"),
    ("wasi_instance_add_hostfd", "dup"):
        (None, "a descriptor that is not open fails at its next use"),
    ("wasi_random_get", "getrandom"):
        (None, "errno says whether to try again"),
    ("xlog_vprintf", "clock_gettime"): (None, "only used in messages"),
    ("nametable_add_module", "parse_name_section"):
        (None, "names are only used in messages"),
    ("nametable_lookup_data", "namemap_lookup"):
        (None, "names are only used in messages"),
    ("nametable_lookup_func", "namemap_lookup"):
        (None, "names are only used in messages"),
    ("nametable_lookup_func", "exports_lookup"):
        (None, "names are only used in messages"),
    ("nametable_lookup_global", "namemap_lookup"):
        (None, "names are only used in messages"),
    ("nametable_lookup_global", "exports_lookup"):
        (None, "names are only used in messages"),
    ("nbio_getline", "set_nonblocking"):
        (None, "errno and -1, as getline does"),
    ("read_locals", "populate_localtype_cellidx"):
        (None, "the index only makes execution faster"),
    ("read_resulttype", "populate_resulttype_cellidx"):
        (None, "the index only makes execution faster"),
    ("suspend_threads", "timespec_now"): (None, "only used in messages"),
    ("repl_exec_init", "instance_execute_handle_restart_once"):
        ({TRAP}, "the caller says whether a trap is a failure"),
    ("wasi_fdinfo_wait", "abstime_from_reltime_ms"):
        (None, "the caller tests its condition again"),
    ("wasi_instance_add_hostfd", "wasi_table_lookup_locked"):
        ({EBADF}, "the descriptor has to be free"),
    ("wasi_poll_oneoff", "wasi_hostfd_lookup"):
        (None, "the guest gets an event with the error"),
    ("wasi_thread_spawn", "wasi_thread_spawn_common"):
        (None, "the guest gets an error as the result"),
    ("wasi_threads_instance_set_thread_spawn_args", "module_find_export"):
        (None, "spawning is refused later"),
    ("wasi_threads_instance_set_thread_spawn_args",
     "check_functype_with_string"): (None, "spawning is refused later"),
}

# releasing something cannot be done better than tried
RELEASE = {"array_shrink", "cellidx_bytesize", "resulttype_bytesize",
           "wasi_fdinfo_close", "close"}
RELEASING = {"_vec_free", "cellidx_free", "resulttype_free",
             "_read_vec_with_ctx_impl", "wasi_table_clear",
             "wasi_path_open", "wasi_sock_accept", "wasi_hostfd_add"}

# code that validation has read before; the instruction bodies have their own
# definitions
VALIDATED = ("process_", "fetch_exec_", "skip_next_insn")

# called to find out whether, or how, to go on after a failure
RESUME = {"check_timeout": "ask", "exec_expr_continue": "again",
          "instance_execute_continue": "again"}
RESUME.update((r, "release") for r in RELEASE)

# functions that turn an error number into the guest's result
DELIVER = {"wasi_convert_errno", "handle_errno"}

# functions that report the failure they are called for
RAISING = {"trap_with_id", "validation_failure"}

# giving back and logging may come before the result is looked at
CLEANUP = re.compile(r"(^|_)(free|clear|release|unlock|destroy|close|fini)"
                     r"(_|$)|^xlog|^__errno_location$|^toywasm_mutex_"
                     r"|^wasi_threads_complete_exec$|_print_stats$")


def quiet(i):
    return i.cname is not None and bool(CLEANUP.search(i.cname))


def check(ctx, rep):
    rep.rule("lost", "no path on which a call failed returns success")
    rep.rule("goes-on", "no path on which a call failed makes another call "
             "that can fail, unless the failure was dealt with; "
             "no other call is made before the result is looked at")
    p = ctx.prog()
    e = errs.Errors(p)
    have = {f.base for f in p.defined()}
    handled = {}
    for (caller, callee), (numbers, why) in HANDLED.items():
        # a caller that became part of another function
        handled[(caller if caller in have else "*", callee)] = numbers
    for f in RELEASING:
        for c in RELEASE:
            handled[(f, c)] = None
    fate = errs.Fate(e, handled, RESUME, DELIVER, RAISING, quiet)
    funcs = 0
    for f in p.defined():
        if f.name.startswith(VALIDATED) or f.base.endswith("_nocheck"):
            continue
        if any(e.fallible(i) or i.callee in errs.ALLOC | errs.POSIX for i in f.calls()):
            funcs += 1
            flow.run(f, fate)
    rep.seen("lost", len(fate.sites))
    rep.seen("goes-on", len(fate.sites))
    rep.seen("functions that report failures", len(e.fail))
    rep.seen("functions analysed", funcs)
    rep.seen("failures handled on the spot", len(fate.used))
    for (fn, c, what), (f, ci, i) in sorted(fate.out.items(),
                                            key=lambda x: x[0]):
        n = ci.cname or "an indirect call"
        if what == "lost":
            rep.bad("lost", "%s:%s" % (f.base, n), ci.where,
                    "when %s fails, %s can return as if it had not (at %s)"
                    % (n, f.base, i.where))
        else:
            rep.bad("goes-on", "%s:%s" % (f.base, n), ci.where,
                    "when %s fails, %s can go on to call %s (at %s)"
                    % (n, f.base, i.cname or "something", i.where))
