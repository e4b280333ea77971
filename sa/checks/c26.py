"""The tables that export the WASI functions are compared with the published
names and types, the table of host file operations with its members' names,
and the functions that translate codes and fill structures are turned into
value graphs on compiler IR and compared with definitions that use the
published numbers and layouts (sa/ref/wasiabi.h)."""
from .. import tables, wasihostref, wasiref

CONVERT = """timespec_to_ns timeval_from_ns prepare_utimes_tv
wasi_convert_filetype wasi_convert_filestat wasi_convert_dirent_filetype
wasi_convert_clockid wasi_convert_errno wasi_build_oflags
wasi_host_path_open wasi_host_path_lutimes wasi_host_path_utimes
wasi_host_fd_futimes wasi_host_fd_get_flags wasi_host_dir_read
wasi_host_dir_seek wasi_host_sock_recv wasi_host_sock_send
wasi_host_sock_shutdown wasi_host_sock_accept""".split()
CALLS = """wasi_unstable_convert_filestat wasi_validate_fstflags
wasi_clock_res_get wasi_clock_time_get wasi_fd_prestat_get wasi_fd_seek
wasi_unstable_fd_seek wasi_fd_filestat_get wasi_unstable_fd_filestat_get
wasi_fd_fdstat_get wasi_fd_fdstat_set_flags wasi_fd_filestat_set_times
wasi_fd_readdir wasi_poll_oneoff wasi_path_open wasi_path_filestat_get
wasi_unstable_path_filestat_get wasi_path_filestat_set_times wasi_path_link
wasi_sock_accept wasi_sock_recv wasi_sock_send wasi_sock_shutdown
wasi_copyin_iovec wasi_fd_advise wasi_fd_tell wasi_proc_exit""".split()

# preview1: parameters (i = 32 bits, I = 64 bits) and result of each function
API = """args_get (ii)i
args_sizes_get (ii)i
clock_res_get (ii)i
clock_time_get (iIi)i
environ_get (ii)i
environ_sizes_get (ii)i
fd_advise (iIIi)i
fd_allocate (iII)i
fd_close (i)i
fd_datasync (i)i
fd_fdstat_get (ii)i
fd_fdstat_set_flags (ii)i
fd_fdstat_set_rights (iII)i
fd_filestat_get (ii)i
fd_filestat_set_size (iI)i
fd_filestat_set_times (iIIi)i
fd_pread (iiiIi)i
fd_prestat_dir_name (iii)i
fd_prestat_get (ii)i
fd_pwrite (iiiIi)i
fd_read (iiii)i
fd_readdir (iiiIi)i
fd_renumber (ii)i
fd_seek (iIii)i
fd_sync (i)i
fd_tell (ii)i
fd_write (iiii)i
path_create_directory (iii)i
path_filestat_get (iiiii)i
path_filestat_set_times (iiiiIIi)i
path_link (iiiiiii)i
path_open (iiiiiIIii)i
path_readlink (iiiiii)i
path_remove_directory (iii)i
path_rename (iiiiii)i
path_symlink (iiiii)i
path_unlink_file (iii)i
poll_oneoff (iiii)i
proc_exit (i)
random_get (ii)i
sched_yield ()i
sock_accept (iii)i
sock_recv (iiiiii)i
sock_send (iiiii)i
sock_shutdown (ii)i"""
# functions that are different in wasi_unstable
UNSTABLE = """fd_filestat_get (ii)i
path_filestat_get (iiiii)i
fd_seek (iIii)i"""
# wasi-threads, its predecessors and the experimental exit
THREADS = [("wasi_thread_spawn", "thread-spawn", "(ii)"),
           ("wasi_thread_spawn_old", "thread-spawn", "(i)i"),
           ("wasi_thread_spawn_old", "thread_spawn", "(i)i"),
           ("wasi_thread_exit", "thread_exit", "()")]


def exports(p):
    """module name -> rows of (function, name, type), first one wins"""
    out = {}
    for n, rows in tables.aggregates(p):
        for row in rows:
            if len(row) != 3 or not isinstance(row[1], str):
                continue
            t = dict(tables.aggregates(p)).get(row[1][1:])
            name = tables.name(p, row[0])
            if t is None or name is None or tables.number(row[2]) is None:
                continue
            if not all(len(r) == 3 and tables.name(p, r[0]) is not None
                       for r in t):
                continue
            k = tables.number(row[2])
            out.setdefault(name, []).append((row[1][1:], k, len(t), [
                (r[2][1:].split(".")[0] if isinstance(r[2], str) else None,
                 tables.name(p, r[0]), tables.text(p, r[1]))
                for r in t[:k]]))
    return out


def check(ctx, rep):
    rep.rule("exports", "each published function is exported under its name "
             "with its type and bound to its implementation")
    p = ctx.prog()
    ex = exports(p)

    def module(name, want):
        rows = ex.get(name)
        if rows is None:
            rep.bad("exports", name, "host modules",
                    "no host module is called %s" % name)
            return
        bound = {}
        for t, k, n, fs in rows:
            if k != n:
                rep.bad("exports", t, t, "%d of the %d functions of %s are "
                        "exported" % (k, n, t))
            for f, nm, ty in fs:
                bound.setdefault((nm, ty), []).append(f)
        for f, nm, ty in want:
            rep.seen("exports")
            got = bound.pop((nm, ty), None)
            if got is None:
                other = sorted(t for x, t in bound if x == nm)
                rep.bad("exports", "%s.%s" % (name, nm), name,
                        "%s does not export %s with type %s%s"
                        % (name, nm, ty, ", but with %s" % ", ".join(other)
                           if other else ""))
            elif got[0] != f and f in p.bybase:
                rep.bad("exports", "%s.%s" % (name, nm), name,
                        "%s.%s is bound to %s" % (name, nm, got[0]))
        for nm, ty in bound:
            rep.bad("exports", "%s.%s" % (name, nm), name,
                    "%s exports %s%s, which is not published"
                    % (name, nm, ty))
    api = [x.split() for x in API.split("\n")]
    api = [("wasi_" + x[0], x[0], x[1]) for x in api]
    module("wasi_snapshot_preview1", api)
    un = {x.split()[0] for x in UNSTABLE.split("\n")}
    module("wasi_unstable", [(("wasi_unstable_" if n in un else "wasi_") + n,
                              n, t) for f, n, t in api])
    module("wasi", THREADS)
    rep.rule("convert", "each host value becomes the published code with the "
             "same meaning, each published code the host value")
    wasihostref.check(ctx, rep, "convert", CONVERT)
    rep.rule("layout", "structures are exchanged with the published layout "
             "and arguments have the published meaning")
    wasiref.check(ctx, rep, "layout", CALLS)
    rep.rule("operations", "each file operation is bound to its "
             "implementation")
    p = wasihostref.check(ctx, rep, "convert", []).p
    ref = p.globals["ref_host_ops"]["init"]
    ref = dict(zip(ref[3], ref[1]))
    for n, g in sorted(p.globals.items()):
        if n == "ref_host_ops" or g.get("ty") != "%struct.wasi_vfs_ops" or \
           g.get("init", ("zero",))[0] != "agg":
            continue
        for o, x in zip(g["init"][3], g["init"][1]):
            rep.seen("operations")
            if x != ref[o]:
                rep.bad("operations", str(ref[o]), n, "%s is where %s should "
                        "be" % (x, ref[o]))
