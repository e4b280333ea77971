"""The functions that take a path from the guest and hand it to the host are
turned into value graphs on compiler IR and compared with their definitions;
in addition, every path any function of the WASI library passes to the host is
traced to the host path of a converted path."""
from .. import wasihostref, wasiref
from ..ir import const

CALLS = """path_clear wasi_copyin_and_convert_path wasi_path_open
wasi_path_unlink_file wasi_path_create_directory wasi_path_remove_directory
wasi_path_readlink wasi_path_filestat_get wasi_unstable_path_filestat_get
wasi_path_filestat_set_times wasi_path_symlink wasi_path_link
wasi_path_rename wasi_fdinfo_is_prestat wasi_fdinfo_path wasi_userfd_lookup
wasi_hostfd_lookup wasi_fd_lookup wasi_fdinfo_alloc_prestat
wasi_instance_prestat_add wasi_instance_prestat_add_vfs wasi_fdinfo_is_host
wasi_userfd_reject_directory""".split()
HOST = """wasi_host_path_open wasi_host_path_unlink wasi_host_path_mkdir
wasi_host_path_rmdir wasi_host_path_symlink wasi_host_path_readlink
wasi_host_path_link wasi_host_path_rename wasi_host_path_stat
wasi_host_path_lstat wasi_host_path_utimes wasi_host_path_lutimes
wasi_vfs_path_fdinfo_alloc wasi_vfs_path_open wasi_vfs_path_unlink
wasi_vfs_path_mkdir wasi_vfs_path_rmdir wasi_vfs_path_symlink
wasi_vfs_path_readlink wasi_vfs_path_link wasi_vfs_path_rename
wasi_vfs_path_stat wasi_vfs_path_lstat wasi_vfs_path_utimes
wasi_vfs_path_lutimes""".split()

# host functions that take a path, and which argument it is
PATH = {"open": (0,), "openat": (1,), "open64": (0,), "creat": (0,),
        "unlink": (0,), "unlinkat": (1,), "remove": (0,), "mkdir": (0,),
        "mkdirat": (1,), "rmdir": (0,), "symlink": (1,), "symlinkat": (2,),
        "readlink": (0,), "readlinkat": (1,), "link": (0, 1),
        "linkat": (1, 3), "rename": (0, 1), "renameat": (1, 3),
        "stat": (0,), "lstat": (0,), "stat64": (0,), "lstat64": (0,),
        "fstatat": (1,), "utimes": (0,), "lutimes": (0,), "futimesat": (1,),
        "utimensat": (1,), "truncate": (0,), "chdir": (0,), "opendir": (0,),
        "fopen": (0,), "chmod": (0,), "access": (0,), "faccessat": (1,)}
CONVERT = "wasi_copyin_and_convert_path"


def check(ctx, rep):
    rep.rule("paths", "each call joins the path to the directory it was given "
             "with and refuses absolute paths and embedded NULs")
    wasiref.check(ctx, rep, "paths", CALLS)
    rep.rule("host", "the host is given exactly the converted path")
    wasihostref.check(ctx, rep, "host", HOST)
    rep.rule("who", "a path given to the host is the host path of a converted "
             "path, and only the conversion sets one")
    p = ctx.prog()
    for f in p.defined():
        if "/libwasi/" not in (f.file or ""):
            continue
        for i in f.calls(*PATH):
            for k in PATH[i.cname]:
                rep.seen("who")
                d = f.get(f.strip(i.ops[k]))
                if d is None or d.op != "load" or \
                   f.fieldname(d.ops[0]) != "path_info.hostpath":
                    rep.bad("who", f.base, i.where, "%s gives %s a path that "
                            "is not the converted path of a guest"
                            % (f.base, i.cname))
        for i in f.instrs():
            if i.op == "store" and f.base != CONVERT and \
               f.fieldname(i.ops[1]) == "path_info.hostpath":
                rep.seen("who")
                if const(i.ops[0]) != 0 and i.ops[0] != ("null",):
                    rep.bad("who", f.base, i.where, "%s sets the host path of "
                            "a path that was not converted" % f.base)
