"""Host side of WASI compared with sa/ref/wasihost.c."""
from . import refs

BOUNDARY = """wasi_fdinfo_alloc_host wasi_fdinfo_vfs set_nonblocking
prepare_utimes_tv wasi_convert_filestat wasi_convert_dirent_filetype
wasi_build_oflags""".split()


def names():
    """the functions that have a definition"""
    return refs.names("wasihost")


def check(ctx, rep, rule, names):
    return refs.check(ctx, rep, rule, "wasihost", "libwasi/wasi_host_fdop.c",
               BOUNDARY, names=names)
