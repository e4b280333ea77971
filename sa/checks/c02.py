"""The functions that give host code access to guest memory, and every WASI
call that moves data, are turned into value graphs on compiler IR and compared
with their definitions: which range is checked, how long, how many bytes move,
and that an address is asked for again after anything that may move memory."""
from .. import instref, wasihostref, wasiref

ACCESS = """host_func_check_align host_func_copyin host_func_copyout
host_func_getptr host_func_getptr2 host_func_mul_size cconv_deref_func_ptr
cconv_memory cconv_func_table""".split()
CALLS = """wasi_copyin_iovec wasi_copyin_and_convert_path
wasi_copyout_result_i32 wasi_copyout_result_fd wasi_copyout_result_i64
wasi_args_sizes_get wasi_args_get wasi_environ_sizes_get wasi_environ_get
wasi_random_get wasi_fd_prestat_get wasi_fd_prestat_dir_name wasi_fd_read
wasi_fd_pread wasi_fd_write wasi_fd_pwrite wasi_sock_recv wasi_sock_send
wasi_fd_readdir wasi_path_readlink wasi_poll_oneoff wasi_fd_filestat_get
wasi_unstable_fd_filestat_get wasi_path_filestat_get
wasi_unstable_path_filestat_get wasi_fd_fdstat_get wasi_path_symlink
wasi_instance_set_memory""".split()
BUFFERS = """wasi_iovec_flatten wasi_iovec_flatten_uninitialized
wasi_iovec_commit_flattened_data wasi_iovec_free_flattened_buffer
wasi_host_fd_writev wasi_host_fd_pwritev wasi_host_fd_readv
wasi_host_fd_preadv wasi_host_path_readlink wasi_host_dir_read
wasi_host_sock_recv wasi_host_sock_send""".split()


def check(ctx, rep):
    rep.rule("access", "guest addresses become host addresses only for a "
             "range that was checked")
    instref.check(ctx, rep, "access", ACCESS)
    rep.rule("calls", "each call moves exactly the bytes of ranges it checked")
    wasiref.check(ctx, rep, "calls", CALLS)
    rep.rule("buffers", "host buffers are as long as the data moved")
    wasihostref.check(ctx, rep, "buffers", BUFFERS)
