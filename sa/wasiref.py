"""WASI descriptors, guest data and calls compared with sa/ref/wasi.c."""
from . import refs

BOUNDARY = """trap_with_id wasi_convert_errno vals_from_cells val_to_cells
resulttype_cellidx host_func_copyin host_func_copyout host_func_getptr
host_func_getptr2 host_func_check_align host_func_mul_size
mem_zalloc mem_free _vec_resize _vec_free xzalloc set_nonblocking
wasi_fdinfo_release wasi_fdinfo_close wasi_fdinfo_free wasi_fdinfo_clear
wasi_fdinfo_alloc_host wasi_fdinfo_alloc_prestat wasi_fdinfo_wait
wasi_table_lookup_locked wasi_table_lookup_locked_for_close
wasi_table_expand wasi_table_alloc_slot wasi_table_fdinfo_add
wasi_table_clear wasi_fd_lookup wasi_userfd_lookup wasi_hostfd_lookup
wasi_instance_add_hostfd wasi_instance_prestat_add_vfs
wasi_copyin_and_convert_path wasi_copyin_iovec path_clear
wasi_copyout_result_i32 wasi_copyout_result_fd wasi_copyout_result_i64
wasi_validate_fstflags wasi_userfd_reject_directory
wasi_unstable_convert_filestat wasi_convert_clockid wait_fd_ready
emulate_blocking wasi_poll check_interrupt check_interrupt_interval_ms
restart_info_prealloc restart_info_clear abstime_from_reltime_ms
abstime_from_reltime_ns abstime_to_reltime_ms_roundup timespec_cmp
timespec_from_ns convert_timespec
toywasm_mutex_init toywasm_mutex_destroy toywasm_mutex_lock
toywasm_mutex_unlock toywasm_cv_init toywasm_cv_destroy toywasm_cv_signal
toywasm_cv_timedwait""".split()
VFS = """fd_fallocate fd_ftruncate fd_writev fd_pwritev fd_get_flags fd_readv
fd_preadv fd_fstat fd_lseek fd_fsync fd_fdatasync fd_futimes fd_close
dir_rewind dir_seek dir_read path_fdinfo_alloc path_open path_unlink
path_mkdir path_rmdir path_symlink path_readlink path_link path_rename
path_stat path_lstat path_utimes path_lutimes sock_fdinfo_alloc sock_accept
sock_recv sock_send sock_shutdown""".split()
BOUNDARY += ["wasi_vfs_" + x for x in VFS]


def names():
    """the functions that have a definition"""
    return refs.names("wasi")


def check(ctx, rep, rule, names):
    refs.check(ctx, rep, rule, "wasi", "libwasi/wasi_abi_fd.c", BOUNDARY,
               ignore={"trap_with_id": {0, 1}},
               retval={"trap_with_id": -1}, names=names)
