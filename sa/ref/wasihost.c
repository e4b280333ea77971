/*
 * WASI on the host: what each operation asks of the operating system, and
 * how constants and results are translated.
 */
#define _GNU_SOURCE
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include "endian.h"
#include "nbio.h"
#include "wasi_host_dirent.h"
#include "wasi_host_fdop.h"
#include "wasi_host_pathop.h"
#include "wasi_host_sockop.h"
#include "wasi_host_subr.h"
#include "wasi_impl.h"
#include "wasi_path_subr.h"
#include "wasi_uio.h"
#include "wasi_utimes.h"
#include "wasi_vfs.h"
#include "wasi_vfs_impl_host.h"
#include "wasi_vfs_ops.h"
#include "wasi_vfs_types.h"

#include "wasiabi.h"

/* -- translation */
uint64_t
ref_timespec_to_ns__0(const struct timespec *ts)
{
        return (uint64_t)ts->tv_sec * 1000000000 + (uint64_t)ts->tv_nsec;
}

void
ref_timeval_from_ns__0(struct timeval *tv, uint64_t ns)
{
        tv->tv_sec = ns / 1000000000;
        tv->tv_usec = ns % 1000000000 / 1000;
}

/* both now, or both given; other combinations are not supported */
int
ref_prepare_utimes_tv__0(const struct utimes_args *args, struct timeval *tv,
                         const struct timeval **resultp)
{
        if (args->fstflags == (2 | 8)) {
                *resultp = NULL;
                return 0;
        }
        if (args->fstflags != (1 | 4)) {
                return ENOTSUP;
        }
        uint64_t a = args->atim, m = args->mtim;
        tv[0].tv_sec = a / 1000000000;
        tv[0].tv_usec = a % 1000000000 / 1000;
        tv[1].tv_sec = m / 1000000000;
        tv[1].tv_usec = m % 1000000000 / 1000;
        *resultp = tv;
        return 0;
}

uint8_t
ref_wasi_convert_filetype__0(unsigned int mode)
{
        switch (mode & S_IFMT) {
        case S_IFBLK:
                return 1;
        case S_IFCHR:
                return 2;
        case S_IFDIR:
                return 3;
        case S_IFREG:
                return 4;
        case S_IFLNK:
                return 7;
        }
        return 0;
}

static uint64_t
ns(struct timespec t)
{
        return (uint64_t)t.tv_sec * 1000000000 + (uint64_t)t.tv_nsec;
}

void
ref_wasi_convert_filestat__0(const struct stat *hst,
                             struct wasi_filestat *wst)
{
        memset(wst, 0, 64);
        wst->dev = hst->st_dev;
        wst->ino = hst->st_ino;
        wst->type = ref_wasi_convert_filetype__0(hst->st_mode);
        wst->linkcount = hst->st_nlink;
        wst->size = hst->st_size;
        wst->atim = ns(hst->st_atim);
        wst->mtim = ns(hst->st_mtim);
        wst->ctim = ns(hst->st_ctim);
}

uint8_t
ref_wasi_convert_dirent_filetype__0(uint8_t type)
{
        switch (type) {
        case DT_BLK:
                return 1;
        case DT_CHR:
                return 2;
        case DT_DIR:
                return 3;
        case DT_REG:
                return 4;
        case DT_LNK:
                return 7;
        }
        return 0;
}

int
ref_wasi_convert_clockid__0(uint32_t id, clockid_t *hostidp)
{
        switch (id) {
        case 0:
                *hostidp = CLOCK_REALTIME;
                return 0;
        case 1:
                *hostidp = CLOCK_MONOTONIC;
                return 0;
        case 2:
                *hostidp = CLOCK_PROCESS_CPUTIME_ID;
                return 0;
        case 3:
                *hostidp = CLOCK_THREAD_CPUTIME_ID;
                return 0;
        }
        return EINVAL;
}

/* errors without a number of their own here become EIO */
uint32_t
ref_wasi_convert_errno__0(int e)
{
        switch (e) {
        case 0:
                return 0;
        case EACCES:
                return 2;
        case EAGAIN:
                return 6;
        case EBADF:
                return 8;
        case ECONNRESET:
                return 15;
        case EEXIST:
                return 20;
        case EINTR:
                return 27;
        case EINVAL:
                return 28;
        case EIO:
                return 29;
        case EISDIR:
                return 31;
        case ELOOP:
                return 32;
        case ENOENT:
                return 44;
        case ENOMEM:
                return 48;
        case ENOSPC:
                return 51;
        case ENOTDIR:
                return 54;
        case ENOTEMPTY:
                return 55;
        case ENOTSOCK:
                return 57;
        case ENOTSUP:
                return 58;
        case EOVERFLOW:
                return 61;
        case EPERM:
                return 63;
        case EPIPE:
                return 64;
        case ERANGE:
                return 68;
        case ESPIPE:
                return 70;
        }
        return 29;
}

int
ref_wasi_build_oflags__0(uint32_t lookup, uint32_t o, uint64_t rights,
                         uint32_t fdflags, int *resultp)
{
        int f = 0;
        if ((lookup & 1) == 0) {
                f |= O_NOFOLLOW;
        }
        if ((o & 1) != 0) {
                f |= O_CREAT;
        }
        if ((o & 2) != 0) {
                f |= O_DIRECTORY;
        }
        if ((o & 4) != 0) {
                f |= O_EXCL;
        }
        if ((o & 8) != 0) {
                f |= O_TRUNC;
        }
        if ((fdflags & 1) != 0) {
                f |= O_APPEND;
        }
        if ((rights & 64) != 0) {
                f |= (rights & 2) != 0 ? O_RDWR : O_WRONLY;
        }
        *resultp = f;
        return 0;
}

/* -- files */
static struct wasi_fdinfo_host *
host(struct wasi_fdinfo *fdinfo)
{
        return (struct wasi_fdinfo_host *)fdinfo;
}

#define FD host(fdinfo)->hostfd

static int
outcome(int ret)
{
        return ret == -1 ? errno : 0;
}

int
ref_wasi_host_fd_fallocate__0(struct wasi_fdinfo *fdinfo, wasi_off_t off,
                              wasi_off_t len)
{
        return posix_fallocate(FD, off, len);
}

int
ref_wasi_host_fd_ftruncate__0(struct wasi_fdinfo *fdinfo, wasi_off_t size)
{
        return outcome(ftruncate(FD, size));
}

int
ref_wasi_host_fd_writev__0(struct wasi_fdinfo *fdinfo,
                           const struct iovec *iov, int n, size_t *resultp)
{
        ssize_t r = writev(FD, iov, n);
        if (r == -1) {
                return errno;
        }
        *resultp = r;
        return 0;
}

int
ref_wasi_host_fd_pwritev__0(struct wasi_fdinfo *fdinfo,
                            const struct iovec *iov, int n, wasi_off_t off,
                            size_t *resultp)
{
        ssize_t r = pwritev(FD, iov, n, off);
        if (r == -1) {
                return errno;
        }
        *resultp = r;
        return 0;
}

int
ref_wasi_host_fd_readv__0(struct wasi_fdinfo *fdinfo, const struct iovec *iov,
                          int n, size_t *resultp)
{
        ssize_t r = readv(FD, iov, n);
        if (r == -1) {
                return errno;
        }
        *resultp = r;
        return 0;
}

int
ref_wasi_host_fd_preadv__0(struct wasi_fdinfo *fdinfo,
                           const struct iovec *iov, int n, wasi_off_t off,
                           size_t *resultp)
{
        ssize_t r = preadv(FD, iov, n, off);
        if (r == -1) {
                return errno;
        }
        *resultp = r;
        return 0;
}

int
ref_wasi_host_fd_get_flags__0(struct wasi_fdinfo *fdinfo, uint16_t *resultp)
{
        errno = 0;
        int r = fcntl(FD, F_GETFL, 0);
        if (r == -1 && errno != 0) {
                return errno;
        }
        *resultp = ((r & O_APPEND) != 0 ? 1 : 0) |
                   ((r & O_NONBLOCK) != 0 ? 4 : 0);
        return 0;
}

int
ref_wasi_host_fd_fstat__0(struct wasi_fdinfo *fdinfo,
                          struct wasi_filestat *wst)
{
        int fd = FD;
        struct stat st;
        int r = fstat(fd, &st);
        if (r != 0) {
                return outcome(r);
        }
        wasi_convert_filestat(&st, wst);
        if (S_ISSOCK(st.st_mode)) {
                int type;
                socklen_t len = 4;
                r = getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &len);
                if (r != 0) {
                        return outcome(r);
                }
                wst->type = type == SOCK_STREAM ? 6
                            : type == SOCK_DGRAM ? 5
                                                 : 0;
        }
        return 0;
}

int
ref_wasi_host_fd_lseek__0(struct wasi_fdinfo *fdinfo, wasi_off_t off,
                          int whence, wasi_off_t *resultp)
{
        int w;
        switch (whence) {
        case 0:
                w = SEEK_SET;
                break;
        case 1:
                w = SEEK_CUR;
                break;
        case 2:
                w = SEEK_END;
                break;
        default:
                return EINVAL;
        }
        int fd = FD;
        errno = 0;
        off_t r = lseek(fd, off, w);
        if (r == -1 && errno != 0) {
                return errno;
        }
        *resultp = r;
        return 0;
}

int
ref_wasi_host_fd_fsync__0(struct wasi_fdinfo *fdinfo)
{
        return outcome(fsync(FD));
}

int
ref_wasi_host_fd_fdatasync__0(struct wasi_fdinfo *fdinfo)
{
        return outcome(fdatasync(FD));
}

int
ref_wasi_host_fd_futimes__0(struct wasi_fdinfo *fdinfo,
                            const struct utimes_args *args)
{
        int fd = FD;
        struct timeval tv[2];
        const struct timeval *tvp;
        int ret = prepare_utimes_tv(args, tv, &tvp);
        if (ret != 0) {
                return ret;
        }
        return outcome(futimes(fd, tvp));
}

/* a directory stream owns the descriptor */
int
ref_wasi_host_fd_close__0(struct wasi_fdinfo *fdinfo)
{
        struct wasi_fdinfo_host *h = host(fdinfo);
        int ret = 0;
        if (h->dir != NULL) {
                ret = outcome(closedir(h->dir));
        } else if (h->hostfd != -1) {
                ret = outcome(close(h->hostfd));
        }
        h->hostfd = -1;
        h->dir = NULL;
        return ret;
}

/* -- directories */
static int
open_stream(int fd, DIR **dp)
{
        DIR *d = fdopendir(fd);
        if (d == NULL) {
                return errno;
        }
        *dp = d;
        return 0;
}

static int
open_dir(struct wasi_fdinfo *fdinfo, DIR **dp)
{
        struct wasi_fdinfo_host *h = host(fdinfo);
        DIR *d = h->dir;
        if (d == NULL) {
                int ret = open_stream(h->hostfd, &d);
                if (ret != 0) {
                        return ret;
                }
                h->dir = d;
        }
        *dp = d;
        return 0;
}

int
ref_wasi_host_dir_close__0(struct wasi_fdinfo *fdinfo)
{
        return outcome(closedir(host(fdinfo)->dir));
}

int
ref_wasi_host_dir_rewind__0(struct wasi_fdinfo *fdinfo)
{
        DIR *d;
        int ret = open_dir(fdinfo, &d);
        if (ret == 0) {
                rewinddir(d);
        }
        return ret;
}

int
ref_wasi_host_dir_seek__0(struct wasi_fdinfo *fdinfo, uint64_t off)
{
        DIR *d;
        int ret = open_dir(fdinfo, &d);
        if (ret == 0) {
                seekdir(d, (long)off);
        }
        return ret;
}

int
ref_wasi_host_dir_read__0(struct wasi_fdinfo *fdinfo, struct wasi_dirent *wde,
                          const uint8_t **namep, bool *eod)
{
        DIR *dir;
        int ret = open_dir(fdinfo, &dir);
        if (ret != 0) {
                return ret;
        }
        *eod = false;
        errno = 0;
        struct dirent *d = readdir(dir);
        if (d == NULL) {
                if (errno != 0) {
                        return errno;
                }
                *eod = true;
                return 0;
        }
        wde->d_next = telldir(dir);
        wde->d_ino = d->d_ino;
        size_t len = strlen(d->d_name);
        if (len > UINT32_MAX) {
                return ENAMETOOLONG;
        }
        wde->d_namlen = (uint32_t)len;
        wde->d_type = wasi_convert_dirent_filetype(d->d_type);
        *namep = (const uint8_t *)d->d_name;
        return 0;
}

/* -- paths */
int
ref_wasi_host_path_fdinfo_alloc__0(struct path_info *pi,
                                   struct wasi_fdinfo **fdinfop)
{
        return wasi_fdinfo_alloc_host(fdinfop);
}

/* only a directory keeps its path */
int
ref_wasi_host_path_open__0(struct path_info *pi,
                           const struct path_open_params *params,
                           struct wasi_fdinfo *fdinfo)
{
        int flags;
        int ret = wasi_build_oflags(params->lookupflags, params->wasmoflags,
                                    params->rights_base, params->fdflags,
                                    &flags);
        if (ret != 0) {
                return ret;
        }
        int fd = open(pi->hostpath, flags | O_NONBLOCK, 0666);
        if (fd == -1) {
                return errno;
        }
        struct stat st;
        ret = fstat(fd, &st);
        if (ret == -1) {
                ret = errno;
                close(fd);
                return ret;
        }
        if (!S_ISDIR(st.st_mode)) {
                free(pi->hostpath);
                pi->hostpath = NULL;
        }
        fdinfo->type = WASI_FDINFO_USER;
        struct wasi_fdinfo_host *h = host(fdinfo);
        h->user.path = pi->hostpath;
        h->user.blocking = (params->fdflags & 4) == 0;
        h->hostfd = fd;
        h->dir = NULL;
        pi->hostpath = NULL;
        return ret;
}

int
ref_wasi_host_path_unlink__0(const struct path_info *pi)
{
        return outcome(unlink(pi->hostpath));
}

int
ref_wasi_host_path_mkdir__0(const struct path_info *pi)
{
        return outcome(mkdir(pi->hostpath, 0777));
}

int
ref_wasi_host_path_rmdir__0(const struct path_info *pi)
{
        return outcome(rmdir(pi->hostpath));
}

int
ref_wasi_host_path_symlink__0(const char *target, const struct path_info *pi)
{
        return outcome(symlink(target, pi->hostpath));
}

int
ref_wasi_host_path_readlink__0(const struct path_info *pi, char *buf,
                               size_t len, size_t *resultp)
{
        ssize_t r = readlink(pi->hostpath, buf, len);
        if (r == -1) {
                return errno;
        }
        *resultp = r;
        return 0;
}

int
ref_wasi_host_path_link__0(const struct path_info *from,
                           const struct path_info *to)
{
        return outcome(link(from->hostpath, to->hostpath));
}

int
ref_wasi_host_path_rename__0(const struct path_info *from,
                             const struct path_info *to)
{
        return outcome(rename(from->hostpath, to->hostpath));
}

int
ref_wasi_host_path_stat__0(const struct path_info *pi,
                           struct wasi_filestat *wst)
{
        struct stat st;
        int r = stat(pi->hostpath, &st);
        if (r == 0) {
                wasi_convert_filestat(&st, wst);
                return 0;
        }
        return outcome(r);
}

int
ref_wasi_host_path_lstat__0(const struct path_info *pi,
                            struct wasi_filestat *wst)
{
        struct stat st;
        int r = lstat(pi->hostpath, &st);
        if (r == 0) {
                wasi_convert_filestat(&st, wst);
                return 0;
        }
        return outcome(r);
}

int
ref_wasi_host_path_utimes__0(const struct path_info *pi,
                             const struct utimes_args *args)
{
        struct timeval tv[2];
        const struct timeval *tvp;
        int ret = prepare_utimes_tv(args, tv, &tvp);
        if (ret != 0) {
                return ret;
        }
        return outcome(utimes(pi->hostpath, tvp));
}

int
ref_wasi_host_path_lutimes__0(const struct path_info *pi,
                              const struct utimes_args *args)
{
        struct timeval tv[2];
        const struct timeval *tvp;
        int ret = prepare_utimes_tv(args, tv, &tvp);
        if (ret != 0) {
                return ret;
        }
        return outcome(lutimes(pi->hostpath, tvp));
}

/* -- sockets */
int
ref_wasi_host_sock_fdinfo_alloc__0(struct wasi_fdinfo *fdinfo,
                                   struct wasi_fdinfo **fdinfop)
{
        return wasi_fdinfo_alloc_host(fdinfop);
}

int
ref_wasi_host_sock_accept__0(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
                             struct wasi_fdinfo *child)
{
        struct sockaddr_storage ss;
        socklen_t len = sizeof(ss);
        int fd = accept(FD, (struct sockaddr *)&ss, &len);
        if (fd < 0) {
                return errno;
        }
        int ret = set_nonblocking(fd, true, NULL);
        if (ret != 0) {
                if (fd != -1) {
                        close(fd);
                }
                return ret;
        }
        fdinfo->type = WASI_FDINFO_USER;
        struct wasi_fdinfo_host *h = host(child);
        h->user.path = NULL;
        h->user.blocking = (fdflags & 4) == 0;
        h->hostfd = fd;
        h->dir = NULL;
        return 0;
}

/* the type of the listening socket is known to be that already */
int
ref_wasi_host_sock_accept__1(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
                             struct wasi_fdinfo *child)
{
        struct sockaddr_storage ss;
        socklen_t len = sizeof(ss);
        int fd = accept(FD, (struct sockaddr *)&ss, &len);
        if (fd < 0) {
                return errno;
        }
        int ret = set_nonblocking(fd, true, NULL);
        if (ret != 0) {
                if (fd != -1) {
                        close(fd);
                }
                return ret;
        }
        child->type = WASI_FDINFO_USER;
        struct wasi_fdinfo_host *h = host(child);
        h->user.path = NULL;
        h->user.blocking = (fdflags & 4) == 0;
        h->hostfd = fd;
        h->dir = NULL;
        return 0;
}

int
ref_wasi_host_sock_recv__0(struct wasi_fdinfo *fdinfo, struct iovec *iov,
                           int n, uint16_t riflags, uint16_t *roflagsp,
                           size_t *resultp)
{
        struct msghdr msg;
        memset(&msg, 0, sizeof(msg));
        msg.msg_iov = iov;
        msg.msg_iovlen = n;
        ssize_t r = recvmsg(FD, &msg, (riflags & 1) != 0 ? MSG_PEEK : 0);
        if (r == -1) {
                return errno;
        }
        *roflagsp = (msg.msg_flags & MSG_TRUNC) != 0;
        *resultp = r;
        return 0;
}

int
ref_wasi_host_sock_send__0(struct wasi_fdinfo *fdinfo, struct iovec *iov,
                           int n, uint16_t siflags, size_t *resultp)
{
        struct msghdr msg;
        memset(&msg, 0, sizeof(msg));
        msg.msg_iov = iov;
        msg.msg_iovlen = n;
        ssize_t r = sendmsg(FD, &msg, 0);
        if (r == -1) {
                return errno;
        }
        *resultp = r;
        return 0;
}

int
ref_wasi_host_sock_shutdown__0(struct wasi_fdinfo *fdinfo, uint16_t sdflags)
{
        int how;
        switch (sdflags) {
        case 1:
                how = SHUT_RD;
                break;
        case 2:
                how = SHUT_WR;
                break;
        case 3:
                how = SHUT_RDWR;
                break;
        default:
                return EINVAL;
        }
        int ret = shutdown(FD, how);
        return ret == -1 ? errno : ret;
}

/* -- buffers as one piece */
int
ref_wasi_iovec_flatten__0(const struct iovec *iov, int n, void **bufp,
                          size_t *lenp)
{
        size_t len = 0;
        int i;
        for (i = 0; i < n; i++) {
                len += iov[i].iov_len;
        }
        uint8_t *buf = malloc(len);
        if (buf == NULL) {
                return ENOMEM;
        }
        uint8_t *p = buf;
        for (i = 0; i < n; i++) {
                size_t sz = iov[i].iov_len;
                memcpy(p, iov[i].iov_base, sz);
                p += iov[i].iov_len;
        }
        *bufp = buf;
        *lenp = len;
        return 0;
}

int
ref_wasi_iovec_flatten_uninitialized__0(const struct iovec *iov, int n,
                                        void **bufp, size_t *lenp)
{
        size_t len = 0;
        int i;
        for (i = 0; i < n; i++) {
                len += iov[i].iov_len;
        }
        uint8_t *buf = malloc(len);
        if (buf == NULL) {
                return ENOMEM;
        }
        *bufp = buf;
        *lenp = len;
        return 0;
}

void
ref_wasi_iovec_commit_flattened_data__0(const struct iovec *iov, int n,
                                        const void *buf, size_t len)
{
        const uint8_t *p = buf;
        int i;
        for (i = 0; i < n; i++) {
                size_t sz = iov[i].iov_len;
                if (len < sz) {
                        sz = len;
                }
                memcpy(iov[i].iov_base, p, sz);
                p += sz;
                len -= sz;
        }
}

void
ref_wasi_iovec_free_flattened_buffer__0(void *buf)
{
        free(buf);
}

/* -- dispatch to the file system of a descriptor or of a directory */
static const struct wasi_vfs_ops *
fd_ops(struct wasi_fdinfo *fdinfo)
{
        return wasi_fdinfo_vfs(fdinfo)->ops;
}

int
ref_wasi_vfs_fd_fallocate__0(struct wasi_fdinfo *fdinfo, uint64_t offset,
                             wasi_off_t len)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_fallocate == NULL ? ENOTSUP : ops->fd_fallocate(fdinfo, offset, len);
}

int
ref_wasi_vfs_fd_ftruncate__0(struct wasi_fdinfo *fdinfo, wasi_off_t size)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_ftruncate == NULL ? ENOTSUP : ops->fd_ftruncate(fdinfo, size);
}

int
ref_wasi_vfs_fd_writev__0(struct wasi_fdinfo *fdinfo, const struct iovec *iov,
                          int iovcnt, size_t *result)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_writev == NULL ? ENOTSUP : ops->fd_writev(fdinfo, iov, iovcnt, result);
}

int
ref_wasi_vfs_fd_pwritev__0(struct wasi_fdinfo *fdinfo, const struct iovec *iov,
                           int iovcnt, wasi_off_t off, size_t *result)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_pwritev == NULL ? ENOTSUP : ops->fd_pwritev(fdinfo, iov, iovcnt, off, result);
}

int
ref_wasi_vfs_fd_get_flags__0(struct wasi_fdinfo *fdinfo, uint16_t *result)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_get_flags == NULL ? ENOTSUP : ops->fd_get_flags(fdinfo, result);
}

int
ref_wasi_vfs_fd_readv__0(struct wasi_fdinfo *fdinfo, const struct iovec *iov,
                         int iovcnt, size_t *result)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_readv == NULL ? ENOTSUP : ops->fd_readv(fdinfo, iov, iovcnt, result);
}

int
ref_wasi_vfs_fd_preadv__0(struct wasi_fdinfo *fdinfo, const struct iovec *iov,
                          int iovcnt, wasi_off_t off, size_t *result)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_preadv == NULL ? ENOTSUP : ops->fd_preadv(fdinfo, iov, iovcnt, off, result);
}

int
ref_wasi_vfs_fd_fstat__0(struct wasi_fdinfo *fdinfo, struct wasi_filestat *stp)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_fstat == NULL ? ENOTSUP : ops->fd_fstat(fdinfo, stp);
}

int
ref_wasi_vfs_fd_lseek__0(struct wasi_fdinfo *fdinfo, wasi_off_t offset,
                         int whence, wasi_off_t *result)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_lseek == NULL ? ENOTSUP : ops->fd_lseek(fdinfo, offset, whence, result);
}

int
ref_wasi_vfs_fd_fsync__0(struct wasi_fdinfo *fdinfo)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_fsync == NULL ? ENOTSUP : ops->fd_fsync(fdinfo);
}

int
ref_wasi_vfs_fd_fdatasync__0(struct wasi_fdinfo *fdinfo)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_fdatasync == NULL ? ENOTSUP : ops->fd_fdatasync(fdinfo);
}

int
ref_wasi_vfs_fd_futimes__0(struct wasi_fdinfo *fdinfo,
                           const struct utimes_args *args)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_futimes == NULL ? ENOTSUP : ops->fd_futimes(fdinfo, args);
}

int
ref_wasi_vfs_fd_close__0(struct wasi_fdinfo *fdinfo)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->fd_close == NULL ? ENOTSUP : ops->fd_close(fdinfo);
}

int
ref_wasi_vfs_dir_rewind__0(struct wasi_fdinfo *fdinfo)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->dir_rewind == NULL ? ENOTSUP : ops->dir_rewind(fdinfo);
}

int
ref_wasi_vfs_dir_seek__0(struct wasi_fdinfo *fdinfo, uint64_t offset)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->dir_seek == NULL ? ENOTSUP : ops->dir_seek(fdinfo, offset);
}

int
ref_wasi_vfs_dir_read__0(struct wasi_fdinfo *fdinfo, struct wasi_dirent *wde,
                         const uint8_t **namep, bool *eod)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->dir_read == NULL ? ENOTSUP : ops->dir_read(fdinfo, wde, namep, eod);
}

int
ref_wasi_vfs_path_fdinfo_alloc__0(struct path_info *pi,
                                  struct wasi_fdinfo **fdinfop)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_fdinfo_alloc == NULL ? ENOTSUP : ops->path_fdinfo_alloc(pi, fdinfop);
}

int
ref_wasi_vfs_path_open__0(struct path_info *pi,
                          const struct path_open_params *params,
                          struct wasi_fdinfo *fdinfo)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_open == NULL ? ENOTSUP : ops->path_open(pi, params, fdinfo);
}

int
ref_wasi_vfs_path_unlink__0(const struct path_info *pi)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_unlink == NULL ? ENOTSUP : ops->path_unlink(pi);
}

int
ref_wasi_vfs_path_mkdir__0(const struct path_info *pi)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_mkdir == NULL ? ENOTSUP : ops->path_mkdir(pi);
}

int
ref_wasi_vfs_path_rmdir__0(const struct path_info *pi)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_rmdir == NULL ? ENOTSUP : ops->path_rmdir(pi);
}

int
ref_wasi_vfs_path_symlink__0(const char *target_buf,
                             const struct path_info *pi)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_symlink == NULL ? ENOTSUP : ops->path_symlink(target_buf, pi);
}

int
ref_wasi_vfs_path_readlink__0(const struct path_info *pi, char *buf,
                              size_t buflen, size_t *resultp)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_readlink == NULL ? ENOTSUP : ops->path_readlink(pi, buf, buflen, resultp);
}

int
ref_wasi_vfs_path_link__0(const struct path_info *pi1,
                          const struct path_info *pi2)
{
        if (wasi_fdinfo_vfs(pi1->dirfdinfo) !=
            wasi_fdinfo_vfs(pi2->dirfdinfo)) {
                return EXDEV;
        }
        const struct wasi_vfs_ops *ops = fd_ops(pi1->dirfdinfo);
        return ops->path_link == NULL ? ENOTSUP : ops->path_link(pi1, pi2);
}

int
ref_wasi_vfs_path_rename__0(const struct path_info *pi1,
                            const struct path_info *pi2)
{
        if (wasi_fdinfo_vfs(pi1->dirfdinfo) !=
            wasi_fdinfo_vfs(pi2->dirfdinfo)) {
                return EXDEV;
        }
        const struct wasi_vfs_ops *ops = fd_ops(pi1->dirfdinfo);
        return ops->path_rename == NULL ? ENOTSUP : ops->path_rename(pi1, pi2);
}

int
ref_wasi_vfs_path_stat__0(const struct path_info *pi,
                          struct wasi_filestat *stp)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_stat == NULL ? ENOTSUP : ops->path_stat(pi, stp);
}

int
ref_wasi_vfs_path_lstat__0(const struct path_info *pi,
                           struct wasi_filestat *stp)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_lstat == NULL ? ENOTSUP : ops->path_lstat(pi, stp);
}

int
ref_wasi_vfs_path_utimes__0(const struct path_info *pi,
                            const struct utimes_args *args)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_utimes == NULL ? ENOTSUP : ops->path_utimes(pi, args);
}

int
ref_wasi_vfs_path_lutimes__0(const struct path_info *pi,
                             const struct utimes_args *args)
{
        const struct wasi_vfs_ops *ops = fd_ops(pi->dirfdinfo);
        return ops->path_lutimes == NULL ? ENOTSUP : ops->path_lutimes(pi, args);
}

int
ref_wasi_vfs_sock_fdinfo_alloc__0(struct wasi_fdinfo *fdinfo,
                                  struct wasi_fdinfo **fdinfop)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->sock_fdinfo_alloc == NULL ? ENOTSUP : ops->sock_fdinfo_alloc(fdinfo, fdinfop);
}

int
ref_wasi_vfs_sock_accept__0(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
                            struct wasi_fdinfo *fdinfo2)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->sock_accept == NULL ? ENOTSUP : ops->sock_accept(fdinfo, fdflags, fdinfo2);
}

int
ref_wasi_vfs_sock_recv__0(struct wasi_fdinfo *fdinfo, struct iovec *iov,
                          int iovcnt, uint16_t riflags, uint16_t *roflagsp,
                          size_t *result)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->sock_recv == NULL ? ENOTSUP : ops->sock_recv(fdinfo, iov, iovcnt, riflags, roflagsp, result);
}

int
ref_wasi_vfs_sock_send__0(struct wasi_fdinfo *fdinfo, struct iovec *iov,
                          int iovcnt, uint16_t siflags, size_t *result)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->sock_send == NULL ? ENOTSUP : ops->sock_send(fdinfo, iov, iovcnt, siflags, result);
}

int
ref_wasi_vfs_sock_shutdown__0(struct wasi_fdinfo *fdinfo, uint16_t sdflags)
{
        const struct wasi_vfs_ops *ops = fd_ops(fdinfo);
        return ops->sock_shutdown == NULL ? ENOTSUP : ops->sock_shutdown(fdinfo, sdflags);
}

int
ref_wasi_vfs_fs_umount__0(struct wasi_vfs *vfs)
{
        const struct wasi_vfs_ops *ops = vfs->ops;
        return ops->fs_umount == NULL ? ENOTSUP : ops->fs_umount(vfs);
}

/* the host file system's operations, each under its own name */
const struct wasi_vfs_ops ref_host_ops = {
        .fd_fallocate = wasi_host_fd_fallocate,
        .fd_ftruncate = wasi_host_fd_ftruncate,
        .fd_writev = wasi_host_fd_writev,
        .fd_pwritev = wasi_host_fd_pwritev,
        .fd_get_flags = wasi_host_fd_get_flags,
        .fd_readv = wasi_host_fd_readv,
        .fd_preadv = wasi_host_fd_preadv,
        .fd_fstat = wasi_host_fd_fstat,
        .fd_lseek = wasi_host_fd_lseek,
        .fd_fsync = wasi_host_fd_fsync,
        .fd_fdatasync = wasi_host_fd_fdatasync,
        .fd_futimes = wasi_host_fd_futimes,
        .fd_close = wasi_host_fd_close,
        .dir_rewind = wasi_host_dir_rewind,
        .dir_seek = wasi_host_dir_seek,
        .dir_read = wasi_host_dir_read,
        .path_fdinfo_alloc = wasi_host_path_fdinfo_alloc,
        .path_open = wasi_host_path_open,
        .path_unlink = wasi_host_path_unlink,
        .path_mkdir = wasi_host_path_mkdir,
        .path_rmdir = wasi_host_path_rmdir,
        .path_symlink = wasi_host_path_symlink,
        .path_readlink = wasi_host_path_readlink,
        .path_link = wasi_host_path_link,
        .path_rename = wasi_host_path_rename,
        .path_stat = wasi_host_path_stat,
        .path_lstat = wasi_host_path_lstat,
        .path_utimes = wasi_host_path_utimes,
        .path_lutimes = wasi_host_path_lutimes,
        .sock_fdinfo_alloc = wasi_host_sock_fdinfo_alloc,
        .sock_accept = wasi_host_sock_accept,
        .sock_recv = wasi_host_sock_recv,
        .sock_send = wasi_host_sock_send,
        .sock_shutdown = wasi_host_sock_shutdown,
};
