/*
 * WASI: descriptor table, access to guest data, and the functions called by
 * guests.
 *
 * Every function called by a guest has the same frame: the parameters are
 * converted, the call is performed, what it holds is given back, and its
 * error code is delivered unless the call traps or is interrupted.
 */
#define _GNU_SOURCE
#include <sys/random.h>
#include <sys/stat.h>

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include "cconv.h"
#include "cell.h"
#include "endian.h"
#include "exec.h"
#include "mem.h"
#include "module.h"
#include "nbio.h"
#include "restart.h"
#include "timeutil.h"
#include "wasi.h"
#include "wasi_host_subr.h"
#include "wasi_impl.h"
#include "wasi_path_subr.h"
#include "wasi_poll_subr.h"
#include "wasi_subr.h"
#include "wasi_uio.h"
#include "wasi_utimes.h"
#include "wasi_vfs.h"
#include "wasi_vfs_impl_host.h"

#include "wasiabi.h"

int wasi_fdinfo_wait(struct exec_context *, struct wasi_instance *,
                     struct wasi_fdinfo *);
int args_environ_sizes_get(struct exec_context *, struct wasi_instance *,
                           const struct functype *, const struct cell *,
                           struct cell *, int, const char *const *);
int args_environ_get(struct exec_context *, struct wasi_instance *,
                     const struct functype *, const struct cell *,
                     struct cell *, int, const char *const *);

/* -- a call: its arguments, its error code and its way of ending */
#define CALL                                                                  \
        struct exec_context *ctx, struct host_instance *hi,                   \
                const struct functype *ft, const struct cell *params,         \
                struct cell *results

struct call {
        struct exec_context *ctx;
        struct wasi_instance *wasi;
        struct meminst *mem;
        const struct val *arg;
        struct wasi_fdinfo **fdinfop;
        int trap;
};

#define BEGIN                                                                 \
        struct val *v = calloc(ft->parameter.ntypes, sizeof(*v));             \
        if (v == NULL) {                                                      \
                return ENOMEM;                                                \
        }                                                                     \
        vals_from_cells(v, params, &ft->parameter);                           \
        struct call call;                                                     \
        struct call *c = &call;                                               \
        c->ctx = ctx;                                                         \
        c->wasi = (struct wasi_instance *)hi;                                 \
        c->arg = v;                                                           \
        struct wasi_fdinfo *got = NULL;                                       \
        c->fdinfop = &got;                                                    \
        c->trap = 0;                                                          \
        int err

#define END                                                                   \
        if (c->trap == 0) {                                                   \
                deliver(ft, results, err);                                    \
        }                                                                     \
        free(v);                                                              \
        return c->trap

#define I32(n) (c->arg[n].u.i32)
#define I64(n) (c->arg[n].u.i64)
#define MEM (c->wasi->hi.memory)

static void
deliver(const struct functype *ft, struct cell *results, int err)
{
        struct val x;
        x.u.i32 = wasi_convert_errno(err);
        uint32_t csz;
        uint32_t at = resulttype_cellidx(&ft->result, 0, &csz);
        val_to_cells(&x, &results[at], csz);
}

/* -- descriptors */
bool
ref_wasi_fdinfo_is_prestat__0(const struct wasi_fdinfo *fdinfo)
{
        return fdinfo->type == WASI_FDINFO_PRESTAT;
}

const char *
ref_wasi_fdinfo_path__0(struct wasi_fdinfo *fdinfo)
{
        if (fdinfo->type == WASI_FDINFO_PRESTAT) {
                return ((struct wasi_fdinfo_prestat *)fdinfo)->prestat_path;
        }
        if (fdinfo->type == WASI_FDINFO_USER) {
                return ((struct wasi_fdinfo_user *)fdinfo)->path;
        }
        return NULL;
}

int
ref_wasi_fdinfo_alloc_prestat__0(struct wasi_fdinfo **fdinfop)
{
        struct wasi_fdinfo_prestat *p = xzalloc(sizeof(*p));
        if (p == NULL) {
                return ENOMEM;
        }
        p->fdinfo.refcount = 0;
        p->fdinfo.type = WASI_FDINFO_PRESTAT;
        *fdinfop = &p->fdinfo;
        return 0;
}

void
ref_wasi_fdinfo_user_init__0(struct wasi_fdinfo_user *u)
{
        u->fdinfo.refcount = 0;
        u->fdinfo.type = WASI_FDINFO_USER;
        u->blocking = 1;
        u->path = NULL;
}

int
ref_wasi_fdinfo_alloc_host__0(struct wasi_fdinfo **fdinfop)
{
        struct wasi_fdinfo_host *h = malloc(sizeof(*h));
        if (h == NULL) {
                return ENOMEM;
        }
        wasi_fdinfo_user_init(&h->user);
        h->user.vfs = wasi_get_vfs_host();
        h->hostfd = -1;
        h->dir = NULL;
        *fdinfop = &h->user.fdinfo;
        return 0;
}

bool
ref_wasi_fdinfo_is_host__0(struct wasi_fdinfo *fdinfo)
{
        return fdinfo->type == WASI_FDINFO_USER &&
               ((struct wasi_fdinfo_user *)fdinfo)->vfs ==
                       wasi_get_vfs_host();
}

void
ref_wasi_fdinfo_clear__0(struct wasi_fdinfo *fdinfo)
{
        if (fdinfo->type == WASI_FDINFO_PRESTAT) {
                struct wasi_fdinfo_prestat *p = (void *)fdinfo;
                free(p->prestat_path);
                free(p->wasm_path);
        }
}

void
ref_wasi_fdinfo_free__0(struct wasi_fdinfo *fdinfo)
{
        if (fdinfo != NULL) {
                wasi_fdinfo_clear(fdinfo);
                free(fdinfo);
        }
}

/* a thread that waits to close the descriptor goes on when only the table
 * and itself refer to it */
void
ref_wasi_fdinfo_release__0(struct wasi_instance *wasi,
                           struct wasi_fdinfo *fdinfo)
{
        if (fdinfo == NULL) {
                return;
        }
        toywasm_mutex_lock(&wasi->lock);
        fdinfo->refcount--;
        if (fdinfo->refcount == 1) {
                toywasm_cv_signal(&wasi->cv, &wasi->lock);
        }
        if (fdinfo->refcount == 0) {
                wasi_fdinfo_free(fdinfo);
        }
        toywasm_mutex_unlock(&wasi->lock);
}

int
ref_wasi_fdinfo_close__0(struct wasi_fdinfo *fdinfo)
{
        int ret = 0;
        if (fdinfo->type == WASI_FDINFO_PRESTAT) {
                struct wasi_fdinfo_prestat *p = (void *)fdinfo;
                free(p->prestat_path);
                free(p->wasm_path);
                p->prestat_path = NULL;
                p->wasm_path = NULL;
        } else if (fdinfo->type == WASI_FDINFO_USER) {
                struct wasi_fdinfo_user *u = (void *)fdinfo;
                ret = wasi_vfs_fd_close(fdinfo);
                free(u->path);
                u->path = NULL;
        }
        return ret;
}

/* -- table of descriptors */
void
ref_wasi_table_affix__0(struct wasi_instance *wasi, enum wasi_table_idx idx,
                        uint32_t wasifd, struct wasi_fdinfo *fdinfo)
{
        fdinfo->refcount++;
        wasi->fdtable[idx].table.p[wasifd] = fdinfo;
}

int
ref_wasi_table_lookup_locked__0(struct wasi_instance *wasi,
                                enum wasi_table_idx idx, uint32_t wasifd,
                                struct wasi_fdinfo **infop)
{
        struct wasi_table *t = &wasi->fdtable[idx];
        if (wasifd >= t->table.lsize || t->table.p[wasifd] == NULL) {
                return EBADF;
        }
        struct wasi_fdinfo *fdinfo = t->table.p[wasifd];
        fdinfo->refcount++;
        *infop = fdinfo;
        return 0;
}

int
ref_wasi_table_lookup__0(struct wasi_instance *wasi, enum wasi_table_idx idx,
                         uint32_t wasifd, struct wasi_fdinfo **infop)
{
        toywasm_mutex_lock(&wasi->lock);
        int ret = wasi_table_lookup_locked(wasi, idx, wasifd, infop);
        toywasm_mutex_unlock(&wasi->lock);
        return ret;
}

int
ref_wasi_fdinfo_wait__0(struct exec_context *ctx, struct wasi_instance *wasi,
                        struct wasi_fdinfo *fdinfo)
{
        struct timespec abs;
        int ret = abstime_from_reltime_ms(CLOCK_REALTIME, &abs,
                                          check_interrupt_interval_ms(ctx));
        if (ret != 0) {
                return 0;
        }
        toywasm_cv_timedwait(&wasi->cv, &wasi->lock, &abs);
        toywasm_mutex_unlock(&wasi->lock);
        ret = check_interrupt(ctx);
        toywasm_mutex_lock(&wasi->lock);
        return ret;
}

/* the reference of the caller must be the only one besides the table's */
int
ref_wasi_table_lookup_locked_for_close__0(struct exec_context *ctx,
                                          struct wasi_instance *wasi,
                                          enum wasi_table_idx idx,
                                          uint32_t wasifd,
                                          struct wasi_fdinfo **fdinfop,
                                          int *retp)
{
        struct wasi_fdinfo *fdinfo;
        while (true) {
                int ret = wasi_table_lookup_locked(wasi, idx, wasifd, &fdinfo);
                if (ret != 0) {
                        *retp = ret;
                        return 0;
                }
                if (fdinfo->refcount <= 2) {
                        break;
                }
                fdinfo->refcount--;
                ret = wasi_fdinfo_wait(ctx, wasi, fdinfo);
                if (ret != 0) {
                        return ret;
                }
        }
        *fdinfop = fdinfo;
        *retp = 0;
        return 0;
}

int
ref_wasi_table_expand__0(struct wasi_instance *wasi, enum wasi_table_idx idx,
                         uint32_t maxfd)
{
        struct wasi_table *t = &wasi->fdtable[idx];
        uint32_t osize = t->table.lsize;
        if (maxfd < osize) {
                return 0;
        }
        int ret = _vec_resize(wasi->mctx, &t->table, sizeof(*t->table.p),
                              maxfd + 1);
        if (ret != 0) {
                return ret;
        }
        uint32_t i;
        for (i = osize; i <= maxfd; i++) {
                t->table.p[i] = NULL;
        }
        return 0;
}

void
ref_wasi_table_clear__0(struct wasi_instance *wasi, enum wasi_table_idx idx)
{
        struct wasi_table *t = &wasi->fdtable[idx];
        struct wasi_fdinfo **it;
        uint32_t i;
        VEC_FOREACH_IDX(i, it, t->table) {
                struct wasi_fdinfo *fdinfo = *it;
                if (fdinfo != NULL) {
                        wasi_fdinfo_close(fdinfo);
                        fdinfo->refcount--;
                        wasi_fdinfo_free(fdinfo);
                }
        }
        VEC_FREE(wasi->mctx, t->table);
}

/* the lowest free descriptor that is not reserved */
int
ref_wasi_table_alloc_slot__0(struct wasi_instance *wasi,
                             enum wasi_table_idx idx, uint32_t *wasifdp)
{
        struct wasi_table *t = &wasi->fdtable[idx];
        struct wasi_fdinfo **it;
        uint32_t fd;
        VEC_FOREACH_IDX(fd, it, t->table) {
                if (fd >= t->reserved_slots && *it == NULL) {
                        *wasifdp = fd;
                        return 0;
                }
        }
        fd = t->table.lsize;
        if (fd < t->reserved_slots) {
                fd = t->reserved_slots;
        }
        int ret = wasi_table_expand(wasi, idx, fd);
        if (ret != 0) {
                return ret;
        }
        *wasifdp = fd;
        return 0;
}

int
ref_wasi_table_fdinfo_add__0(struct wasi_instance *wasi,
                             enum wasi_table_idx idx,
                             struct wasi_fdinfo *fdinfo, uint32_t *wasifdp)
{
        uint32_t fd;
        toywasm_mutex_lock(&wasi->lock);
        int ret = wasi_table_alloc_slot(wasi, idx, &fd);
        if (ret == 0) {
                wasi_table_affix(wasi, idx, fd, fdinfo);
        }
        toywasm_mutex_unlock(&wasi->lock);
        if (ret == 0) {
                *wasifdp = fd;
        }
        return ret;
}

struct wasi_fdinfo **
ref_wasi_table_slot_ptr__0(struct wasi_instance *wasi,
                           enum wasi_table_idx idx, uint32_t wasifd)
{
        return &wasi->fdtable[idx].table.p[wasifd];
}

int
ref_wasi_fd_lookup__0(struct wasi_instance *wasi, uint32_t wasifd,
                      struct wasi_fdinfo **infop)
{
        toywasm_mutex_lock(&wasi->lock);
        int ret = wasi_table_lookup_locked(wasi, WASI_TABLE_FILES, wasifd,
                                           infop);
        toywasm_mutex_unlock(&wasi->lock);
        return ret;
}

int
ref_wasi_userfd_lookup__0(struct wasi_instance *wasi, uint32_t wasifd,
                          struct wasi_fdinfo **fdinfop)
{
        struct wasi_fdinfo *info;
        int ret = wasi_fd_lookup(wasi, wasifd, &info);
        if (ret != 0) {
                return ret;
        }
        if (info->type != WASI_FDINFO_USER) {
                wasi_fdinfo_release(wasi, info);
                return EBADF;
        }
        *fdinfop = info;
        return 0;
}

int
ref_wasi_hostfd_lookup__0(struct wasi_instance *wasi, uint32_t wasifd,
                          int *hostfdp, struct wasi_fdinfo **fdinfop)
{
        struct wasi_fdinfo *info;
        int ret = wasi_userfd_lookup(wasi, wasifd, &info);
        if (ret != 0) {
                return ret;
        }
        if (!wasi_fdinfo_is_host(info)) {
                wasi_fdinfo_release(wasi, info);
                return EBADF;
        }
        *hostfdp = ((struct wasi_fdinfo_host *)info)->hostfd;
        *fdinfop = info;
        return 0;
}

int
ref_wasi_hostfd_add__0(struct wasi_instance *wasi, int hostfd, char *path,
                       uint16_t fdflags, uint32_t *wasifdp)
{
        struct wasi_fdinfo *fdinfo;
        uint32_t wasifd;
        int ret = wasi_fdinfo_alloc_host(&fdinfo);
        if (ret != 0) {
                free(path);
                return ret;
        }
        struct wasi_fdinfo_host *h = (void *)fdinfo;
        h->user.path = path;
        h->user.blocking = (fdflags & 4) == 0;
        h->hostfd = hostfd;
        ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo, &wasifd);
        if (ret != 0) {
                h->hostfd = -1;
                wasi_fdinfo_close(fdinfo);
                wasi_fdinfo_free(fdinfo);
                return ret;
        }
        *wasifdp = wasifd;
        return 0;
}

/* -- instance */
int
ref_wasi_instance_create__0(struct mem_context *mctx,
                            struct wasi_instance **instp)
{
        struct wasi_instance *inst = mem_zalloc(mctx, sizeof(*inst));
        if (inst == NULL) {
                return ENOMEM;
        }
        inst->mctx = mctx;
        toywasm_mutex_init(&inst->lock);
        toywasm_cv_init(&inst->cv);
        inst->fdtable[WASI_TABLE_FILES].reserved_slots = 3;
        *instp = inst;
        return 0;
}

void
ref_wasi_instance_set_memory__0(struct wasi_instance *inst,
                                struct meminst *mem)
{
        inst->hi.memory = mem;
}

void
ref_wasi_instance_set_args__0(struct wasi_instance *inst, int argc,
                              const char *const *argv)
{
        inst->argc = argc;
        inst->argv = argv;
}

void
ref_wasi_instance_set_environ__0(struct wasi_instance *inst, int nenvs,
                                 const char *const *envs)
{
        inst->nenvs = nenvs;
        inst->envs = envs;
}

uint32_t
ref_wasi_instance_exit_code__0(struct wasi_instance *wasi)
{
        toywasm_mutex_lock(&wasi->lock);
        uint32_t code = wasi->exit_code;
        toywasm_mutex_unlock(&wasi->lock);
        return code;
}

void
ref_wasi_instance_destroy__0(struct wasi_instance *inst)
{
        wasi_table_clear(inst, WASI_TABLE_FILES);
        toywasm_cv_destroy(&inst->cv);
        toywasm_mutex_destroy(&inst->lock);
        mem_free(inst->mctx, inst, sizeof(*inst));
}

int
ref_wasi_instance_add_hostfd__0(struct wasi_instance *inst, uint32_t wasmfd,
                                int hostfd)
{
        struct wasi_fdinfo *fdinfo = NULL;
        toywasm_mutex_lock(&inst->lock);
        int ret = wasi_table_expand(inst, WASI_TABLE_FILES, wasmfd);
        if (ret != 0) {
                goto out;
        }
        ret = wasi_table_lookup_locked(inst, WASI_TABLE_FILES, wasmfd,
                                       &fdinfo);
        if (ret == 0) {
                ret = EBUSY;
                goto out;
        }
        if (ret != EBADF) {
                goto out;
        }
        ret = wasi_fdinfo_alloc_host(&fdinfo);
        if (ret != 0) {
                goto out;
        }
        if (!isatty(hostfd)) {
                ret = set_nonblocking(hostfd, true, NULL);
                if (ret != 0) {
                        wasi_fdinfo_free(fdinfo);
                        fdinfo = NULL;
                        goto out;
                }
        }
        ((struct wasi_fdinfo_host *)fdinfo)->hostfd = dup(hostfd);
        wasi_table_affix(inst, WASI_TABLE_FILES, wasmfd, fdinfo);
        fdinfo = NULL;
        ret = 0;
out:
        toywasm_mutex_unlock(&inst->lock);
        wasi_fdinfo_release(inst, fdinfo);
        return ret;
}

int
ref_wasi_instance_populate_stdio_with_hostfd__0(struct wasi_instance *inst)
{
        uint32_t i;
        for (i = 0; i < 3; i++) {
                int ret = wasi_instance_add_hostfd(inst, i, i);
                if (ret != 0) {
                        return ret;
                }
        }
        return 0;
}

/* HOST or HOST::GUEST */
int
ref_wasi_instance_prestat_add_vfs__0(struct wasi_instance *wasi,
                                     const char *path, struct wasi_vfs *vfs)
{
        struct wasi_fdinfo *fdinfo = NULL;
        char *host_path = NULL;
        char *wasm_path = NULL;
        uint32_t wasifd;
        int ret;
        const char *sep = strstr(path, "::");
        if (sep != NULL) {
                host_path = strndup(path, sep - path);
                wasm_path = strdup(sep + 2);
                if (wasm_path == NULL) {
                        ret = ENOMEM;
                        goto fail;
                }
        } else {
                host_path = strdup(path);
        }
        if (host_path == NULL) {
                ret = ENOMEM;
                goto fail;
        }
        ret = wasi_fdinfo_alloc_prestat(&fdinfo);
        if (ret != 0) {
                goto fail;
        }
        struct wasi_fdinfo_prestat *p = (void *)fdinfo;
        p->vfs = vfs;
        p->prestat_path = host_path;
        p->wasm_path = wasm_path;
        host_path = NULL;
        wasm_path = NULL;
        ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo, &wasifd);
        if (ret == 0) {
                return 0;
        }
fail:
        free(host_path);
        free(wasm_path);
        wasi_fdinfo_free(fdinfo);
        return ret;
}

int
ref_wasi_instance_prestat_add__0(struct wasi_instance *wasi, const char *path)
{
        return wasi_instance_prestat_add_vfs(wasi, path, wasi_get_vfs_host());
}

/* -- guest data */
void
ref_path_clear__0(struct wasi_instance *wasi, struct path_info *pi)
{
        wasi_fdinfo_release(wasi, pi->dirfdinfo);
        free(pi->hostpath);
}

/* a path that is relative and has no NUL inside, below the directory */
int
ref_wasi_copyin_and_convert_path__0(struct exec_context *ctx,
                                    struct wasi_instance *wasi,
                                    uint32_t dirwasifd, uint32_t path,
                                    uint32_t pathlen, struct path_info *pi,
                                    int *usererrorp)
{
        char *hostpath = NULL;
        struct wasi_fdinfo *dir = NULL;
        int trap = 0;
        int ret = 0;
        char *p = malloc((size_t)pathlen + 1);
        if (p == NULL) {
                ret = ENOMEM;
                goto fail;
        }
        trap = host_func_copyin(ctx, wasi->hi.memory, p, path, pathlen, 1);
        if (trap != 0) {
                goto fail;
        }
        p[pathlen] = 0;
        if (strlen(p) != pathlen) {
                ret = EINVAL;
                goto fail;
        }
        if (p[0] == '/') {
                ret = EPERM;
                goto fail;
        }
        ret = wasi_fd_lookup(wasi, dirwasifd, &dir);
        if (ret != 0) {
                goto fail;
        }
        const char *dirpath = wasi_fdinfo_path(dir);
        if (dirpath == NULL) {
                ret = ENOTDIR;
                goto fail;
        }
        if (asprintf(&hostpath, "%s/%s", dirpath, p) < 0) {
                ret = errno;
                goto fail;
        }
        pi->hostpath = hostpath;
        pi->dirfdinfo = dir;
        free(p);
        *usererrorp = 0;
        return 0;
fail:
        wasi_fdinfo_release(wasi, dir);
        free(hostpath);
        free(p);
        *usererrorp = ret;
        return trap;
}

/* an address obtained before the memory moved is not used */
int
ref_wasi_copyin_iovec__0(struct exec_context *ctx, struct meminst *mem,
                         uint32_t iov_uaddr, uint32_t iov_count,
                         struct iovec **resultp, int *usererrorp)
{
        struct iovec *iov = NULL;
        void *p;
        int trap = 0;
        int ret = 0;
        if (iov_count == 0) {
                ret = EINVAL;
                goto fail;
        }
        uint32_t bytes;
        ret = host_func_mul_size(iov_count, 8, &bytes);
        if (ret != 0) {
                goto fail;
        }
        iov = calloc(iov_count, sizeof(*iov));
        if (iov == NULL) {
                ret = ENOMEM;
                goto fail;
        }
again:
        trap = host_func_check_align(ctx, iov_uaddr, 4);
        if (trap != 0) {
                goto fail;
        }
        trap = host_func_getptr(ctx, mem, iov_uaddr, bytes, &p);
        if (trap != 0) {
                goto fail;
        }
        const uint8_t *in = p;
        uint32_t i;
        for (i = 0; i < iov_count; i++) {
                bool moved = false;
                uint32_t base = le32_decode(in + 8 * (size_t)i);
                uint32_t len = le32_decode(in + 8 * (size_t)i + 4);
                trap = host_func_getptr2(ctx, mem, base, len, &p, &moved);
                if (trap != 0) {
                        goto fail;
                }
                if (moved) {
                        goto again;
                }
                iov[i].iov_base = p;
                iov[i].iov_len = len;
        }
        *resultp = iov;
        *usererrorp = 0;
        return 0;
fail:
        free(iov);
        *usererrorp = ret;
        return trap;
}

int
ref_wasi_copyout_result_i32__0(struct exec_context *ctx, struct meminst *mem,
                               uint32_t retp, uint32_t result)
{
        uint32_t r = host_to_le32(result);
        return host_func_copyout(ctx, mem, &r, retp, 4, 4);
}

int
ref_wasi_copyout_result_fd__0(struct exec_context *ctx, struct meminst *mem,
                              uint32_t retp, uint32_t result)
{
        uint32_t r = host_to_le32(result);
        return host_func_copyout(ctx, mem, &r, retp, 4, 4);
}

int
ref_wasi_copyout_result_i64__0(struct exec_context *ctx, struct meminst *mem,
                               uint32_t retp, uint64_t result)
{
        uint64_t r = host_to_le64(result);
        return host_func_copyout(ctx, mem, &r, retp, 8, 8);
}

int
ref_wasi_validate_fstflags__0(uint32_t fstflags)
{
        /* both "set" and "set to now" */
        if ((fstflags & 3) == 3 || (fstflags & 12) == 12) {
                return EINVAL;
        }
        return 0;
}

int
ref_wasi_userfd_reject_directory__0(struct wasi_fdinfo *fdinfo)
{
        struct wasi_filestat st;
        int ret = wasi_vfs_fd_fstat(fdinfo, &st);
        if (ret != 0) {
                return ret;
        }
        return st.type == 3 ? EBADF : 0;
}

int
ref_wasi_unstable_convert_filestat__0(const struct wasi_filestat *wst,
                                      struct wasi_unstable_filestat *uwst)
{
        uint64_t n = le64_decode(&wst->linkcount);
        if (n > UINT32_MAX) {
                return E2BIG;
        }
        memset(uwst, 0, sizeof(*uwst));
        uwst->dev = wst->dev;
        uwst->ino = wst->ino;
        uwst->type = wst->type;
        le32_encode(&uwst->linkcount, (uint32_t)n);
        uwst->size = wst->size;
        uwst->atim = wst->atim;
        uwst->mtim = wst->mtim;
        uwst->ctim = wst->ctim;
        return 0;
}

/* -- waiting */
int
ref_wait_fd_ready__0(struct exec_context *ctx, int hostfd, short event,
                     int *retp)
{
        struct pollfd pfd;
        pfd.fd = hostfd;
        pfd.events = event;
        int n;
        return wasi_poll(ctx, &pfd, 1, -1, retp, &n);
}

bool
ref_emulate_blocking__0(struct exec_context *ctx, struct wasi_fdinfo *fdinfo,
                        short poll_event, int orig_ret, int *host_retp,
                        int *retp)
{
        if (!is_again(orig_ret) ||
            !((struct wasi_fdinfo_user *)fdinfo)->blocking) {
                *host_retp = 0;
                *retp = orig_ret;
                return false;
        }
        int ret;
        int trap = wait_fd_ready(ctx,
                                 ((struct wasi_fdinfo_host *)fdinfo)->hostfd,
                                 poll_event, &ret);
        if (trap == 0 && ret == 0) {
                return true;
        }
        *host_retp = trap;
        *retp = trap != 0 ? 0 : ret;
        return false;
}

int
ref_wasi_poll__0(struct exec_context *ctx, struct pollfd *fds, nfds_t nfds,
                 int timeout_ms, int *retp, int *neventsp)
{
        const int interval_ms = check_interrupt_interval_ms(ctx);
        int trap = 0;
        int ret = restart_info_prealloc(ctx);
        if (ret != 0) {
                return ret;
        }
        struct restart_info *restart = &VEC_NEXTELEM(ctx->restarts);
        struct timespec *until = &restart->restart_u.timer.abstimeout;
        if (restart->restart_type == RESTART_TIMER) {
                /* go on with the wait that was interrupted */
                restart->restart_type = RESTART_NONE;
        } else if (timeout_ms < 0) {
                until = NULL;
        } else {
                ret = abstime_from_reltime_ms(CLOCK_REALTIME, until,
                                              timeout_ms);
                if (ret != 0) {
                        *retp = ret;
                        return 0;
                }
        }
        while (true) {
                trap = check_interrupt(ctx);
                if (trap != 0) {
                        if (IS_RESTARTABLE(trap) && until != NULL) {
                                restart->restart_type = RESTART_TIMER;
                        }
                        return trap;
                }
                int ms;
                bool last = false;
                if (until != NULL) {
                        struct timespec next;
                        ret = abstime_from_reltime_ms(CLOCK_REALTIME, &next,
                                                      interval_ms);
                        if (ret != 0) {
                                break;
                        }
                        last = timespec_cmp(until, &next) <= 0;
                        if (last) {
                                ret = abstime_to_reltime_ms_roundup(
                                        CLOCK_REALTIME, until, &ms);
                                if (ret != 0) {
                                        break;
                                }
                        }
                }
                if (!last) {
                        ms = interval_ms;
                }
                ret = poll(fds, nfds, ms);
                if (ret < 0) {
                        ret = errno;
                        break;
                }
                if (ret > 0) {
                        *neventsp = ret;
                        ret = 0;
                        break;
                }
                if (ms != interval_ms) {
                        ret = ETIMEDOUT;
                        break;
                }
        }
        *retp = ret;
        return 0;
}

/* -- clocks, arguments, random numbers, exit */
static int
clock_get(struct call *c, uint32_t retp, int (*f)(clockid_t, struct timespec *))
{
        clockid_t id;
        int err = wasi_convert_clockid(I32(0), &id);
        if (err != 0) {
                return err;
        }
        struct timespec ts;
        err = f(id, &ts);
        if (err == -1) {
                return errno;
        }
        c->trap = wasi_copyout_result_i64(c->ctx, MEM, retp,
                                          timespec_to_ns(&ts));
        return err;
}

int
ref_wasi_clock_res_get__0(CALL)
{
        BEGIN;
        err = clock_get(c, I32(1), clock_getres);
        END;
}

int
ref_wasi_clock_time_get__0(CALL)
{
        BEGIN;
        err = clock_get(c, I32(2), clock_gettime);
        END;
}

static int
sizes(struct call *c, int n, const char *const *s)
{
        uint32_t x = host_to_le32(n);
        c->trap = host_func_copyout(c->ctx, MEM, &x, I32(0), 4, 4);
        if (c->trap != 0) {
                return 0;
        }
        uint32_t bytes = 0;
        int i;
        for (i = 0; i < n; i++) {
                size_t sz = strlen(s[i]);
                if (sz >= UINT32_MAX) {
                        return E2BIG;
                }
                sz++;
                if (UINT32_MAX - bytes <= sz) {
                        return E2BIG;
                }
                bytes += sz;
        }
        bytes = host_to_le32(bytes);
        c->trap = host_func_copyout(c->ctx, MEM, &bytes, I32(1), 4, 1);
        return 0;
}

static int
strings(struct call *c, int n, const char *const *s)
{
        uint32_t *addr = NULL;
        int err = 0;
        if (n > 0) {
                addr = malloc(n * sizeof(*addr));
                if (addr == NULL) {
                        err = ENOMEM;
                        goto out;
                }
        }
        uint32_t bytes;
        err = host_func_mul_size(n, sizeof(*addr), &bytes);
        if (err != 0) {
                goto out;
        }
        uint32_t at = I32(1);
        uint32_t i;
        for (i = 0; i < n; i++) {
                le32_encode(&addr[i], at);
                at += strlen(s[i]) + 1;
        }
        for (i = 0; i < n; i++) {
                size_t sz = strlen(s[i]);
                if (sz >= UINT32_MAX) {
                        err = E2BIG;
                        goto out;
                }
                c->trap = host_func_copyout(c->ctx, MEM, s[i],
                                            le32_to_host(addr[i]),
                                            (uint32_t)(sz + 1), 1);
                if (c->trap != 0) {
                        goto out;
                }
        }
        c->trap = host_func_copyout(c->ctx, MEM, addr, I32(0), bytes, 4);
out:
        free(addr);
        return err;
}

int
ref_wasi_args_sizes_get__0(CALL)
{
        BEGIN;
        err = sizes(c, c->wasi->argc, c->wasi->argv);
        END;
}

int
ref_wasi_args_get__0(CALL)
{
        BEGIN;
        err = strings(c, c->wasi->argc, c->wasi->argv);
        END;
}

int
ref_wasi_environ_sizes_get__0(CALL)
{
        BEGIN;
        err = sizes(c, c->wasi->nenvs, c->wasi->envs);
        END;
}

int
ref_wasi_environ_get__0(CALL)
{
        BEGIN;
        err = strings(c, c->wasi->nenvs, c->wasi->envs);
        END;
}

int
ref_wasi_proc_exit__0(CALL)
{
        BEGIN;
        uint32_t code = I32(0);
        toywasm_mutex_lock(&c->wasi->lock);
        c->wasi->exit_code = code;
        toywasm_mutex_unlock(&c->wasi->lock);
        free(v);
        (void)err;
        return trap_with_id(ctx, TRAP_VOLUNTARY_EXIT, "");
}

static int
random_bytes(struct call *c, uint32_t n)
{
        int err = 0;
        void *p;
        c->trap = host_func_getptr(c->ctx, MEM, I32(0), n, &p);
        if (c->trap != 0) {
                return 0;
        }
        while (n > 0) {
                ssize_t ssz = getrandom(p, n, 0);
                if (ssz == -1) {
                        err = errno;
                        if (err == EINTR) {
                                continue;
                        }
                        break;
                }
                p = (uint8_t *)p + ssz;
                n -= ssz;
        }
        return err;
}

int
ref_wasi_random_get__0(CALL)
{
        BEGIN;
        err = random_bytes(c, I32(1));
        END;
}

int
ref_wasi_sched_yield__0(CALL)
{
        deliver(ft, results, 0);
        return 0;
}

/* -- granted directories */
static const char *
granted(struct call *c)
{
        struct wasi_fdinfo_prestat *p = (void *)*c->fdinfop;
        return p->wasm_path != NULL ? p->wasm_path : p->prestat_path;
}

static int
prestat(struct call *c)
{
        int err = wasi_fd_lookup(c->wasi, I32(0), c->fdinfop);
        if (err == 0 && (*c->fdinfop)->type != WASI_FDINFO_PRESTAT) {
                err = EBADF;
        }
        return err;
}

static int
prestat_get(struct call *c)
{
        int err = prestat(c);
        if (err != 0) {
                return err;
        }
        struct wasi_fd_prestat st;
        memset(&st, 0, sizeof(st));
        st.type = 0;
        size_t len = strlen(granted(c));
        if (len > UINT32_MAX) {
                return EOVERFLOW;
        }
        st.dir_name_len = host_to_le32((uint32_t)len);
        c->trap = host_func_copyout(c->ctx, MEM, &st, I32(1), 8, 4);
        return 0;
}

static int
prestat_dir_name(struct call *c)
{
        int err = prestat(c);
        if (err != 0) {
                return err;
        }
        const char *s = granted(c);
        size_t len = strlen(s);
        if (len > I32(2)) {
                return EINVAL;
        }
        c->trap = host_func_copyout(c->ctx, MEM, s, I32(1), (uint32_t)len, 1);
        return 0;
}

#define RELEASE wasi_fdinfo_release(c->wasi, (*c->fdinfop))

int
ref_wasi_fd_prestat_get__0(CALL)
{
        BEGIN;
        err = prestat_get(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_prestat_dir_name__0(CALL)
{
        BEGIN;
        err = prestat_dir_name(c);
        RELEASE;
        END;
}

/* -- files */
#define USERFD                                                                \
        do {                                                                  \
                int e = wasi_userfd_lookup(c->wasi, I32(0), c->fdinfop);      \
                if (e != 0) {                                                 \
                        return e;                                             \
                }                                                             \
        } while (0)

#define FD_CALL(name, body)                                                   \
        static int name##_body(struct call *c) body

static int
advise(struct call *c)
{
        USERFD;
        return 0;
}

static int
allocate(struct call *c)
{
        USERFD;
        return wasi_vfs_fd_fallocate((*c->fdinfop), I64(1), I64(2));
}

static int
set_size(struct call *c)
{
        USERFD;
        return wasi_vfs_fd_ftruncate((*c->fdinfop), I64(1));
}

static int
set_flags(struct call *c)
{
        if ((I32(1) & ~4) != 0) {
                return ENOTSUP;
        }
        USERFD;
        ((struct wasi_fdinfo_user *)(*c->fdinfop))->blocking =
                (I32(1) & 4) == 0;
        return 0;
}

static int
set_rights(struct call *c)
{
        return wasi_fd_lookup(c->wasi, I32(0), c->fdinfop);
}

static int
sync_file(struct call *c)
{
        USERFD;
        return wasi_vfs_fd_fsync((*c->fdinfop));
}

static int
sync_data(struct call *c)
{
        USERFD;
        return wasi_vfs_fd_fdatasync((*c->fdinfop));
}

static int
set_times(struct call *c)
{
        struct utimes_args args;
        args.fstflags = I32(3);
        args.atim = I64(1);
        args.mtim = I64(2);
        int err = wasi_validate_fstflags(I32(3));
        if (err != 0) {
                return err;
        }
        USERFD;
        return wasi_vfs_fd_futimes((*c->fdinfop), &args);
}

static int
sock_shutdown(struct call *c)
{
        USERFD;
        if ((I32(1) & ~3) != 0) {
                return EINVAL;
        }
        return wasi_vfs_sock_shutdown((*c->fdinfop), (uint16_t)I32(1));
}

static int
seek_to(struct call *c, uint32_t whence)
{
        if (whence > 2) {
                return EINVAL;
        }
        int err = wasi_userfd_reject_directory((*c->fdinfop));
        if (err != 0) {
                return err;
        }
        wasi_off_t off;
        err = wasi_vfs_fd_lseek((*c->fdinfop), I64(1), whence, &off);
        if (err == 0) {
                c->trap = wasi_copyout_result_i64(c->ctx, MEM, I32(3), off);
        }
        return err;
}

static int
seek(struct call *c)
{
        USERFD;
        return seek_to(c, I32(2));
}

/* the first version of the interface numbered the origins differently */
static int
unstable_seek(struct call *c)
{
        USERFD;
        switch (I32(2)) {
        case 0:
                return seek_to(c, 1);
        case 1:
                return seek_to(c, 2);
        case 2:
                return seek_to(c, 0);
        }
        return EINVAL;
}

static int
tell(struct call *c)
{
        USERFD;
        int err = wasi_userfd_reject_directory((*c->fdinfop));
        if (err != 0) {
                return err;
        }
        wasi_off_t off;
        err = wasi_vfs_fd_lseek((*c->fdinfop), 0, 1, &off);
        if (err == 0) {
                c->trap = wasi_copyout_result_i64(c->ctx, MEM, I32(1), off);
        }
        return err;
}

static int
filestat(struct call *c)
{
        USERFD;
        struct wasi_filestat wst;
        int err = wasi_vfs_fd_fstat((*c->fdinfop), &wst);
        if (err == 0) {
                c->trap = host_func_copyout(c->ctx, MEM, &wst, I32(1), 64, 8);
        }
        return err;
}

static int
unstable_filestat(struct call *c)
{
        USERFD;
        struct wasi_filestat wst;
        int err = wasi_vfs_fd_fstat((*c->fdinfop), &wst);
        if (err != 0) {
                return err;
        }
        struct wasi_unstable_filestat uwst;
        err = wasi_unstable_convert_filestat(&wst, &uwst);
        if (err == 0) {
                c->trap = host_func_copyout(c->ctx, MEM, &uwst, I32(1), 56, 8);
        }
        return err;
}

/* rights: directories are not read, written, resized or seeked; files and
 * terminals have no paths below; only sockets are accepted or shut down;
 * terminals are not seeked */
static int
fdstat(struct call *c)
{
        int err = wasi_fd_lookup(c->wasi, I32(0), c->fdinfop);
        if (err != 0) {
                return err;
        }
        struct wasi_fdstat st;
        memset(&st, 0, sizeof(st));
        if ((*c->fdinfop)->type == WASI_FDINFO_PRESTAT) {
                st.fs_filetype = 3;
        } else {
                struct wasi_filestat wst;
                err = wasi_vfs_fd_fstat((*c->fdinfop), &wst);
                if (err != 0) {
                        return err;
                }
                st.fs_filetype = wst.type;
                uint16_t flags;
                err = wasi_vfs_fd_get_flags((*c->fdinfop), &flags);
                if (err != 0) {
                        return err;
                }
                if (!((struct wasi_fdinfo_user *)(*c->fdinfop))->blocking) {
                        st.fs_flags |= host_to_le16(4);
                }
                st.fs_flags |= host_to_le16(flags & 1);
        }
        uint64_t seek_rights = 1 << 2 | 1 << 5;
        uint64_t path_rights = 0;
        int i;
        for (i = 9; i <= 20; i++) {
                path_rights |= 1 << i;
        }
        path_rights |= 1 << 24 | 1 << 25 | 1 << 26;
        path_rights &= ~(UINT64_C(1) << 14);
        uint64_t sock_rights = 1 << 28 | 1 << 29;
        uint64_t file_rights = 1 << 1 | 1 << 6 | 1 << 22;
        uint64_t rights = ~UINT64_C(0);
        if (st.fs_filetype == 3) {
                rights = ~(file_rights | seek_rights | sock_rights);
        } else if (st.fs_filetype == 2) {
                rights = ~(path_rights | seek_rights | sock_rights);
        } else if (st.fs_filetype == 4) {
                rights = ~(path_rights | sock_rights);
        }
        st.fs_rights_base = host_to_le64(rights);
        st.fs_rights_inheriting = ~UINT64_C(0);
        c->trap = host_func_copyout(c->ctx, MEM, &st, I32(1), 24, 8);
        return 0;
}

int
ref_wasi_fd_advise__0(CALL)
{
        BEGIN;
        err = advise(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_allocate__0(CALL)
{
        BEGIN;
        err = allocate(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_filestat_set_size__0(CALL)
{
        BEGIN;
        err = set_size(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_fdstat_set_flags__0(CALL)
{
        BEGIN;
        err = set_flags(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_fdstat_set_rights__0(CALL)
{
        BEGIN;
        err = set_rights(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_sync__0(CALL)
{
        BEGIN;
        err = sync_file(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_datasync__0(CALL)
{
        BEGIN;
        err = sync_data(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_filestat_set_times__0(CALL)
{
        BEGIN;
        err = set_times(c);
        RELEASE;
        END;
}

int
ref_wasi_sock_shutdown__0(CALL)
{
        BEGIN;
        err = sock_shutdown(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_seek__0(CALL)
{
        BEGIN;
        err = seek(c);
        RELEASE;
        END;
}

int
ref_wasi_unstable_fd_seek__0(CALL)
{
        BEGIN;
        err = unstable_seek(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_tell__0(CALL)
{
        BEGIN;
        err = tell(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_filestat_get__0(CALL)
{
        BEGIN;
        err = filestat(c);
        RELEASE;
        END;
}

int
ref_wasi_unstable_fd_filestat_get__0(CALL)
{
        BEGIN;
        err = unstable_filestat(c);
        RELEASE;
        END;
}

int
ref_wasi_fd_fdstat_get__0(CALL)
{
        BEGIN;
        err = fdstat(c);
        RELEASE;
        END;
}

/* -- closing: nobody else uses the descriptor any more */
static int
close_fd(struct call *c)
{
        int err;
        toywasm_mutex_lock(&c->wasi->lock);
        c->trap = wasi_table_lookup_locked_for_close(
                c->ctx, c->wasi, WASI_TABLE_FILES, I32(0), c->fdinfop, &err);
        if (c->trap != 0 || err != 0) {
                toywasm_mutex_unlock(&c->wasi->lock);
                return err;
        }
        struct wasi_fdinfo **slot =
                &c->wasi->fdtable[WASI_TABLE_FILES].table.p[I32(0)];
        (*c->fdinfop)->refcount--;
        *slot = NULL;
        toywasm_mutex_unlock(&c->wasi->lock);
        return wasi_fdinfo_close((*c->fdinfop));
}

int
ref_wasi_fd_close__0(CALL)
{
        BEGIN;
        err = close_fd(c);
        RELEASE;
        END;
}

/* -- data */
enum how { READ, PREAD, WRITE, PWRITE, SOCK_RECV, SOCK_SEND };

static int
transfer(struct call *c, enum how how, struct iovec **iovp)
{
        uint32_t flags = I32(3);
        if (how == SOCK_RECV) {
                if ((flags & ~3) != 0) {
                        return EINVAL;
                }
                if ((flags & 2) != 0) {
                        return ENOTSUP;
                }
        }
        if (how == SOCK_SEND && flags != 0) {
                return EINVAL;
        }
        if (I32(2) > INT_MAX) {
                return EOVERFLOW;
        }
        USERFD;
        int err;
        int trap;
        trap = wasi_copyin_iovec(c->ctx, MEM, I32(1), I32(2), iovp, &err);
        c->trap = trap;
        if (trap != 0 || err != 0) {
                return err;
        }
        bool in = how == READ || how == PREAD || how == SOCK_RECV;
        int n = I32(2);
        size_t sz;
        uint16_t roflags;
        bool wait = false;
        if (how == READ && wasi_fdinfo_is_host((*c->fdinfop))) {
                /* a descriptor that may block is waited for first */
                uint16_t fflags;
                err = wasi_vfs_fd_get_flags((*c->fdinfop), &fflags);
                if (err != 0) {
                        return err;
                }
                wait = (fflags & 4) == 0;
        }
        while (true) {
                if (wait) {
                        err = EAGAIN;
                } else if (how == READ) {
                        err = wasi_vfs_fd_readv((*c->fdinfop), *iovp, n, &sz);
                } else if (how == PREAD) {
                        err = wasi_vfs_fd_preadv((*c->fdinfop), *iovp, n, I64(3),
                                                 &sz);
                } else if (how == WRITE) {
                        err = wasi_vfs_fd_writev((*c->fdinfop), *iovp, n, &sz);
                } else if (how == PWRITE) {
                        err = wasi_vfs_fd_pwritev((*c->fdinfop), *iovp, n, I64(3),
                                                  &sz);
                } else if (how == SOCK_RECV) {
                        err = wasi_vfs_sock_recv((*c->fdinfop), *iovp, n,
                                                 (uint16_t)flags, &roflags,
                                                 &sz);
                } else {
                        err = wasi_vfs_sock_send((*c->fdinfop), *iovp, n,
                                                 (uint16_t)flags, &sz);
                }
                wait = false;
                if (err == 0) {
                        break;
                }
                if (!emulate_blocking(c->ctx, (*c->fdinfop),
                                      in ? POLLIN : POLLOUT, err, &trap,
                                      &err)) {
                        c->trap = trap;
                        return err;
                }
        }
        if (sz > UINT32_MAX) {
                c->trap = trap;
                return EOVERFLOW;
        }
        uint32_t retp = how == PREAD || how == PWRITE || how == SOCK_RECV ||
                                        how == SOCK_SEND
                                ? I32(4)
                                : I32(3);
        c->trap = wasi_copyout_result_i32(c->ctx, MEM, retp, (uint32_t)sz);
        if (how == SOCK_RECV && c->trap == 0) {
                uint16_t x = host_to_le16(roflags);
                c->trap = host_func_copyout(c->ctx, MEM, &x, I32(5), 2, 2);
        }
        return 0;
}

#define TRANSFER(how)                                                         \
        BEGIN;                                                                \
        struct iovec *iov = NULL;                                             \
        err = transfer(c, how, &iov);                                         \
        RELEASE;                                                              \
        if (c->trap == 0) {                                                   \
                deliver(ft, results, err);                                    \
        }                                                                     \
        free(iov);                                                            \
        free(v);                                                              \
        return c->trap

int
ref_wasi_fd_read__1(CALL)
{
        TRANSFER(READ);
}

/* the same, with the wait inside the loop */
static int
read_or_wait(struct call *c, struct iovec **iovp)
{
        if (I32(2) > INT_MAX) {
                return EOVERFLOW;
        }
        USERFD;
        int err;
        int trap;
        trap = wasi_copyin_iovec(c->ctx, MEM, I32(1), I32(2), iovp, &err);
        c->trap = trap;
        if (trap != 0 || err != 0) {
                return err;
        }
        size_t sz;
        if (wasi_fdinfo_is_host(*c->fdinfop)) {
                uint16_t fflags;
                err = wasi_vfs_fd_get_flags(*c->fdinfop, &fflags);
                if (err != 0) {
                        return err;
                }
                if ((fflags & 4) == 0) {
                        err = EAGAIN;
                        goto wait;
                }
        }
again:
        err = wasi_vfs_fd_readv(*c->fdinfop, *iovp, I32(2), &sz);
        if (err != 0) {
wait:
                if (emulate_blocking(c->ctx, *c->fdinfop, POLLIN, err, &trap,
                                     &err)) {
                        goto again;
                }
                c->trap = trap;
                return err;
        }
        if (sz > UINT32_MAX) {
                c->trap = trap;
                return EOVERFLOW;
        }
        c->trap = wasi_copyout_result_i32(c->ctx, MEM, I32(3), (uint32_t)sz);
        return 0;
}

int
ref_wasi_fd_read__0(CALL)
{
        BEGIN;
        struct iovec *iov = NULL;
        err = read_or_wait(c, &iov);
        RELEASE;
        if (c->trap == 0) {
                deliver(ft, results, err);
        }
        free(iov);
        free(v);
        return c->trap;
}

int
ref_wasi_fd_pread__0(CALL)
{
        TRANSFER(PREAD);
}

int
ref_wasi_fd_write__0(CALL)
{
        TRANSFER(WRITE);
}

int
ref_wasi_fd_pwrite__0(CALL)
{
        TRANSFER(PWRITE);
}

int
ref_wasi_sock_recv__0(CALL)
{
        TRANSFER(SOCK_RECV);
}

int
ref_wasi_sock_send__0(CALL)
{
        TRANSFER(SOCK_SEND);
}

/* -- directories: entries up to the end or until the buffer is full */
static int
entries(struct call *c, uint32_t *np)
{
        uint32_t buf = I32(1);
        uint32_t buflen = I32(2);
        uint64_t cookie = I64(3);
        uint32_t n = 0;
        int err;
        if (cookie == 0) {
                err = wasi_vfs_dir_rewind((*c->fdinfop));
        } else if (cookie > LONG_MAX) {
                err = EINVAL;
        } else {
                err = wasi_vfs_dir_seek((*c->fdinfop), cookie);
        }
        if (err != 0) {
                return err;
        }
        while (true) {
                struct wasi_dirent wde;
                const uint8_t *name;
                bool eod;
                memset(&wde, 0, sizeof(wde));
                err = wasi_vfs_dir_read((*c->fdinfop), &wde, &name, &eod);
                if (err != 0) {
                        return err;
                }
                if (eod) {
                        break;
                }
                if (buflen - n < 24) {
                        n = buflen;
                        break;
                }
                c->trap = host_func_copyout(c->ctx, MEM, &wde, buf, 24, 1);
                if (c->trap != 0) {
                        return 0;
                }
                buf += 24;
                n += 24;
                uint32_t namlen = le32_decode(&wde.d_namlen);
                if (buflen - n < namlen) {
                        n = buflen;
                        break;
                }
                c->trap = host_func_copyout(c->ctx, MEM, name, buf, namlen, 1);
                if (c->trap != 0) {
                        return 0;
                }
                buf += namlen;
                n += namlen;
        }
        *np = n;
        return 0;
}

static int
readdir_fd(struct call *c)
{
        USERFD;
        uint32_t n;
        toywasm_mutex_lock(&c->wasi->lock);
        int err = entries(c, &n);
        toywasm_mutex_unlock(&c->wasi->lock);
        if (err == 0 && c->trap == 0) {
                c->trap = wasi_copyout_result_i32(c->ctx, MEM, I32(4), n);
        }
        return err;
}

int
ref_wasi_fd_readdir__0(CALL)
{
        BEGIN;
        err = readdir_fd(c);
        RELEASE;
        END;
}

/* -- sockets */
static int
sock_accept(struct call *c, struct wasi_fdinfo **childp)
{
        if ((I32(1) & ~4) != 0) {
                return ENOTSUP;
        }
        USERFD;
        int trap = 0;
        int err = wasi_vfs_sock_fdinfo_alloc((*c->fdinfop), childp);
        if (err != 0) {
                return err;
        }
        while (true) {
                err = wasi_vfs_sock_accept((*c->fdinfop), (uint16_t)I32(1),
                                           *childp);
                if (err == 0) {
                        break;
                }
                if (!emulate_blocking(c->ctx, (*c->fdinfop), POLLIN, err, &trap,
                                      &err)) {
                        c->trap = trap;
                        return err;
                }
        }
        uint32_t fd;
        err = wasi_table_fdinfo_add(c->wasi, WASI_TABLE_FILES, *childp, &fd);
        if (err != 0) {
                wasi_fdinfo_close(*childp);
                c->trap = trap;
                return err;
        }
        *childp = NULL;
        c->trap = wasi_copyout_result_fd(c->ctx, MEM, I32(2), fd);
        return 0;
}

int
ref_wasi_sock_accept__0(CALL)
{
        BEGIN;
        struct wasi_fdinfo *child = NULL;
        err = sock_accept(c, &child);
        if (child != NULL) {
                wasi_fdinfo_free(child);
        }
        RELEASE;
        END;
}

/* -- paths */
static int
get_path(struct call *c, int fd, int at, struct path_info *pi)
{
        int err;
        c->trap = wasi_copyin_and_convert_path(c->ctx, c->wasi, I32(fd),
                                               I32(at), I32(at + 1), pi, &err);
        return err;
}

#define PATH(fd, at, pi)                                                      \
        do {                                                                  \
                int e = get_path(c, fd, at, pi);                              \
                if (c->trap != 0 || e != 0) {                                 \
                        return e;                                             \
                }                                                             \
        } while (0)

static int
open_path(struct call *c, struct path_info *pi, struct wasi_fdinfo **fdinfop)
{
        if ((I32(4) & 2) != 0 && (I64(5) & 64) != 0) {
                return EISDIR;
        }
        PATH(0, 2, pi);
        int err = wasi_vfs_path_fdinfo_alloc(pi, fdinfop);
        if (err != 0) {
                return err;
        }
        struct path_open_params p;
        p.lookupflags = I32(1);
        p.wasmoflags = I32(4);
        p.rights_base = I64(5);
        p.fdflags = I32(7);
        err = wasi_vfs_path_open(pi, &p, *fdinfop);
        if (err != 0) {
                return err;
        }
        uint32_t fd;
        err = wasi_table_fdinfo_add(c->wasi, WASI_TABLE_FILES, *fdinfop, &fd);
        if (err != 0) {
                wasi_fdinfo_close(*fdinfop);
                return err;
        }
        *fdinfop = NULL;
        c->trap = wasi_copyout_result_fd(c->ctx, MEM, I32(8), fd);
        return 0;
}

int
ref_wasi_path_open__0(CALL)
{
        BEGIN;
        struct path_info pi = PATH_INITIALIZER;
        struct wasi_fdinfo *fdinfo = NULL;
        err = open_path(c, &pi, &fdinfo);
        if (fdinfo != NULL) {
                wasi_fdinfo_free(fdinfo);
        }
        path_clear(c->wasi, &pi);
        END;
}

static int
unlink_path(struct call *c, struct path_info *pi)
{
        PATH(0, 1, pi);
        return wasi_vfs_path_unlink(pi);
}

static int
mkdir_path(struct call *c, struct path_info *pi)
{
        PATH(0, 1, pi);
        return wasi_vfs_path_mkdir(pi);
}

static int
rmdir_path(struct call *c, struct path_info *pi)
{
        PATH(0, 1, pi);
        return wasi_vfs_path_rmdir(pi);
}

static int
readlink_path(struct call *c, struct path_info *pi)
{
        PATH(0, 1, pi);
        void *p;
        c->trap = host_func_getptr(c->ctx, MEM, I32(3), I32(4), &p);
        if (c->trap != 0) {
                return 0;
        }
        size_t n;
        int err = wasi_vfs_path_readlink(pi, p, I32(4), &n);
        if (err == 0) {
                c->trap = wasi_copyout_result_i32(c->ctx, MEM, I32(5),
                                                  (uint32_t)n);
        }
        return err;
}

static int
stat_path(struct call *c, struct path_info *pi)
{
        PATH(0, 2, pi);
        struct wasi_filestat wst;
        int err;
        if ((I32(1) & 1) != 0) {
                err = wasi_vfs_path_stat(pi, &wst);
        } else {
                err = wasi_vfs_path_lstat(pi, &wst);
        }
        if (err == 0) {
                c->trap = host_func_copyout(c->ctx, MEM, &wst, I32(4), 64, 8);
        }
        return err;
}

static int
unstable_stat_path(struct call *c, struct path_info *pi)
{
        PATH(0, 2, pi);
        struct wasi_filestat wst;
        int err;
        if ((I32(1) & 1) != 0) {
                err = wasi_vfs_path_stat(pi, &wst);
        } else {
                err = wasi_vfs_path_lstat(pi, &wst);
        }
        if (err != 0) {
                return err;
        }
        struct wasi_unstable_filestat uwst;
        err = wasi_unstable_convert_filestat(&wst, &uwst);
        if (err == 0) {
                c->trap = host_func_copyout(c->ctx, MEM, &uwst, I32(4), 56, 8);
        }
        return err;
}

static int
utimes_path(struct call *c, struct path_info *pi)
{
        struct utimes_args args;
        args.fstflags = I32(6);
        args.atim = I64(4);
        args.mtim = I64(5);
        int err = wasi_validate_fstflags(I32(6));
        if (err != 0) {
                return err;
        }
        PATH(0, 2, pi);
        if ((I32(1) & 1) != 0) {
                return wasi_vfs_path_utimes(pi, &args);
        }
        return wasi_vfs_path_lutimes(pi, &args);
}

#define PATH_CALL(f)                                                          \
        BEGIN;                                                                \
        struct path_info pi = PATH_INITIALIZER;                               \
        err = f(c, &pi);                                                      \
        path_clear(c->wasi, &pi);                                             \
        END

int
ref_wasi_path_unlink_file__0(CALL)
{
        PATH_CALL(unlink_path);
}

int
ref_wasi_path_create_directory__0(CALL)
{
        PATH_CALL(mkdir_path);
}

int
ref_wasi_path_remove_directory__0(CALL)
{
        PATH_CALL(rmdir_path);
}

int
ref_wasi_path_readlink__0(CALL)
{
        PATH_CALL(readlink_path);
}

int
ref_wasi_path_filestat_get__0(CALL)
{
        PATH_CALL(stat_path);
}

int
ref_wasi_unstable_path_filestat_get__0(CALL)
{
        PATH_CALL(unstable_stat_path);
}

int
ref_wasi_path_filestat_set_times__0(CALL)
{
        PATH_CALL(utimes_path);
}

static int
symlink_path(struct call *c, struct path_info *pi, char *target)
{
        if (target == NULL) {
                return ENOMEM;
        }
        uint32_t fd = I32(2), path = I32(3), len = I32(4);
        c->trap = host_func_copyin(c->ctx, MEM, target, I32(0), I32(1), 1);
        if (c->trap != 0) {
                return 0;
        }
        target[I32(1)] = 0;
        int err;
        c->trap = wasi_copyin_and_convert_path(c->ctx, c->wasi, fd, path, len,
                                               pi, &err);
        if (c->trap != 0 || err != 0) {
                return err;
        }
        return wasi_vfs_path_symlink(target, pi);
}

int
ref_wasi_path_symlink__0(CALL)
{
        BEGIN;
        struct path_info pi = PATH_INITIALIZER;
        char *target = malloc((size_t)I32(1) + 1);
        err = symlink_path(c, &pi, target);
        free(target);
        path_clear(c->wasi, &pi);
        END;
}

static int
link_path(struct call *c, struct path_info *pi, struct path_info *pi2)
{
        if ((I32(1) & 1) == 0) {
                return ENOTSUP;
        }
        PATH(0, 2, pi);
        PATH(4, 5, pi2);
        return wasi_vfs_path_link(pi, pi2);
}

static int
rename_path(struct call *c, struct path_info *pi, struct path_info *pi2)
{
        PATH(0, 1, pi);
        PATH(3, 4, pi2);
        return wasi_vfs_path_rename(pi, pi2);
}

#define PATH2_CALL(f)                                                         \
        BEGIN;                                                                \
        struct path_info pi = PATH_INITIALIZER;                               \
        struct path_info pi2 = PATH_INITIALIZER;                              \
        err = f(c, &pi, &pi2);                                                \
        path_clear(c->wasi, &pi);                                             \
        path_clear(c->wasi, &pi2);                                            \
        END

int
ref_wasi_path_link__0(CALL)
{
        PATH2_CALL(link_path);
}

int
ref_wasi_path_rename__0(CALL)
{
        PATH2_CALL(rename_path);
}

/* -- renumbering: the descriptor replaced has to be open and is closed */
static int
renumber(struct call *c, struct wasi_fdinfo **fromp, struct wasi_fdinfo **top)
{
        uint32_t from = I32(0), to = I32(1);
        int err;
        toywasm_mutex_lock(&c->wasi->lock);
        if (from == to) {
                err = wasi_table_lookup_locked(c->wasi, WASI_TABLE_FILES, from,
                                               fromp);
                toywasm_mutex_unlock(&c->wasi->lock);
                return err;
        }
        c->trap = wasi_table_lookup_locked_for_close(
                c->ctx, c->wasi, WASI_TABLE_FILES, to, top, &err);
        if (c->trap != 0 || err != 0) {
                toywasm_mutex_unlock(&c->wasi->lock);
                return err;
        }
        err = wasi_table_lookup_locked(c->wasi, WASI_TABLE_FILES, from, fromp);
        if (err != 0) {
                toywasm_mutex_unlock(&c->wasi->lock);
                return err;
        }
        (*top)->refcount--;
        c->wasi->fdtable[WASI_TABLE_FILES].table.p[to] = *fromp;
        c->wasi->fdtable[WASI_TABLE_FILES].table.p[from] = NULL;
        toywasm_mutex_unlock(&c->wasi->lock);
        wasi_fdinfo_release(c->wasi, *fromp);
        *fromp = NULL;
        wasi_fdinfo_close(*top);
        return 0;
}

int
ref_wasi_fd_renumber__0(CALL)
{
        BEGIN;
        struct wasi_fdinfo *from = NULL;
        struct wasi_fdinfo *to = NULL;
        err = renumber(c, &from, &to);
        wasi_fdinfo_release(c->wasi, from);
        wasi_fdinfo_release(c->wasi, to);
        END;
}

/* -- several things waited for at once */

static int
clock_timeout(const struct abi_subscription *s, int *timeoutp)
{
        clockid_t id;
        switch (le32_decode(&s->u.clock.clock_id)) {
        case 0:
                id = CLOCK_REALTIME;
                break;
        case 1:
                id = CLOCK_MONOTONIC;
                break;
        default:
                return ENOTSUP;
        }
        bool abstime = (s->u.clock.flags & 1) != 0;
        if (*timeoutp != -1) {
                return ENOTSUP;
        }
        uint64_t ns = le64_decode(&s->u.clock.timeout);
        struct timespec at;
        int err;
        if (abstime) {
                err = timespec_from_ns(&at, ns);
        } else {
                err = abstime_from_reltime_ns(id, &at, ns);
        }
        if (err != 0) {
                return err;
        }
        if (id != CLOCK_REALTIME) {
                err = convert_timespec(id, CLOCK_REALTIME, &at, &at);
                if (err != 0) {
                        return err;
                }
        }
        return abstime_to_reltime_ms_roundup(CLOCK_REALTIME, &at, timeoutp);
}

static int
poll_all(struct call *c, struct pollfd **pfdsp, struct wasi_fdinfo ***fdsp,
         uint32_t *nfdsp)
{
        uint32_t in = I32(0), out = I32(1), n = I32(2), retp = I32(3);
        if (n == 0) {
                return EINVAL;
        }
        uint32_t insize;
        int err = host_func_mul_size(n, 48, &insize);
        if (err != 0) {
                return err;
        }
        uint32_t outsize;
        err = host_func_mul_size(n, 32, &outsize);
        if (err != 0) {
                return err;
        }
        const struct abi_subscription *subs;
        struct abi_event *ev;
        bool moved;
        void *p;
        do {
                c->trap = host_func_check_align(c->ctx, in, 8);
                if (c->trap != 0) {
                        return err;
                }
                c->trap = host_func_getptr(c->ctx, MEM, in, insize, &p);
                if (c->trap != 0) {
                        return err;
                }
                subs = p;
                moved = false;
                c->trap = host_func_check_align(c->ctx, out, 8);
                if (c->trap != 0) {
                        return err;
                }
                c->trap = host_func_getptr2(c->ctx, MEM, out, outsize, &p,
                                            &moved);
                if (c->trap != 0) {
                        return err;
                }
        } while (moved);
        ev = p;
        struct pollfd *pfds = *pfdsp = calloc(n, sizeof(*pfds));
        struct wasi_fdinfo **fds = *fdsp = calloc(n, sizeof(*fds));
        if (pfds == NULL || fds == NULL) {
                return ENOMEM;
        }
        uint32_t i;
        int timeout = -1;
        int count = 0;
        for (i = 0; i < n; i++) {
                const struct abi_subscription *s = &subs[i];
                switch (s->type) {
                case 0:
                        err = clock_timeout(s, &timeout);
                        if (err != 0) {
                                return err;
                        }
                        pfds[i].fd = -1;
                        break;
                case 1:
                case 2:
                        err = wasi_hostfd_lookup(c->wasi, le32_decode(&s->u.fd),
                                                 &pfds[i].fd, &fds[*nfdsp]);
                        if (err != 0) {
                                pfds[i].revents = POLLNVAL;
                                count++;
                        }
                        (*nfdsp)++;
                        pfds[i].events = s->type == 1 ? POLLIN : POLLOUT;
                        break;
                default:
                        return EINVAL;
                }
        }
        if (count == 0) {
                c->trap = wasi_poll(c->ctx, pfds, n, timeout, &err, &count);
                if (c->trap != 0) {
                        return err;
                }
                if (err == ETIMEDOUT) {
                        count = 1;
                } else if (err != 0) {
                        return err;
                }
        }
        for (i = 0; i < n; i++) {
                const struct abi_subscription *s = &subs[i];
                ev->userdata = s->userdata;
                ev->error = 0;
                ev->type = s->type;
                ev->availbytes = 0;
                ev->rwflags = 0;
                switch (s->type) {
                case 0:
                        if (err == ETIMEDOUT) {
                                ev++;
                        }
                        break;
                case 1:
                case 2:
                        if (pfds[i].revents == 0) {
                                break;
                        }
                        if ((pfds[i].revents & POLLNVAL) != 0) {
                                ev->error = (uint16_t)wasi_convert_errno(EBADF);
                        } else if ((pfds[i].revents & POLLHUP) != 0) {
                                ev->error = (uint16_t)wasi_convert_errno(EPIPE);
                        } else if ((pfds[i].revents & POLLERR) != 0) {
                                ev->error = (uint16_t)wasi_convert_errno(EIO);
                        }
                        ev++;
                        break;
                }
        }
        c->trap = wasi_copyout_result_i32(c->ctx, MEM, retp, count);
        return 0;
}

int
ref_wasi_poll_oneoff__0(CALL)
{
        BEGIN;
        struct pollfd *pfds = NULL;
        struct wasi_fdinfo **fds = NULL;
        uint32_t nfds = 0;
        err = poll_all(c, &pfds, &fds, &nfds);
        uint32_t i;
        for (i = 0; i < nfds; i++) {
                wasi_fdinfo_release(c->wasi, fds[i]);
        }
        free(fds);
        if (c->trap == 0) {
                deliver(ft, results, err);
        }
        free(pfds);
        if (!IS_RESTARTABLE(c->trap)) {
                restart_info_clear(ctx);
        }
        free(v);
        return c->trap;
}

struct wasi_vfs *
ref_wasi_fdinfo_vfs__0(struct wasi_fdinfo *fdinfo)
{
        if (fdinfo->type == WASI_FDINFO_PRESTAT) {
                return ((struct wasi_fdinfo_prestat *)fdinfo)->vfs;
        }
        return ((struct wasi_fdinfo_user *)fdinfo)->vfs;
}
