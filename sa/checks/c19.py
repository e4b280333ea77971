"""Ownership typestate over every function: memory a function allocates and
keeps to itself is released exactly once, by the matching function, on every
path, and not used afterwards; the functions that release what structures own
are turned into value graphs on compiler IR and compared with their
definitions."""
from .. import baseref, flow, instref, moduleref, own, validref, wasihostref, \
    wasiref

ACQ = {"malloc": ("ret", "block of memory"),
       "calloc": ("ret", "block of memory"),
       "xzalloc": ("ret", "block of memory"),
       "strdup": ("ret", "block of memory"),
       "mem_alloc": ("ret", "counted block of memory"),
       "mem_zalloc": ("ret", "counted block of memory"),
       "mem_calloc": ("ret", "counted block of memory"),
       "module_create": ("out", 0, "module"),
       "functype_from_string": ("out", 2, "function type"),
       "resulttype_alloc": ("out", 3, "result type"),
       "import_object_alloc": ("out", 2, "import object"),
       "import_object_create_for_exports": ("out", 3, "import object"),
       "import_object_create_for_host_funcs": ("out", 4, "import object"),
       "import_object_create_for_wasi": ("out", 2, "import object"),
       "import_object_create_for_wasi_threads": ("out", 2, "import object"),
       "memory_instance_create": ("out", 1, "memory"),
       "global_instance_create": ("out", 1, "global"),
       "table_instance_create": ("out", 1, "table"),
       "tag_instance_create": ("out", 1, "tag"),
       "instance_create": ("out", 2, "instance"),
       "instance_create_no_init": ("out", 2, "instance"),
       "wasi_instance_create": ("out", 1, "WASI instance"),
       "wasi_threads_instance_create": ("out", 1, "thread instance"),
       "map_file": ("out", 1, "mapped file"),
       "opendir": ("ret", "directory"),
       "fdopendir": ("ret", "directory"),
       "fopen": ("ret", "stream"),
       }
REL = {"free": ("block of memory", 0),
       "mem_free": ("counted block of memory", 1),
       "module_destroy": ("module", 1),
       "functype_free": ("function type", 1),
       "resulttype_free": ("result type", 1),
       "import_object_destroy": ("import object", 1),
       "memory_instance_destroy": ("memory", 1),
       "global_instance_destroy": ("global", 1),
       "table_instance_destroy": ("table", 1),
       "tag_instance_destroy": ("tag", 1),
       "instance_destroy": ("instance", 0),
       "wasi_instance_destroy": ("WASI instance", 0),
       "wasi_threads_instance_destroy": ("thread instance", 0),
       "unmap_file": ("mapped file", 0),
       "closedir": ("directory", 0),
       "fclose": ("stream", 0)}
BLOCKS = ("block of memory", "counted block of memory")
MODULE = """cellidx_free clear_resulttype clear_functype clear_expr clear_func
clear_global clear_element clear_data clear_dylink module_funcs_clear
module_unload module_destroy module_create cellidx_alloc
_read_vec_with_ctx_impl read_resulttype read_functype read_locals read_func
read_global read_element read_dylink_0_section""".split()
INST = """functype_free import_object_destroy memory_instance_destroy
global_instance_destroy tag_instance_destroy table_instance_destroy
instance_destroy instance_create instance_create_no_init _dtor
import_object_create_for_host_funcs import_object_create_for_exports
resulttype_from_string functype_from_string exec_context_clear
memory_instance_create global_instance_create tag_instance_create
create_satisfying_functions create_satisfying_shared_memories dtor_memories
dtor_dummies""".split()
VALID = """validation_context_clear ctrlframe_clear resulttype_free
resulttype_alloc load_context_clear push_ctrlframe pop_ctrlframe
parse_expr""".split()
WASI = """wasi_instance_destroy wasi_instance_create wasi_table_clear
wasi_fdinfo_free wasi_fdinfo_clear wasi_fdinfo_release wasi_fdinfo_close
wasi_copyin_iovec wasi_copyin_and_convert_path path_clear
wasi_instance_add_hostfd wasi_instance_prestat_add_vfs wasi_path_open
wasi_sock_accept wasi_hostfd_add""".split()
HOST = """wasi_host_fd_close wasi_host_dir_close wasi_host_path_open
wasi_host_sock_accept wasi_host_dir_rewind wasi_host_dir_read
wasi_host_dir_seek wasi_iovec_flatten wasi_iovec_free_flattened_buffer
wasi_host_fd_writev wasi_host_fd_readv""".split()
BASE = """_vec_free _vec_resize bitmap_alloc bitmap_free
restart_info_clear waiter_list_free data_drop mem_free mem_shrink mem_extend
array_extend array_shrink""".split()


class Keeps:
    """whether a function may keep or release an argument"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def __call__(self, f, k):
        key = (f.name, k)
        if key not in self.memo:
            self.memo[key] = False      # recursion keeps nothing by itself
            self.memo[key] = self.get(f, "a%d" % k)
        return self.memo[key]

    def get(self, f, v, seen=None):
        seen = seen if seen is not None else set()
        if v in seen:
            return False
        seen.add(v)
        for i in f.users.get(v, ()):
            if i.op == "store":
                if i.ops[0] == v:
                    s = flow.slot(f, i.ops[1])
                    if s is None or s[0] != "m":
                        return True
                    if any(self.get(f, j.id, seen) for j in f.instrs()
                           if j.op == "load" and
                           flow.slot(f, j.ops[0]) == s):
                        return True
            elif i.op in ("getelementptr", "bitcast", "phi", "select",
                          "freeze"):
                if self.get(f, i.id, seen):
                    return True
            elif i.op in ("ret", "insertvalue", "ptrtoint"):
                return True
            elif i.op == "call":
                if self.call(f, i, v):
                    return True
        return False

    def call(self, f, i, v):
        n = i.cname
        if n is not None and n.startswith("llvm."):
            return False
        gs = [g for g in self.p.bybase.get(n, ()) if not g.decl] if n else []
        for k, o in enumerate(i.ops):
            if o != v:
                continue
            if n is None or n in REL and k == REL[n][1]:
                return True
            if gs:
                if any(k >= len(g.args) or self(g, k) for g in gs):
                    return True
            elif n not in PURE:
                return True
        return False


# outside functions that keep no pointer they are given
PURE = set("""memcpy memmove memset memcmp strlen strcmp strncmp strcpy strchr
strrchr snprintf sprintf printf fprintf vsnprintf vfprintf read write pread
pwrite readv writev preadv pwritev fread fwrite recv send recvmsg sendmsg
open close fopen stat lstat fstat unlink mkdir rmdir rename link symlink
readlink qsort bsearch memchr strtoul strtoull strtol strtoll getline
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
pthread_mutex_unlock pthread_cond_init pthread_cond_destroy
pthread_cond_broadcast pthread_cond_signal getaddrinfo poll free realloc
puts fputs isatty clock_gettime nanosleep mmap munmap ftell fseek
__assert_fail""".split())


class Leaks(own.Own):
    def __init__(self, spec, report, keeps):
        super().__init__(spec, report)
        self.keeps = keeps

    def call(self, f, i, st, env):
        n = i.cname
        if n not in self.spec.rel and n not in self.spec.take:
            for k, o in enumerate(i.ops):
                r = own.resolve(f, o, env)
                e = self.get(st, r)
                if e is not None and e[2] == "owned" and \
                   self.kept(f, i, k):
                    st = self.set(st, r, e[1], None)
        out = super().call(f, i, st, env)
        return [(st, None)] if out is None else out

    def release(self, f, i, st, env, v, kind):
        # a constructor releases its block as the object it was to become
        e = self.get(st, own.resolve(f, v, env))
        if e is not None and kind not in BLOCKS:
            kind = e[1]
        return super().release(f, i, st, env, v, kind)

    def kept(self, f, i, k):
        n = i.cname
        if n is None:
            return True
        if n.startswith("llvm."):
            return False
        gs = [g for g in self.keeps.p.bybase.get(n, ()) if not g.decl]
        if gs:
            return any(k >= len(g.args) or self.keeps(g, k) for g in gs)
        return n not in PURE


def check(ctx, rep):
    rep.rule("owned", "what a function acquires and keeps to itself is "
             "released exactly once on every path")
    p = ctx.prog()
    keeps = Keeps(p)
    spec = own.Spec(ACQ, REL)
    for f in p.defined():
        if (f.file or "/usr/").startswith("/usr/") or f.base in REL:
            continue
        if not any(True for _ in f.calls(*ACQ)):
            continue

        def report(rule, i, text, f=f):
            rep.bad("owned", "%s:%s" % (f.base, rule), i.where, text)
        o = Leaks(spec, report, keeps)
        rep.seen("states", flow.run(f, o, o.start(f)))
        rep.seen("owned", len(o.nacq))
    rep.rule("release", "the functions that release what a structure owns "
             "release all of it, once, and those that build one leave "
             "nothing behind when they fail")
    moduleref.check(ctx, rep, "release", MODULE)
    instref.check(ctx, rep, "release", INST)
    validref.check(ctx, rep, "release", VALID)
    wasiref.check(ctx, rep, "release", WASI)
    wasihostref.check(ctx, rep, "release", HOST)
    baseref.check(ctx, rep, "release", BASE)
