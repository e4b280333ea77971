"""Which functions report failures, and what becomes of a reported one."""
from . import flow
from .ir import const

NZ = ("!", frozenset([0]))
Z = ("=", 0)

ALLOC = {"malloc", "calloc", "realloc", "strdup", "mem_alloc", "mem_zalloc",
         "mem_calloc", "mem_extend", "mem_extend_zero", "strndup", "fopen",
         "fdopendir"}
# external functions that return -1 and set errno
POSIX = {"accept", "asprintf", "clock_getres", "clock_gettime", "close",
         "closedir", "dup", "fclose", "fcntl", "fdatasync", "fstat", "fsync",
         "ftruncate", "futimes", "getrandom", "getsockopt", "link", "lseek",
         "lstat", "lutimes", "mkdir", "munmap", "nanosleep", "open", "poll",
         "preadv", "pwritev", "readlink", "readv", "recvmsg", "rename",
         "rmdir", "sendmsg", "shutdown", "stat", "symlink", "telldir",
         "unlink", "utimes", "vasprintf", "write", "writev"}
# those that return an error number
NUMBER = {"pthread_create", "pthread_detach", "posix_fallocate"}
# raising a trap
RAISE = {"vtrap"}
M1 = ("=", -1)


# functions returning a small number that is not an error number
NOT_ERRORS = {"check_interrupt_interval_ms"}


def returns_int(p, f):
    d = p.di.get(f.ditype)
    if d is None or not d.get("members"):
        return False
    t = d["members"][0]
    t = p.di.get(t)
    return bool(t) and t.get("name") == "int"


def _leaves(f, v, seen, out):
    if const(v) is not None:
        out.append(("c", const(v)))
        return
    if not isinstance(v, int) or v in seen:
        return
    seen.add(v)
    i = f.ins[v]
    if i.op == "phi":
        for _, x in f.phi_in(i):
            _leaves(f, x, seen, out)
    elif i.op == "select":
        for x in i.ops[1:]:
            _leaves(f, x, seen, out)
    elif i.op == "call":
        out.append(("call", i))
    elif i.op == "load":
        r = f.get(i.ops[0])
        if r is not None and r.op == "call" and \
                i.f.prog and (r.callee or "") == "__errno_location":
            out.append(("errno",))
        elif r is not None and r.op == "alloca":
            out.append(("mem", i))


class Errors:
    def __init__(self, p):
        self.p = p
        self.fail = set()
        self.types = set()
        leaves = {}
        self.fail |= {f.name for f in p.defined() if f.base in RAISE}
        for f in p.defined():
            if f.ret != "i32" or f.name.split(".")[0] in NOT_ERRORS or \
                    not returns_int(p, f):
                continue
            out = []
            for i in f.instrs():
                if i.op == "ret" and i.ops:
                    _leaves(f, i.ops[0], set(), out)
            leaves[f.name] = out
        taken = p.address_taken()
        while True:
            n = len(self.fail)
            for name, out in leaves.items():
                if name in self.fail:
                    continue
                for l in out:
                    if l[0] == "c" and (2 <= l[1] < 134 or l[1] in (-2, -3)) \
                       or l[0] == "errno" or l[0] == "call" and \
                       self.fallible(l[1]):
                        self.fail.add(name)
                        if name in taken:
                            self.types.add(self.sig(p.funcs[name]))
                        break
            if len(self.fail) == n:
                break

    def sig(self, f):
        return (f.ret,) + tuple(t for _, t in f.args)

    def fallible(self, i):
        if i.callee:
            if i.callee in self.fail:
                return True
            return i.callee in NUMBER
        if i.ty != "i32":
            return False
        return (i.ty,) + tuple(self.optype(i, o) for o in
                               i.ops[:i.d.get("nargs", len(i.ops))]) \
            in self.types

    def optype(self, i, o):
        if isinstance(o, int):
            return i.f.ins[o].ty
        if isinstance(o, str):
            if o[0] == "a":
                return i.f.args[int(o[1:])][1]
            return "ptr"
        if o[0] == "c":
            return "i%d" % o[2]
        if o[0] in ("null", "gep"):
            return "ptr"
        return "?"


def aliases(f, v):
    """values that can be v, through variables and joins"""
    r = {v}
    work = [v]
    while work:
        x = work.pop()
        for u in f.users.get(x, ()):
            if isinstance(u, int):
                u = f.ins[u]
            n = []
            if u.op in ("phi", "select", "freeze"):
                n = [u.id]
            elif u.op == "store" and u.ops[0] == x:
                s = f.addr(u.ops[1])[0]
                if f.get(s) is not None and f.get(s).op == "alloca":
                    n = [i.id for i in f.instrs() if i.op == "load" and
                         f.addr(i.ops[0])[0] == s]
            for y in n:
                if y not in r:
                    r.add(y)
                    work.append(y)
    return r


def follows(f, c, bb, x):
    """whether instruction x of block bb can come after instruction c"""
    at = next(n for n, b in enumerate(f.blocks)
              if any(i.id == c for i in b))
    if at == bb and x > c:
        return True
    seen, work = set(), list(f.succs[at])
    while work:
        n = work.pop()
        if n not in seen:
            seen.add(n)
            work += f.succs[n]
    return bb in seen


class Fate(flow.Client):
    """State: the call whose failure is still pending on this path and
    whether its result has been looked at, or ()."""

    def __init__(self, errs, handled, resume, deliver, raising, quiet):
        self.e = errs
        self.handled = handled  # (caller, callee) -> numbers, or None: all
        self.resume = resume    # calls made because of a failure
        self.deliver = deliver  # functions that take a failure over
        self.raising = raising  # functions that always fail
        self.quiet = quiet      # calls that may precede the test
        self.out = {}
        self.sites = set()
        self.used = set()

    def init(self, f):
        self.al = {}
        self.tests = {}
        self.errno = None
        return ()

    def same(self, f, c):
        if c not in self.al:
            r = aliases(f, c)
            if f.ins[c].callee in POSIX | ALLOC:
                if self.errno is None:
                    self.errno = []
                    for n, b in enumerate(f.blocks):
                        for i in b:
                            j = f.get(i.ops[0]) if i.op == "load" else None
                            if j is not None and j.op == "call" and \
                               j.callee == "__errno_location":
                                self.errno.append((n, i.id,
                                                   aliases(f, i.id)))
                for n, x, al in self.errno:
                    if follows(f, c, n, x):
                        r = r | al
            self.al[c] = r
        return self.al[c]

    def tested(self, f, c, bb):
        """does the branch at the end of block bb look at the result?"""
        if c not in self.tests:
            al = aliases(f, c)
            t = self.tests[c] = set()
            for n, b in enumerate(f.blocks):
                i = b[-1]
                if i.op not in ("br", "switch") or not i.ops:
                    continue
                work, seen = [i.ops[0]], set()
                while work:
                    v = work.pop()
                    if not isinstance(v, int) or v in seen:
                        continue
                    seen.add(v)
                    if v in al:
                        t.add(n)
                        break
                    j = f.ins[v]
                    if j.op in ("icmp", "and", "or", "xor", "select", "zext",
                                "sext", "trunc", "freeze", "phi"):
                        work += list(f.operands(j))
        return bb in self.tests[c]

    def key(self, f, c):
        n = f.ins[c].cname
        return ("*", n) if ("*", n) in self.handled else (f.base, n)

    def bad(self, f, c, what, i):
        k = self.key(f, c)
        if k in self.handled and self.handled[k] is None:
            self.used.add(k)
            return
        self.out.setdefault((f.name, c, what), (f, f.ins[c], i))

    def edge(self, f, a, b, st, env):
        if st == ():
            return st
        c, seen = st
        k = self.key(f, c)
        ok = self.handled.get(k)
        if ok and any(env.const(v) in ok for v in self.same(f, c)
                      if v in env.d):
            self.used.add(k)
            return ()
        if not seen and self.tested(f, c, a):
            return (c, True)
        return st

    def call(self, f, i, st, env):
        if st != ():
            c, seen = st
            al = self.same(f, c)
            args = i.ops[:i.d.get("nargs", len(i.ops))]
            for o in args:
                if f.ins[c].ty != "ptr" and isinstance(o, int) and \
                   o in al and env.const(o) != 0 or \
                   i.cname in self.deliver and env.nonzero(o):
                    st = ()
                    break
        name = i.callee or ""
        if i.cname in self.raising:
            self.sites.add((f.name, i.id))
            return [((i.id, True), NZ, {})]
        if name in ALLOC:
            good, fails = NZ, Z
        elif name in POSIX:
            good, fails = ("!", frozenset([-1])), M1
        elif self.e.fallible(i):
            good, fails = Z, NZ
        else:
            if st != () and not seen and not name.startswith("llvm.") and \
               not self.quiet(i):
                self.bad(f, c, "untested", i)
                st = ()
            return [(st, None, {})]
        self.sites.add((f.name, i.id))
        how = self.resume.get(i.cname) if st != () else None
        if how == "release":
            return [(st, None, {})]
        if how:
            return [(st if how == "ask" else (), good, {}),
                    ((i.id, False), fails, {})]
        if st != () and fails is Z and f.ins[c].ty == "ptr":
            return [(st, None, {})]     # tested together
        if st != ():
            self.bad(f, c, "goes on" if seen else "untested", i)
            st = ()
        return [(st, good, {}), ((i.id, False), fails, {})]

    def instr(self, f, i, st, env):
        if st == () or i.op != "store":
            return None
        c, seen = st
        v = i.ops[0]
        s = f.get(f.addr(i.ops[1])[0])
        if s is not None and s.op == "alloca":
            return None
        if isinstance(v, int) and v in self.same(f, c) and \
           f.ins[c].ty != "ptr" or isinstance(v, (int, tuple)) and \
           env.nonzero(v) and self.e.optype(i, v) == "i32":
            return ()
        return None

    def ret(self, f, i, st, env):
        if st == ():
            return
        c, seen = st
        v = i.ops[0] if i.ops else None
        nz = env.nonzero(v) if i.ops else None
        if f.ret == "ptr" and i.ops:
            good = nz is not True
        else:
            good = nz is True or nz is None and v in self.same(f, c)
        if not good:
            self.bad(f, c, "lost", i)
