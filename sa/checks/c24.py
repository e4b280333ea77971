"""Reference-count typestate of file descriptor objects over every function
of the WASI library that looks one up, creates one or touches the table: each
path returns with as many references as table entries, nothing is used after
its reference is dropped, an object leaves the table exactly when it is
closed, and it is freed only when nobody refers to it."""
from .. import flow, own, wasiref
from ..ir import const
from ..own import NZ, Z
from .c21 import loop_blocks

INLINE = ["wasi_copyin_and_convert_path", "path_clear", "wasi_userfd_lookup",
          "wasi_hostfd_lookup", "wasi_fd_lookup", "wasi_table_lookup"]
LOOKUP = "wasi_table_lookup_locked"
FORCLOSE = "wasi_table_lookup_locked_for_close"
RELEASE = "wasi_fdinfo_release"
SLOT = "wasi_table_slot_ptr"
CLOSE = "wasi_fdinfo_close"
FREE = "wasi_fdinfo_free"
FDOP = {LOOKUP: 2, FORCLOSE: 3}
OUTOP = {LOOKUP: 3, FORCLOSE: 4}
FRESH = {
    "wasi_vfs_path_fdinfo_alloc": ("out", 1, "descriptor object"),
    "wasi_vfs_sock_fdinfo_alloc": ("out", 1, "descriptor object"),
    "wasi_fdinfo_alloc_host": ("out", 0, "descriptor object"),
    "wasi_fdinfo_alloc_prestat": ("out", 0, "descriptor object"),
}
TABLE = ("wasi_hostfd_add", "wasi_instance_add_hostfd", "path_clear",
         "wasi_fd_close", "wasi_fd_renumber")
EXEMPT = {
    RELEASE: "the primitive itself, compared with its definition",
    "wasi_table_clear": "teardown of the whole table",
}


class Refs(flow.Client):
    """state: frozenset of (object, balance, table delta, dead, closed);
    balance = references taken - references given up - table entries added"""
    alias = True
    stable = None

    def __init__(self, report):
        self.report = report
        self.n = set()

    def init(self, f):
        return frozenset()

    def get(self, st, r):
        for e in st:
            if e[0] == r:
                return e
        return None

    def put(self, st, e):
        return frozenset(x for x in st if x[0] != e[0]) | {e}

    def bump(self, st, r, bal=0, tab=0, dead=None, closed=None):
        e = self.get(st, r) or (r, 0, 0, False, False)
        e = (r, e[1] + bal, e[2] + tab, e[3] if dead is None else dead,
             e[4] if closed is None else closed)
        if abs(e[1]) > 3 or abs(e[2]) > 3:
            return st
        return self.put(st, e)

    def acquire(self, f, i, st, r):
        e = self.get(st, r)
        if e is not None and e[1] > 0:
            self.report("balance", i, "a reference taken here by the previous "
                        "iteration is never dropped")
        return self.put(st, (r, 1, 0, False, False))

    def call(self, f, i, st, env):
        n = i.cname
        if n == RELEASE:
            self.n.add(i.id)
            v = i.ops[1]
            if env.const(v) == 0:
                return None
            if env.d.get(v) == ("undef",) or \
               (isinstance(v, tuple) and v[0] == "undef"):
                self.report("balance", i, "drops a reference through a "
                            "variable that was never set on this path")
                return None
            r = own.resolve(f, v, env)
            e = self.get(st, r)
            if e is None:
                return None
            if e[3]:
                self.report("balance", i, "drops the same reference twice")
                return None
            return [(self.bump(st, r, bal=-1, dead=True), None)]
        if n in OUTOP:
            self.n.add(i.id)
            s = flow.slot(f, i.ops[OUTOP[n]])
            r = ("r", i.id, OUTOP[n])
            if s is None:
                return None
            keep = {k: env.d[k] for k in (s, ("hv", s)) if k in env.d}
            got = {s: NZ, ("hv", s): r}
            gone = frozenset(x for x in st if x[0] != r)
            if n == LOOKUP:
                return [(self.acquire(f, i, st, r), Z, got),
                        (gone, NZ, keep)]
            rs = flow.slot(f, i.ops[5])
            if rs is not None:
                got[rs] = Z
                keep2 = dict(keep)
                keep2[rs] = NZ
            else:
                keep2 = keep
            return [(self.acquire(f, i, st, r), Z, got),
                    (gone, Z, keep2), (gone, NZ, keep)]
        for k, o in enumerate(i.ops):
            r = own.resolve(f, o, env)
            e = self.get(st, r)
            if e is None:
                continue
            if e[3]:
                self.report("use", i, "passes a descriptor object to %s after "
                            "dropping the reference" % (i.callee or "?"))
            elif n == CLOSE and k == 0:
                st = self.bump(st, r, closed=True)
        return [(st, None)]

    def instr(self, f, i, st, env):
        if i.op not in ("load", "store"):
            return None
        p = i.ops[1] if i.op == "store" else i.ops[0]
        root, off, xs, _ = f.addr(p)
        base = own.resolve(f, root, env)
        e = self.get(st, base)
        if e is not None and e[3]:
            self.report("use", i, "uses a descriptor object after dropping "
                        "the reference")
        if i.op == "load":
            return None
        if f.fieldname(p) == "wasi_fdinfo.refcount":
            v = f.get(i.ops[0])
            d = delta(f, v, p)
            if d is not None:
                self.n.add(i.id)
                return self.bump(st, base, bal=d)
            return None
        if i.d.get("size") != 8:
            return None
        if flow.slot(f, p) is not None:
            return None
        j = f.get(base)
        if j is not None and j.op == "call" and j.cname == SLOT:
            self.n.add(i.id)
            fd = j.ops[2]
            for x in list(st):
                if isinstance(x[0], tuple):
                    a = f.ins[x[0][1]]
                    if a.ops[FDOP[a.cname]] == fd:
                        st = self.bump(st, x[0], bal=1, tab=-1)
            v = own.resolve(f, i.ops[0], env)
            if env.const(i.ops[0]) != 0:
                st = self.bump(st, v, bal=-1, tab=1)
            return st
        v = own.resolve(f, i.ops[0], env)
        e = self.get(st, v)
        if e is not None or (f.base in OUTOP and
                             base == "a%d" % OUTOP[f.base]):
            # handed to whoever owns that memory
            return self.bump(st, v, bal=-1)
        return None

    def ret(self, f, i, st, env):
        for r, bal, tab, dead, closed in st:
            src = f.ins[r[1]] if isinstance(r, tuple) else f.get(r)
            at = src if src is not None else i
            if bal > 0:
                self.report("balance", at, "a reference is not dropped on a "
                            "path to %s" % i.where)
            elif bal < 0:
                self.report("balance", at, "more references are dropped than "
                            "were taken on a path to %s" % i.where)
            if isinstance(r, tuple):
                if tab < 0 and not closed:
                    self.report("close", at, "the object is removed from the "
                                "table without being closed on a path to %s"
                                % i.where)
                if closed and tab >= 0:
                    self.report("close", at, "the object is closed but stays "
                                "in the table on a path to %s" % i.where)


def delta(f, v, p):
    """+1/-1 when v is the old value of *p plus/minus one"""
    if v is None or v.op not in ("add", "sub"):
        return None
    c = const(v.ops[1])
    l = f.get(v.ops[0])
    if c is None and v.op == "add":
        c = const(v.ops[0])
        l = f.get(v.ops[1])
    if c is None or l is None or l.op != "load":
        return None
    if f.addr(l.ops[0])[:3] != f.addr(p)[:3]:
        return None
    c = (c + (1 << 31)) % (1 << 32) - (1 << 31)
    return -c if v.op == "sub" else c


def start(f):
    d = {}
    for i in f.instrs():
        if i.op == "alloca" and i.bb == 0 and i.d.get("size", 0) <= 64:
            for o in range(0, i.d.get("size", 0), 8):
                d[("m", i.id, o)] = ("undef",)
    return d


def check(ctx, rep):
    rep.rule("balance", "on every path references taken equal references "
             "dropped, handed over or kept by the table")
    rep.rule("use", "a descriptor object is not used after its reference was "
             "dropped")
    rep.rule("close", "an object taken out of the table is closed, and only "
             "such objects are closed")
    rep.rule("fresh", "a new descriptor object is put into the table or freed "
             "on every path, and never released as if it were in the table")
    rep.rule("table", "the functions that look up, enter, hold, wait for, "
             "drop and close descriptor objects do what their definitions "
             "say: an object is freed when its count reaches zero, and "
             "closed only while nobody else holds it")
    rep.rule("kept", "references kept in an array are dropped from it before "
             "returning")
    p = ctx.prog("fdref", inline=INLINE)
    for n in (LOOKUP, FORCLOSE, RELEASE, SLOT, CLOSE, FREE):
        p.f(n)
    names = set(OUTOP) | {RELEASE, SLOT}
    for f in p.defined():
        if f.base in EXEMPT or f.base in INLINE:
            continue
        if not any(True for _ in f.calls(*names)) and \
           not touches(f, "wasi_fdinfo.refcount") and f.base not in OUTOP:
            continue
        if f.base == "wasi_fdinfo_init":
            continue

        def report(rule, i, text, f=f):
            rep.bad(rule, f.base, i.where, text)
        c = Refs(report)
        rep.seen("states", flow.run(f, c, start(f)))
        rep.seen("balance", len(c.n))
        rep.seen("use", len(c.n))
        if any(True for _ in f.calls(SLOT)) or \
           any(True for _ in f.calls(CLOSE)):
            rep.seen("close")
        kept(rep, f)
    spec = own.Spec(FRESH, {FREE: ("descriptor object", 0),
                            RELEASE: ("reference", 1)},
                    {"wasi_table_fdinfo_add": (2, ("descriptor object",),
                                               "ok"),
                     "wasi_table_affix": (3, ("descriptor object",),
                                          "always")})
    for f in p.defined():
        if not any(True for _ in f.calls(*FRESH)):
            continue

        def report(rule, i, text, f=f):
            rep.bad("fresh", "%s:%s" % (f.base, rule), i.where, text)
        o = own.Own(spec, report)
        rep.seen("states", flow.run(f, o, o.start(f)))
        rep.seen("fresh", len(o.nacq))
    wasiref.check(ctx, rep, "table", [
        n for n in wasiref.names()
        if n.startswith(("wasi_table_", "wasi_fdinfo_")) or
        n.endswith("fd_lookup") or n in TABLE])
    rep.assumptions.append("parameters declared as pointers to const are not "
                           "written through")


def touches(f, field):
    return any(i.op == "store" and f.fieldname(i.ops[1]) == field
               for i in f.instrs())


def kept(rep, f):
    """references stored into a heap array"""
    stores = []
    drops = []
    for i in f.instrs():
        if i.op == "store" and i.d.get("size") == 8:
            root, off, xs, _ = f.addr(i.ops[1])
            j = f.get(root)
            if not xs or j is None or j.op != "call" or \
               const(i.ops[0]) == 0:
                continue
            t = f.pointee(i.ops[0])
            if t is not None and t["name"] == "wasi_fdinfo":
                stores.append((i, root))
        elif i.op == "call" and i.cname == RELEASE:
            l = f.get(i.ops[1])
            if l is not None and l.op == "load":
                drops.append((i, f.addr(l.ops[0])[0]))
    for i, root in stores:
        rep.seen("kept")
        good = set()
        loops = loop_blocks(f)
        for c, r in drops:
            if c.bb in loops and sameroot(f, r, root):
                good.add(c.bb)
        # blocks from which the dropping loop is entered count as passing
        ok = set(good)
        for b in range(len(f.blocks)):
            if any(s in good for s in f.succs[b]):
                ok.add(b)
        reach = f.reachable_from(i.bb, avoid=ok)
        for b in reach:
            t = f.blocks[b][-1]
            if t.op == "ret" and b not in ok:
                rep.bad("kept", f.base, i.where, "references kept in this "
                        "array are not dropped on a path to %s" % t.where)
                break


def sameroot(f, a, b, depth=0):
    if a == b:
        return True
    j = f.get(a)
    if j is not None and j.op == "phi" and depth < 4:
        return any(sameroot(f, f.addr(x)[0], b, depth + 1)
                   for _, x in f.phi_in(j))
    return False
