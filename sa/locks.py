"""Lock typestate: per function, which locks are held where.

A lock is named by the member it lives in ("cluster.lock").  A function may
rely on its caller holding a lock; that is inferred (it unlocks, waits on or
touches guarded data without having locked) and checked at every call."""
from . import flow
from .terms import term

LOCK = "toywasm_mutex_lock"
UNLOCK = "toywasm_mutex_unlock"
WAITS = {"toywasm_cv_wait": (0, 1), "toywasm_cv_timedwait": (0, 1)}
SIGNALS = {"toywasm_cv_signal": (0, 1), "toywasm_cv_broadcast": (0, 1)}

# acquire/release wrappers; analysed inside each of their callers
WRAPPERS = ["memory_lock", "memory_unlock", "memory_atomic_getptr",
            "memory_atomic_unlock"]
# carry the lock in a variable of their own
CARRIERS = ["waiter_list_lookup", "waiter_block", "waiter_wakeup"]


def kind(f, v, env):
    """name of the lock pointer v designates, and its term"""
    t = term(f, v, env)
    v = resolve(f, v, env)
    fs = f.field_struct(v)
    if fs is not None and fs[0] != "toywasm_mutex":
        n = f.prog.holder(fs[0], fs[1], "toywasm_mutex")
        if n is not None:
            return n, t
    root = resolve(f, f.addr(v)[0], env)
    if root != f.addr(v)[0]:
        return kind(f, root, env)[0], t
    i = f.get(root)
    if i is not None and i.op == "call" and i.cname:
        return i.cname + "()", t
    if isinstance(v, str) and v[0] == "@":
        return v[1:], t
    a = f.argno(v)
    return "arg%d" % a if a is not None else repr(t)[:60], t


def resolve(f, v, env):
    """follow copies through phis and local variables on this path"""
    for _ in range(10):
        if not isinstance(v, int):
            break
        a = env.d.get(("al", v))
        if a is not None:
            v = a
            continue
        i = f.ins[v]
        if i.op == "load":
            s = flow.slot(f, i.ops[0])
            if s is not None:
                h = env.d.get(("hv", s))
                if h is not None and h != v:
                    v = h
                    continue
        break
    return v


class LockFlow(flow.Client):
    """state: tuple of (term, kind, 'H'|'R'), sorted"""
    stable = {"meminst.shared"}
    alias = True

    def __init__(self, guarded):
        self.guarded = guarded
        self.problems = []      # (rule, instr, text)
        self.requires = {}      # kind -> instr that needs it
        self.acquires = {}      # kind -> instr
        self.calls = []         # (instr, held kinds, released kinds)
        self.access = []        # (instr, field, held kinds)
        self.waits = []         # (kind, instr)
        self.order = []         # (held kind, acquired kind, instr)
        self.nlock = 0

    def init(self, f):
        return ()

    def call(self, f, i, st, env):
        n = i.cname
        if n == LOCK:
            k, t = kind(f, i.ops[0], env)
            for e in st:
                if e[0] == t:
                    if e[2] == "R":
                        return [(tuple(x for x in st if x is not e), None)]
                    self.problems.append(
                        ("double-lock", i, "locks %s which this path already "
                         "holds" % k))
                    return [(st, None)]
            for e in st:
                if e[2] == "H":
                    self.order.append((e[1], k, i))
            self.acquires.setdefault(k, i)
            return [(tuple(sorted(st + ((t, k, "H"),), key=repr)), None,
                     {resolve(f, i.ops[0], env): ("!", frozenset([0]))})]
        if n == UNLOCK:
            k, t = kind(f, i.ops[0], env)
            for e in st:
                if e[0] == t:
                    if e[2] == "H":
                        return [(tuple(x for x in st if x is not e), None)]
                    self.problems.append(
                        ("double-unlock", i,
                         "unlocks %s twice on one path" % k))
                    return [(st, None)]
            self.requires.setdefault(k, i)
            return [(tuple(sorted(st + ((t, k, "R"),), key=repr)), None)]
        if n in WAITS or n in SIGNALS:
            k, t = kind(f, i.ops[1], env)
            if not any(e[0] == t and e[2] == "H" for e in st):
                if any(e[0] == t and e[2] == "R" for e in st):
                    self.problems.append(
                        ("cv-unlocked", i, "%s after unlocking %s" % (n, k)))
                else:
                    self.requires.setdefault(k, i)
            if n in WAITS:
                self.waits.append((k, i))
                for e in st:
                    if e[2] == "H" and e[0] != t:
                        self.problems.append(
                            ("wait-holding", i, "sleeps on %s while holding "
                             "%s" % (k, e[1])))
            return None
        held = tuple(e[1] for e in st if e[2] == "H")
        rel = tuple(e[1] for e in st if e[2] == "R")
        self.calls.append((i, held, rel))
        return None

    def instr(self, f, i, st, env):
        if i.op in ("load", "store", "atomicrmw", "cmpxchg"):
            p = i.ops[1] if i.op == "store" else i.ops[0]
            n = f.fieldname(p)
            if n is not None:
                for g in self.guarded:
                    if n == g or n.startswith(g + "."):
                        held = frozenset(e[1] for e in st if e[2] == "H")
                        rel = frozenset(e[1] for e in st if e[2] == "R")
                        self.access.append((i, g, held, rel, env))
        return None

    def ret(self, f, i, st, env):
        for e in st:
            if e[2] == "H":
                self.problems.append(
                    ("held-at-return", i, "returns with %s still held" % e[1]))
            else:
                self.problems.append(
                    ("released-at-return", i, "returns having released %s, "
                     "which its caller still counts as held" % e[1]))
