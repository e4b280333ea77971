"""Lock typestate over every function of the program (path-sensitive, with
the conditional lock wrappers inlined), closed under the call graph: locks are
balanced on every path, never taken twice, never nested in a cycle, never held
while sleeping on something else, and guarded data is only reached with its
lock held."""
from .. import flow, locks
from ..ir import const

# member -> (lock, "rw" or "w", why some functions are exempt)
GUARDED = {
    "wasi_fdinfo.refcount": ("wasi_instance.lock", "rw"),
    "wasi_table.table": ("wasi_instance.lock", "rw"),
    "wasi_instance.fdtable": ("wasi_instance.lock", "rw"),
    "wasi_instance.exit_code": ("wasi_instance.lock", "rw"),
    "cluster.nrunners": ("cluster.lock", "rw"),
    "cluster.nparked": ("cluster.lock", "rw"),
    # read without the lock on purpose (atomic), written only under it
    "cluster.suspend_state": ("cluster.lock", "w"),
    "waiter.woken": ("atomics_mutex_getptr()", "rw"),
    "waiter_list.waiters": ("atomics_mutex_getptr()", "rw"),
    "waiter_list.nwaiters": ("atomics_mutex_getptr()", "rw"),
    "waiter_list.ident": ("atomics_mutex_getptr()", "rw"),
    "waiter_list.next": ("atomics_mutex_getptr()", "rw"),
    "waiter_list_table.lists": ("atomics_mutex_getptr()", "rw"),
    # sizes are atomically readable; growth is serialised
    "meminst.size_in_pages": ("shared_meminst.lock", "w"),
}

# functions that work on objects no other thread can see yet or any more, and
# one deliberately racy hint
EXEMPT = {
    "wasi_fdinfo_init": "object under construction",
    "wasi_instance_create": "object under construction",
    "wasi_instance_destroy": "no thread is left",
    "wasi_table_clear": "teardown, no thread is left",
    "cluster_init": "object under construction",
    "waiter_init": "object under construction",
    "waiter_list_table_init": "object under construction",
    "memory_instance_create": "object under construction",
    "memory_instance_destroy": "no user is left",
    "check_interrupt_interval_ms": "racy read used as a polling hint",
    "instance_print_stats": "diagnostics after the run",
}

UNSHARED = {"shared_meminst.lock"}


def check(ctx, rep):
    rep.rule("balance", "every path of every function leaves each lock as it "
             "found it; no lock is taken twice or released twice")
    rep.rule("guarded", "members in the guard table are touched only with "
             "their lock held, in the function or in all of its callers")
    rep.rule("no-self-deadlock", "no call made with a lock held can take the "
             "same lock again")
    rep.rule("order", "the nesting order of different locks is acyclic")
    rep.rule("sleep", "no thread sleeps on a condition or waits for other "
             "threads while holding another lock")
    rep.rule("wait-loop", "condition waits are repeated until their "
             "predicate holds")
    p = ctx.prog("locks", inline=locks.WRAPPERS + locks.CARRIERS)
    skip = set(locks.WRAPPERS + locks.CARRIERS)
    guarded = set(GUARDED)
    res = {}
    for f in p.defined():
        if f.base in skip or f.base.startswith("toywasm_mutex_") or \
           f.base.startswith("toywasm_cv_"):
            continue
        interesting = False
        for i in f.instrs():
            if i.op == "call" or i.op in ("load", "store", "atomicrmw",
                                          "cmpxchg"):
                interesting = True
                break
        if not interesting:
            continue
        lf = locks.LockFlow(guarded)
        rep.seen("function_states", flow.run(f, lf))
        res[f.name] = (f, lf)
    rep.seen("functions_analysed", len(res))

    # own needs from guarded members
    for name, (f, lf) in res.items():
        if lf.acquires or lf.requires:
            rep.seen("balance")
        for rule, i, text in lf.problems:
            r = {"wait-holding": "sleep"}.get(rule, "balance")
            rep.bad(r, "%s:%s" % (f.base, rule), i.where, text)
        for k, i in lf.waits:
            rep.seen("sleep")
            if i.cname == "toywasm_cv_wait":
                rep.seen("wait-loop")
                if i.bb not in loop_blocks(f):
                    rep.bad("wait-loop", f.base, i.where,
                            "a condition wait that is not repeated")
        if f.base in EXEMPT:
            continue
        for i, g, held, rel, env in lf.access:
            lock, mode = GUARDED[g]
            if mode == "w" and i.op == "load":
                continue
            if fresh(f, i):
                continue
            if lock in UNSHARED and not_shared(f, i, env):
                continue
            rep.seen("guarded")
            if lock in held:
                continue
            if lock in rel:
                rep.bad("guarded", "%s:%s" % (f.base, g), i.where,
                        "%s touched after %s was released" % (g, lock))
                continue
            lf.requires.setdefault(lock, i)
            lf.__dict__.setdefault("why", {}).setdefault(
                lock, "touches %s" % g)

    # close over the call graph
    req = {n: {k: (i, None) for k, i in lf.requires.items()}
           for n, (f, lf) in res.items()}
    acq = {n: {k: i for k, i in lf.acquires.items()}
           for n, (f, lf) in res.items()}
    waits = {n: {k: i for k, i in lf.waits} for n, (f, lf) in res.items()}
    changed = True
    while changed:
        changed = False
        for n, (f, lf) in res.items():
            for i, held, rel in lf.calls:
                g = i.callee
                if g not in res:
                    continue
                gb = p.funcs[g].base
                for k in req[g]:
                    if k in held:
                        continue
                    if f.base in EXEMPT:
                        continue
                    if k not in req[n]:
                        req[n][k] = (i, g)
                        changed = True
                for k in acq[g]:
                    if k in rel:
                        continue
                    if k not in acq[n]:
                        acq[n][k] = i
                        changed = True
                for k in waits[g]:
                    if k not in waits[n]:
                        waits[n][k] = i
                        changed = True

    taken = p.address_taken()
    ncall = 0
    edges = {}
    for n, (f, lf) in res.items():
        for a, b, i in lf.order:
            rep.seen("order")
            edges.setdefault(a, {}).setdefault(b, i)
        for i, held, rel in lf.calls:
            g = i.callee
            if g not in res:
                continue
            for k in rel:
                if k in req[g]:
                    rep.bad("guarded", "%s->%s" % (f.base, p.funcs[g].base),
                            i.where, "calls %s after releasing %s, which it "
                            "needs" % (g, k))
            if not held:
                continue
            ncall += 1
            rep.seen("no-self-deadlock")
            for k in acq[g]:
                if k in held and k not in req[g]:
                    rep.bad("no-self-deadlock",
                            "%s->%s" % (f.base, p.funcs[g].base), i.where,
                            "calls %s, which takes %s, while holding it"
                            % (g, k))
                for h in held:
                    if h != k:
                        rep.seen("order")
                        edges.setdefault(h, {}).setdefault(k, i)
            for k in waits[g]:
                for h in held:
                    if h != k:
                        rep.bad("sleep", "%s->%s" % (f.base,
                                                     p.funcs[g].base),
                                i.where, "calls %s, which sleeps on %s, while "
                                "holding %s" % (g, k, h))
    rep.seen("order")       # the graph itself is examined even when empty
    for cyc in cycles(edges):
        i = edges[cyc[0]][cyc[1]]
        rep.bad("order", "->".join(sorted(set(cyc))), i.where,
                "locks nest in a cycle: " + " -> ".join(cyc))

    for n, (f, lf) in res.items():
        if not req[n]:
            continue
        root = n in taken or not p.callers(n)
        if not root:
            continue
        for k in req[n]:
            chain = [f.base]
            cur = n
            i, g = req[n][k]
            while g is not None and len(chain) < 12:
                chain.append(p.funcs[g].base)
                cur = g
                i, g = req[g][k]
            why = res[cur][1].__dict__.get("why", {}).get(
                k, "needs it")
            rep.bad("guarded", "%s:%s" % (chain[-1], k), i.where,
                    "%s %s without %s; reached through %s"
                    % (chain[-1], why, k, " -> ".join(chain)))
    rep.assumptions.append("locks are identified by the struct member they "
                           "live in; distinct objects of one struct are not "
                           "told apart across calls")
    for n, (f, lf) in sorted(res.items()):
        if lf.acquires:
            rep.sample("%s takes %s" % (n, ", ".join(sorted(lf.acquires))))


def loop_blocks(f):
    c = f.__dict__.get("_loops")
    if c is None:
        c = set()
        for b in range(len(f.blocks)):
            for s in f.succs[b]:
                if b in f.reachable_from(s):
                    c.add(b)
        f._loops = c
    return c


def fresh(f, i):
    """the object was allocated by this function (constructor)"""
    p = i.ops[1] if i.op == "store" else i.ops[0]
    root = f.addr(p)[0]
    j = f.get(root)
    seen = set()
    while j is not None and j.op == "phi" and j.id not in seen:
        seen.add(j.id)
        nxt = [v for _, v in f.phi_in(j) if const(v) is None]
        j = f.get(nxt[0]) if len(set(nxt)) == 1 else None
    return j is not None and j.op == "call" and j.cname in (
        "malloc", "calloc", "mem_alloc", "mem_zalloc")


def not_shared(f, i, env):
    p = i.ops[1] if i.op == "store" else i.ops[0]
    for k, v in env.d.items():
        if isinstance(k, tuple) and k[0] == "s" and v == ("=", 0):
            return True
    return False


def cycles(edges):
    out = []

    def dfs(n, path):
        for m in edges.get(n, ()):
            if m in path:
                out.append(path[path.index(m):] + [m])
            elif len(path) < 12:
                dfs(m, path + [m])
    for n in list(edges):
        dfs(n, [n])
    return out[:4]
