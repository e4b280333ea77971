"""Which bytes behind its pointer arguments a function may write."""

LIBC_CONST = {
    # functions of the C library that do not write through these arguments
    "strlen": (0,), "strcmp": (0, 1), "memcmp": (0, 1), "strchr": (0,),
    "strrchr": (0,), "strnlen": (0,), "memchr": (0,), "strdup": (0,),
    "strndup": (0,), "fwrite": (0,), "write": (1,), "open": (0,),
    "free": (0,),
}

ALL = None


def resolve_indirect(p, i):
    """possible targets of an indirect call (same debug-info type)"""
    c = p.__dict__.setdefault("_ind", {})
    f = i.f
    callee = i.d.get("callee")
    key = (f.name, i.id)
    if key in c:
        return c[key]
    out = None
    # all address-taken functions with the same number of arguments and the
    # same return type
    taken = p.address_taken()
    out = []
    for n in taken:
        g = p.funcs[n]
        if g.decl or len(g.args) != len(i.ops) or g.ret != i.ty:
            continue
        ok = True
        for (an, at), o in zip(g.args, i.ops):
            ot = optype(f, o)
            if ot is not None and ot != at:
                ok = False
                break
        if ok:
            out.append(n)
    c[key] = out
    return out


def optype(f, o):
    if isinstance(o, int):
        return f.ins[o].ty
    n = f.argno(o)
    if n is not None:
        return f.args[n][1]
    if isinstance(o, tuple) and o and o[0] == "c":
        return "i%d" % o[2]
    if isinstance(o, tuple) and o and o[0] in ("null", "gep"):
        return "ptr"
    if isinstance(o, str) and o.startswith("@"):
        return "ptr"
    return None


def body(p, name):
    """the function of a name; one with internal linkage where a definition
    of ours names it from outside"""
    g = p.funcs.get(name)
    if g is None or g.decl:
        if not name.startswith("llvm."):
            name = name.split(".")[0]
        c = [x for x in p.bybase.get(name, ()) if not x.decl]
        if len(c) == 1:
            return c[0]
        if p.outer is not None:
            return body(p.outer(), name)
    return g


def elsewhere(p, g):
    """the program a function was found in, when not this one"""
    return g.prog if g is not None and not g.decl and g.prog is not p \
        else None


def argmods(p, name, k):
    """set of byte offsets function name may write behind argument k, or
    None when unknown (any)"""
    c = p.__dict__.setdefault("_mods", {})
    key = (name, k)
    if key in c:
        return c[key]
    c[key] = set()      # optimistic for recursion
    g = body(p, name)
    q = elsewhere(p, g)
    if q is not None:
        c[key] = argmods(q, g.name, k)
        return c[key]
    if g is None or g.decl:
        base = name.split(".")[0]
        r = set() if k in LIBC_CONST.get(base, ()) else ALL
        if name.startswith("llvm.") and not name.startswith("llvm.mem"):
            r = set()
        if name.startswith(("llvm.memcpy", "llvm.memmove")) and k == 1:
            r = set()
        c[key] = r
        return r
    if const_arg(p, g, k):
        return c[key]
    out = set()
    arg = "a%d" % k
    res = _scan(p, g, arg, out)
    c[key] = out if res else ALL
    # optimistic recursion: redo once now that a first result is known
    if res:
        out2 = set()
        res = _scan(p, g, arg, out2)
        c[key] = out2 if res else ALL
    return c[key]


def extent(p, name, k):
    """the bytes of the object that argument k is declared to point to, None
    where it may be one of several or any"""
    g = body(p, name)
    if g is None or g.ditype is None:
        return None
    p = g.prog
    m = p.di[g.ditype].get("members", ())
    if len(m) - 1 != len(g.args) or k + 1 >= len(m):
        return None
    o = p.deref_di(m[k + 1])
    if o is None or not o.get("size") or o["size"] <= 8 or \
            o.get("name") == "cell":
        return None
    return frozenset(range(o["size"] // 8))


def const_arg(p, g, k):
    """declared as a pointer to const (taken at its word)"""
    if g.ditype is None:
        return False
    m = p.di[g.ditype].get("members", ())
    if len(m) - 1 != len(g.args) or k + 1 >= len(m):
        return False
    o = p.strip_di(m[k + 1])
    if o is None or o["tag"] != "DW_TAG_pointer_type":
        return False
    b = o.get("base", -1)
    while b is not None and b >= 0 and p.di[b]["tag"] == "DW_TAG_typedef":
        b = p.di[b].get("base", -1)
    return b is not None and b >= 0 and p.di[b]["tag"] == "DW_TAG_const_type"


def _scan(p, g, arg, out):
    for i in g.instrs():
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            ptr = i.ops[1] if i.op == "store" else i.ops[0]
            root, off, xs, _ = g.addr(ptr)
            if derived(g, root, arg):
                if xs or root != arg:
                    return False
                out.update(range(off, off + (i.d.get("size") or 8)))
            if i.op == "store" and derived(g, g.addr(i.ops[0])[0], arg):
                # remembered somewhere: may be written later
                j = g.get(g.addr(ptr)[0])
                if j is None or j.op != "alloca":
                    continue
                return False
        elif i.op == "call":
            for n, o in enumerate(i.ops):
                root, off, xs, _ = g.addr(o)
                if not derived(g, root, arg):
                    continue
                m = callmods(p, i, n)
                if m is ALL or xs or root != arg:
                    if m is not ALL and not m:
                        continue
                    return False
                out.update(off + x for x in m)
    return True


def derived(g, v, arg, depth=0):
    if v == arg:
        return True
    if isinstance(v, int) and depth < 6:
        i = g.ins[v]
        if i.op in ("phi", "select"):
            return any(derived(g, g.addr(o)[0], arg, depth + 1)
                       for o in g.operands(i) if o != v)
    return False


def callmods(p, i, n):
    """offsets call i may write behind its operand n, or None = any"""
    if i.callee is not None:
        return argmods(p, i.callee, n)
    ts = resolve_indirect(p, i)
    if not ts:
        return ALL
    out = set()
    for t in ts:
        m = argmods(p, t, n)
        if m is ALL:
            return ALL
        out |= m
    return out


def argreads(p, name, k):
    """set of byte offsets function name may read behind argument k, or
    None when unknown (any)"""
    c = p.__dict__.setdefault("_reads", {})
    key = (name, k)
    if key in c:
        return c[key]
    c[key] = set()      # optimistic for recursion
    g = body(p, name)
    q = elsewhere(p, g)
    if q is not None:
        c[key] = argreads(q, g.name, k)
        return c[key]
    if g is None or g.decl:
        c[key] = set() if name.startswith("llvm.") and \
            not name.startswith("llvm.mem") else ALL
        return c[key]
    for _ in range(2):
        out = set()
        c[key] = out if _scanreads(p, g, "a%d" % k, out) else ALL
        if c[key] is ALL:
            break
    return c[key]


def _scanreads(p, g, arg, out):
    for i in g.instrs():
        if i.op in ("load", "atomicrmw", "cmpxchg"):
            root, off, xs, _ = g.addr(i.ops[0])
            if derived(g, root, arg):
                if xs or root != arg:
                    return False
                out.update(range(off, off + (i.d.get("size") or 8)))
        elif i.op == "store":
            if derived(g, g.addr(i.ops[0])[0], arg):
                return False
        elif i.op == "call":
            for n, o in enumerate(i.ops):
                root, off, xs, _ = g.addr(o)
                if not derived(g, root, arg):
                    continue
                if i.callee is None:
                    return False
                m = argreads(p, i.callee, n)
                if m is ALL or xs or root != arg:
                    if m is not ALL and not m:
                        continue
                    return False
                out.update(off + x for x in m)
    return True


def argfills(p, name, k):
    """byte offsets behind argument k that the function writes whenever it
    returns and never reads"""
    c = p.__dict__.setdefault("_fills", {})
    key = (name, k)
    if key in c:
        return c[key]
    c[key] = frozenset()
    g = body(p, name)
    q = elsewhere(p, g)
    if q is not None:
        c[key] = argfills(q, g.name, k)
        return c[key]
    if g is None or g.decl or k >= len(g.args) or g.args[k][1] != "ptr":
        return c[key]
    arg = "a%d" % k
    gen = [set() for _ in g.blocks]
    todo = [arg]
    seen = set()
    while todo:
        v = todo.pop()
        for i in g.users.get(v, ()):
            if i.id in seen:
                continue
            seen.add(i.id)
            if i.op == "getelementptr":
                todo.append(i.id)
            elif i.op == "icmp":
                pass
            elif i.op == "store" and i.ops[0] != v:
                root, off, xs, _ = g.addr(i.ops[1])
                if root != arg or xs:
                    return c[key]
                gen[i.bb].update(range(off, off + (i.d.get("size") or 0)))
            elif i.op == "call" and i.callee is not None:
                for n, o in enumerate(i.ops):
                    root, off, xs, _ = g.addr(o)
                    if not derived(g, root, arg):
                        continue
                    m = argfills(p, i.callee, n)
                    if root != arg or xs or not m:
                        return c[key]
                    gen[i.bb].update(off + x for x in m)
            else:
                return c[key]
    every = set().union(*gen)
    state = {0: frozenset(gen[0])}
    work = True
    while work:
        work = False
        for b in g.rpo():
            if b == 0:
                continue
            ins = [state[x] for x in g.preds[b] if x in state]
            x = frozenset.intersection(*ins) if ins else frozenset(every)
            x = x | gen[b]
            if state.get(b) != x:
                state[b] = x
                work = True
    out = [state[b] for b in g.rpo() if g.blocks[b][-1].op == "ret"]
    c[key] = frozenset.intersection(*out) if out else frozenset()
    return c[key]


def truth(p, name):
    """whether a function returns nothing but 0 and 1"""
    c = p.__dict__.setdefault("_truth", {})
    if name in c:
        return c[name]
    g = body(p, name)
    q = elsewhere(p, g)
    if q is not None:
        c[name] = truth(q, g.name)
        return c[name]
    if g is None or g.decl or not g.ret.startswith("i") or g.ret == "i1":
        c[name] = False
        return False
    c[name] = True      # what it returns from itself does not matter
    todo = [o for b in g.rpo() for o in g.blocks[b][-1].ops
            if g.blocks[b][-1].op == "ret"]
    seen = set()
    while todo:
        o = todo.pop()
        if isinstance(o, tuple) and o[0] == "c" and int(o[1]) in (0, 1):
            continue
        if isinstance(o, tuple) and o[0] == "undef":
            continue
        if isinstance(o, int):
            if o in seen:
                continue
            seen.add(o)
            i = g.get(o)
            if i.op == "phi":
                todo += [x for _, x in g.phi_in(i)]
                continue
            if i.op == "select":
                todo += i.ops[1:3]
                continue
            if i.op == "zext" and optype(g, i.ops[0]) == "i1":
                continue
            if i.op == "call" and i.callee is not None and \
                    truth(p, i.callee):
                continue
        c[name] = False
        return False
    return True


def confined(p, name):
    """{argument: byte offsets} when those are all a function reads or
    writes, None otherwise"""
    c = p.__dict__.setdefault("_confined", {})
    if name in c:
        return c[name]
    c[name] = None
    g = body(p, name)
    q = elsewhere(p, g)
    if q is not None:
        c[name] = confined(q, g.name)
        return c[name]
    if g is None or g.decl or g.ret != "void":
        return None
    out = {}
    for i in g.instrs():
        if i.op in ("load", "store"):
            root, off, xs, _ = g.addr(i.ops[-1])
            k = g.argno(root)
            if k is None or xs or not i.d.get("size"):
                return None
            out.setdefault(k, set()).update(range(off, off + i.d["size"]))
        elif i.op == "call":
            if i.callee is not None and i.callee.startswith("llvm.dbg"):
                continue
            m = confined(p, i.callee) if i.callee is not None else None
            if m is None:
                return None
            for n, offs in m.items():
                root, off, xs, _ = g.addr(i.ops[n])
                k = g.argno(root)
                if k is None or xs:
                    return None
                out.setdefault(k, set()).update(off + x for x in offs)
        elif i.op not in ("getelementptr", "icmp", "br", "ret", "phi",
                          "select", "add", "sub", "zext", "trunc"):
            return None
    c[name] = out
    return out
