"""Canonical expressions for SSA values: two values with the same term were
computed the same way (loads are assumed not to change in between)."""
from .ir import const

COMM = {"add", "mul", "and", "or", "xor", "fadd", "fmul"}


def term(f, v, env=None, depth=0):
    cache = f.__dict__.setdefault("_terms", {})
    if env is None and v in cache:
        return cache[v]
    t = _term(f, v, env, depth)
    if env is None:
        cache[v] = t
    return t


def addrterm(f, ptr, env=None, depth=0):
    root, off, xs, _ = f.addr(ptr)
    r = term(f, root, env, depth + 1)
    # pointer arithmetic on something that is itself an address
    if isinstance(r, tuple) and r and r[0] == "addr":
        return ("addr", r[1], r[2] + off,
                r[3] + tuple((s, term(f, x, env, depth + 1)) for s, x in xs))
    return ("addr", r, off,
            tuple((s, term(f, x, env, depth + 1)) for s, x in xs))


def _term(f, v, env, depth):
    c = const(v)
    if c is not None:
        return ("c", c)
    if isinstance(v, str):
        return (v,)
    if isinstance(v, tuple):
        if v and v[0] == "gep":
            return addrterm(f, v, env, depth)
        return v
    if depth > 40:
        return ("deep", v)
    if env is not None:
        al = env.d.get(("al", v))
        if al is not None and al != v:
            return term(f, al, env, depth + 1)
    i = f.ins[v]
    op = i.op
    if op == "alloca":
        return ("alloca", v)
    if op == "load":
        if env is not None:
            from .flow import slot
            s = slot(f, i.ops[0])
            if s is not None:
                h = env.d.get(("hv", s))
                lv = env.d.get(("lv", v))
                if h is not None and h != v and (lv is None or lv == s):
                    return term(f, h, env, depth + 1)
        return ("load", addrterm(f, i.ops[0], env, depth + 1))
    if op == "getelementptr":
        a = addrterm(f, v, env, depth)
        if a[2] == 0 and not a[3]:
            return a[1]
        return a
    if op in ("bitcast", "freeze"):
        return term(f, i.ops[0], env, depth + 1)
    if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "sitofp",
              "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "fneg"):
        return (op, i.ty, term(f, i.ops[0], env, depth + 1))
    if op in ("icmp", "fcmp"):
        return (op, i.d["pred"], term(f, i.ops[0], env, depth + 1),
                term(f, i.ops[1], env, depth + 1))
    if op in ("call", "phi", "cmpxchg", "atomicrmw"):
        return (op, v)
    if op in ("select", "extractvalue", "insertvalue", "extractelement",
              "insertelement", "shufflevector"):
        extra = tuple(i.d.get("idx", ())) + tuple(i.d.get("mask", ()))
        return (op,) + extra + tuple(term(f, o, env, depth + 1)
                                     for o in i.ops)
    ts = [term(f, o, env, depth + 1) for o in i.ops]
    if op in COMM:
        ts.sort(key=repr)
    return (op, i.ty) + tuple(ts)
