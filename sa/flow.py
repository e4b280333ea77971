"""Path-sensitive typestate propagation (property simulation).

A client supplies a small, hashable state and a transfer function.  Besides
the client's state, the engine keeps what is known about integer and pointer
values ("is c", "is none of ...") so that correlated branches such as

    ret = f(); if (ret != 0) goto fail; ... fail: if (ret == 0) ...

are followed consistently.  Two paths that agree on both are merged."""
from .build import Broken
from .ir import const
from .mods import callmods
from .terms import addrterm

MAXSTATES = 60000


class Env:
    """Facts about values along the current path (immutable by convention)."""
    __slots__ = ("f", "d")

    def __init__(self, f, d):
        self.f = f
        self.d = d

    def const(self, v, depth=0):
        """known integer value of v on this path, or None"""
        c = const(v)
        if c is not None:
            return c
        x = self.d.get(v)
        if x is not None:
            return x[1] if x[0] == "=" else None
        if isinstance(v, tuple):
            if v and v[0] == "undef":
                return None
            return None
        if not isinstance(v, int) or depth > 12:
            return None
        i = self.f.ins[v]
        op = i.op
        if op in ("zext", "trunc", "freeze"):
            c = self.const(i.ops[0], depth + 1)
            if c is None:
                return None
            if op == "zext":
                src = self.f.ins[i.ops[0]] if isinstance(i.ops[0], int) \
                    else None
                if src is not None and src.ty == "i1":
                    return c & 1
                if c < 0:
                    return None
            return c
        if op == "sext":
            c = self.const(i.ops[0], depth + 1)
            if c is None:
                return None
            src = self.f.get(i.ops[0])
            if src is not None and src.ty == "i1":
                return -1 if c else 0
            return c
        if op == "icmp":
            return self.icmp(i, depth)
        if op == "select":
            c = self.const(i.ops[0], depth + 1)
            if c is None:
                a = self.const(i.ops[1], depth + 1)
                b = self.const(i.ops[2], depth + 1)
                return a if a is not None and a == b else None
            return self.const(i.ops[1] if c else i.ops[2], depth + 1)
        if op in ("and", "or", "xor"):
            a = self.const(i.ops[0], depth + 1)
            b = self.const(i.ops[1], depth + 1)
            if op == "and" and (a == 0 or b == 0):
                return 0
            if i.ty == "i1" and op == "or" and (a in (1, -1) or b in (1, -1)):
                return 1
            if a is not None and b is not None:
                r = {"and": a & b, "or": a | b, "xor": a ^ b}[op]
                return r & 1 if i.ty == "i1" else r
            return None
        return None

    def nonzero(self, v, depth=0):
        """True/False/None: v != 0"""
        c = self.const(v)
        if c is not None:
            return c != 0
        x = self.d.get(v)
        if x is not None and x[0] == "!" and 0 in x[1]:
            return True
        if isinstance(v, int) and depth < 8:
            i = self.f.ins[v]
            if i.op in ("alloca",):
                return True
            if i.op in ("zext", "sext", "freeze"):
                return self.nonzero(i.ops[0], depth + 1)
            if i.op == "getelementptr":
                r = self.f.addr(v)[0]
                if r != v:
                    return self.nonzero(r, depth + 1)
            if i.op == "select":
                c = self.const(i.ops[0])
                if c is not None:
                    return self.nonzero(i.ops[1] if c else i.ops[2],
                                        depth + 1)
                a = self.nonzero(i.ops[1], depth + 1)
                b = self.nonzero(i.ops[2], depth + 1)
                return a if a is not None and a == b else None
        if isinstance(v, str) and v.startswith("@"):
            return True
        if isinstance(v, tuple) and v and v[0] == "gep":
            return True
        return None

    def icmp(self, i, depth=0):
        p = i.d["pred"]
        a, b = i.ops
        ca, cb = self.const(a, depth + 1), self.const(b, depth + 1)
        if ca is not None and cb is not None:
            m = (1 << 64) - 1
            if p == "eq":
                return int(ca == cb)
            if p == "ne":
                return int(ca != cb)
            if p[0] == "s":
                return int({"slt": ca < cb, "sle": ca <= cb, "sgt": ca > cb,
                            "sge": ca >= cb}[p])
            ua, ub = ca & m, cb & m
            if ca < 0 or cb < 0:
                # same width truncation is monotone only for equal signs
                if (ca < 0) != (cb < 0):
                    pass
            return int({"ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub,
                        "uge": ua >= ub}[p])
        if p in ("eq", "ne"):
            if cb is None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                x = self.d.get(a)
                if x is not None and x[0] == "!" and cb in x[1]:
                    return int(p == "ne")
                if cb == 0:
                    nz = self.nonzero(a)
                    if nz is not None:
                        return int(nz == (p == "ne"))
            elif a == b:
                return int(p == "eq")
        if p in ("ugt",) and cb == 0:
            nz = self.nonzero(a)
            if nz is not None:
                return int(nz)
        if p == "ult" and ca == 0:
            nz = self.nonzero(b)
            if nz is not None:
                return int(nz)
        return None

    def refine(self, v, truth, depth=0):
        """New Env in which the i1 value v is truth, or None if impossible."""
        c = self.const(v)
        if c is not None:
            return self if bool(c) == truth else None
        d = dict(self.d)
        d[v] = ("=", 1 if truth else 0)
        e = Env(self.f, d)
        if not isinstance(v, int) or depth > 10:
            return e
        i = self.f.ins[v]
        if i.op == "icmp":
            p = i.d["pred"]
            a, b = i.ops
            ca, cb = e.const(a), e.const(b)
            if ca is not None and cb is None:
                a, b, ca, cb = b, a, cb, ca
                p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
                     "slt": "sgt", "sgt": "slt", "sle": "sge",
                     "sge": "sle"}.get(p, p)
            if cb is not None:
                if p in ("eq", "ne"):
                    return e.assume(a, cb, (p == "eq") == truth)
                if cb == 0 and p == "ugt":
                    return e.assume(a, 0, not truth)
                if cb == 0 and p == "ule":
                    return e.assume(a, 0, truth)
                if cb == 1 and p == "ult":
                    return e.assume(a, 0, truth)
                if cb == 1 and p == "uge":
                    return e.assume(a, 0, not truth)
            return e
        if i.op == "xor" and i.ty == "i1" and const(i.ops[1]) in (1, -1):
            return e.refine(i.ops[0], not truth, depth + 1)
        if i.op == "and" and i.ty == "i1" and truth:
            e = e.refine(i.ops[0], True, depth + 1)
            return e and e.refine(i.ops[1], True, depth + 1)
        if i.op == "or" and i.ty == "i1" and not truth:
            e = e.refine(i.ops[0], False, depth + 1)
            return e and e.refine(i.ops[1], False, depth + 1)
        if i.op == "select" and i.ty == "i1":
            c, x, y = i.ops
            if const(y) == 0 and truth:       # c && x
                e = e.refine(c, True, depth + 1)
                return e and e.refine(x, True, depth + 1)
            if const(x) in (1, -1) and not truth:   # c || y
                e = e.refine(c, False, depth + 1)
                return e and e.refine(y, False, depth + 1)
        if i.op in ("freeze",):
            return e.refine(i.ops[0], truth, depth + 1)
        if i.op == "trunc" and i.ty == "i1":
            # a bool kept in memory as i8
            return e.assume(i.ops[0], 0, not truth)
        return e

    def assume(self, v, c, eq, depth=0):
        """New Env with v == c (or v != c), or None if impossible."""
        k = self.const(v)
        if k is not None:
            return self if (k == c) == eq else None
        x = self.d.get(v)
        d = dict(self.d)
        if eq:
            if x is not None and x[0] == "!" and c in x[1]:
                return None
            if c == 0 and self.nonzero(v):
                return None
            d[v] = ("=", c)
        else:
            old = x[1] if x is not None and x[0] == "!" else frozenset()
            d[v] = ("!", old | {c})
        e = Env(self.f, d)
        if isinstance(v, int) and depth < 10:
            i = self.f.ins[v]
            if i.op in ("zext", "sext", "freeze"):
                src = self.f.get(i.ops[0])
                if src is not None and src.ty == "i1":
                    if c == 0:
                        return e.refine(i.ops[0], not eq, depth + 1)
                    if eq:
                        return e.refine(i.ops[0], True, depth + 1)
                    return e
                return e.assume(i.ops[0], c, eq, depth + 1)
            if i.op == "select":
                a, b = i.ops[1], i.ops[2]
                ca, cb = e.const(a), e.const(b)
                if eq:
                    if ca is not None and ca != c:
                        e = e.refine(i.ops[0], False, depth + 1)
                        return e and e.assume(b, c, True, depth + 1)
                    if cb is not None and cb != c:
                        e = e.refine(i.ops[0], True, depth + 1)
                        return e and e.assume(a, c, True, depth + 1)
                else:
                    if ca == c:
                        e = e.refine(i.ops[0], False, depth + 1)
                        return e and e.assume(b, c, False, depth + 1)
                    if cb == c:
                        e = e.refine(i.ops[0], True, depth + 1)
                        return e and e.assume(a, c, False, depth + 1)
            if i.op == "load":
                s = slot(self.f, i.ops[0])
                if s is not None and e.d.get(("lv", v)) == s:
                    d = dict(e.d)
                    d[s] = d[v]
                    e = Env(self.f, d)
        return e

    def set(self, v, fact):
        d = dict(self.d)
        if fact is None:
            d.pop(v, None)
        else:
            d[v] = fact
        return Env(self.f, d)

    def held(self, s):
        """the SSA value a local slot currently holds, or None"""
        return self.d.get(("hv", s))


def slot(f, ptr):
    """key of the local variable (or stable field) a pointer designates"""
    root, off, xs, steps = f.addr(ptr)
    if not xs and isinstance(root, int) and f.ins[root].op == "alloca":
        return ("m", root, off)
    stable = f.__dict__.get("_stable")
    if stable:
        n = f.fieldname(ptr)
        if n in stable:
            return ("s", addrterm(f, ptr))
    return None


class Client:
    def init(self, f):
        return ()

    def call(self, f, i, st, env):
        """Handle call i. Return None (default) or list of (state, fact, env);
        fact (for the call's value) may be None."""
        return None

    def instr(self, f, i, st, env):
        """Any other instruction; return new state (or None = unchanged)."""
        return None

    def ret(self, f, i, st, env):
        pass

    def edge(self, f, a, b, st, env):
        return st


def _liveness(f):
    """values live into each block (only those the engine keeps facts on)"""
    use = []
    define = []
    for b in f.blocks:
        u, d = set(), set()
        for i in b:
            if i.op == "phi":
                d.add(i.id)
                continue
            for o in f.operands(i):
                if isinstance(o, int) and o not in d:
                    u.add(o)
                elif isinstance(o, str) and o[0] == "a":
                    u.add(o)
            d.add(i.id)
        use.append(u)
        define.append(d)
    phiuse = {}
    for b in f.blocks:
        for i in b:
            if i.op != "phi":
                break
            for p, v in f.phi_in(i):
                if isinstance(v, int):
                    phiuse.setdefault(p, set()).add(v)
    livein = [set() for _ in f.blocks]
    changed = True
    while changed:
        changed = False
        for b in range(len(f.blocks) - 1, -1, -1):
            out = set(phiuse.get(b, ()))
            for s in f.succs[b]:
                out |= livein[s]
            n = use[b] | (out - define[b])
            if n != livein[b]:
                livein[b] = n
                changed = True
    # a value is also needed when a live value is computed from it lazily
    deps = {}

    def dep(v):
        if v in deps:
            return deps[v]
        deps[v] = set()
        r = {v}
        i = f.get(v)
        if i is not None and i.op in ("zext", "sext", "trunc", "freeze",
                                      "icmp", "select", "and", "or", "xor",
                                      "getelementptr", "add", "sub"):
            for o in f.operands(i):
                if isinstance(o, int) or (isinstance(o, str)
                                          and o[0] == "a"):
                    r |= dep(o)
        deps[v] = r
        return r
    out = []
    for b, s in enumerate(livein):
        x = set()
        for v in s:
            x |= dep(v)
        for i in f.blocks[b]:
            if i.op != "phi":
                break
            x.add(i.id)
        out.append(x)
    return out


def captured(f):
    """allocas whose address is stored to memory"""
    r = set()
    for i in f.instrs():
        if i.op == "store":
            root = f.addr(i.ops[0])[0]
            j = f.get(root)
            if j is not None and j.op == "alloca":
                r.add(root)
        elif i.op in ("phi", "select"):
            for o in f.operands(i):
                root = f.addr(o)[0]
                j = f.get(root)
                if j is not None and j.op == "alloca":
                    r.add(root)
    return r


def _join_fact(a, b):
    if a == b:
        return a
    if a is None or b is None or a[0] not in ("=", "!") \
       or b[0] not in ("=", "!"):
        return None
    if a[0] == "=" and b[0] == "=":
        if a[1] != 0 and b[1] != 0:
            return ("!", frozenset([0]))
        return None
    if a[0] == "=":
        a, b = b, a
    if b[0] == "=":
        s = a[1] - {b[1]}
    else:
        s = a[1] & b[1]
    return ("!", s) if s else None


def _join(a, b):
    """facts that hold in both"""
    r = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if v == w:
            r[k] = v
        elif not (isinstance(k, tuple) and k[0] in ("hv", "lv", "al")):
            x = _join_fact(v, w)
            if x is not None:
                r[k] = x
    return r


def run(f, client, start_env=None, width=24):
    """Propagate until fixpoint. Returns the number of (block, state) pairs.

    Up to `width` different sets of facts are kept per block and client
    state; beyond that they are joined."""
    live = getattr(f, "_live", None)
    if live is None:
        live = f._live = _liveness(f)
        f._capt = captured(f)
    capt = f._capt
    f._stable = getattr(client, "stable", None)
    alias = f._alias = getattr(client, "alias", False)
    init = client.init(f)
    work = [(0, init, start_env or {})]
    seen = set()
    tab = {}
    steps = 0
    keep_all = getattr(client, "keep", ())
    order = {b: n for n, b in enumerate(f.rpo())}
    while work:
        # earliest block first, so that joins happen before continuing
        work.sort(key=lambda w: -order.get(w[0], 0))
        bb, st, d = work.pop()
        lv = live[bb]
        d = {k: v for k, v in d.items()
             if (isinstance(k, tuple) and (k[0] in ("m", "hv", "s") or
                 (k[0] in ("lv", "al") and k[1] in lv)))
             or k in lv or k in keep_all}
        slot_ = tab.setdefault((bb, st), [0, None])
        if slot_[0] > width:
            j = _join(slot_[1], d)
            if j == slot_[1]:
                continue
            slot_[1] = d = j
        else:
            key = (bb, st, frozenset(d.items()))
            if key in seen:
                continue
            seen.add(key)
            slot_[0] += 1
            slot_[1] = d if slot_[1] is None else _join(slot_[1], d)
            if slot_[0] > width:
                d = slot_[1]
        steps += 1
        if steps > MAXSTATES:
            raise Broken("too many states in %s" % f.name)
        states = [(st, Env(f, d))]
        dead = False
        for i in f.blocks[bb]:
            if i.op == "phi":
                continue
            nxt = []
            for st1, env in states:
                nxt.extend(_step(f, client, i, st1, env, capt))
            states = nxt
            if not states:
                dead = True
                break
        if dead:
            continue
        t = f.blocks[bb][-1]
        for st1, env in states:
            for tgt, e2 in _branches(f, t, env):
                # phis
                upd = {}
                al = {}
                for i in f.blocks[tgt]:
                    if i.op != "phi":
                        break
                    v = None
                    for p, x in f.phi_in(i):
                        if p == bb:
                            v = x
                            break
                    c = e2.const(v)
                    if c is not None:
                        upd[i.id] = ("=", c)
                    elif isinstance(v, int) and v in e2.d:
                        upd[i.id] = e2.d[v]
                    elif isinstance(v, tuple) and v and v[0] == "undef":
                        upd[i.id] = ("undef",)
                    elif e2.nonzero(v):
                        upd[i.id] = ("!", frozenset([0]))
                    else:
                        upd[i.id] = None
                    if alias and i.ty == "ptr" and v != i.id:
                        v = e2.d.get(("al", v), v)
                        if v != i.id and (isinstance(v, (int, str)) or
                                          (isinstance(v, tuple)
                                           and v[0] == "r")):
                            al[i.id] = v
                nd = dict(e2.d)
                for k, v in upd.items():
                    _forget(nd, k)
                for k, v in upd.items():
                    if v is not None:
                        nd[k] = v
                for k, v in al.items():
                    if v not in upd:
                        nd[("al", k)] = v
                st2 = client.edge(f, bb, tgt, st1, Env(f, nd))
                if st2 is None:
                    continue
                work.append((tgt, st2, nd))
    return steps


def _branches(f, t, env):
    if t.op == "br":
        s = t.d["succ"]
        if len(s) == 1:
            yield s[0], env
            return
        for n, truth in ((s[0], True), (s[1], False)):
            e = env.refine(t.ops[0], truth)
            if e is not None:
                yield n, e
        return
    if t.op == "switch":
        v = t.ops[0]
        rest = env
        for c, tgt in t.d["cases"]:
            e = env.assume(v, c, True)
            if e is not None:
                yield tgt, e
            if rest is not None:
                rest = rest.assume(v, c, False)
        if rest is not None:
            yield t.d["default"], rest
        return


def _clobber(d, pred):
    """forget what is known about the slots pred accepts"""
    for k in list(d):
        if not isinstance(k, tuple):
            continue
        if k[0] in ("m", "s"):
            if pred(k):
                del d[k]
        elif k[0] == "hv":
            if pred(k[1]):
                del d[k]
        elif k[0] == "lv":
            if pred(d[k]):
                del d[k]


def _forget(d, n):
    """value n is computed anew"""
    d.pop(n, None)
    d.pop(("lv", n), None)
    d.pop(("al", n), None)
    for k in [k for k, v in d.items()
              if isinstance(k, tuple) and k[0] in ("hv", "al") and v == n]:
        del d[k]


def _step(f, client, i, st, env, capt):
    op = i.op
    if i.id in env.d or ("lv", i.id) in env.d or i.id in env.d.values():
        d = dict(env.d)
        _forget(d, i.id)
        env = Env(f, d)
    if op == "ret":
        client.ret(f, i, st, env)
        return []
    if op == "unreachable":
        return []
    if op == "call":
        r = client.call(f, i, st, env)
        # slots whose address is passed may change
        d = None
        for n, o in enumerate(i.ops):
            root, off, xs, _ = f.addr(o)
            j = f.get(root)
            if j is not None and j.op == "alloca":
                m = callmods(f.prog, i, n)
                if m is not None and not m:
                    continue
                d = dict(env.d) if d is None else d
                if m is None or xs:
                    _clobber(d, lambda s: s[0] == "m" and s[1] == root)
                else:
                    _clobber(d, lambda s: s[0] == "m" and s[1] == root
                             and s[2] - off in m)
        if capt and not (i.callee or "").startswith("llvm."):
            d = dict(env.d) if d is None else d
            _clobber(d, lambda s: s[0] == "m" and s[1] in capt)
        if i.cname and i.cname.startswith("llvm.memset") and \
           const(i.ops[1]) == 0:
            root, off, xs, _ = f.addr(i.ops[0])
            j = f.get(root)
            n = const(i.ops[2])
            if j is not None and j.op == "alloca" and not xs and n:
                d = dict(env.d) if d is None else d
                for k in range(off, off + min(n, 4096)):
                    d[("m", root, k)] = ("=", 0)
        if i.callee and i.ty != "void":
            rf = f.prog.ret_fact(i.callee)
            if rf is not None:
                d = dict(env.d) if d is None else d
                d[i.id] = rf
        e0 = env if d is None else Env(f, d)
        if r is None:
            return [(st, e0)]
        out = []
        for x in r:
            s1, fact = x[0], x[1]
            e1 = e0
            if len(x) > 2 and x[2]:
                dd = dict(e0.d)
                for k, v in x[2].items():
                    if v is None:
                        dd.pop(k, None)
                    else:
                        dd[k] = v
                e1 = Env(f, dd)
            if fact is not None:
                e1 = e1.set(i.id, fact)
            out.append((s1, e1))
        return out
    if op == "store":
        s = slot(f, i.ops[1])
        r = client.instr(f, i, st, env)
        if r is not None:
            st = r
        if s is not None:
            v = i.ops[0]
            d = dict(env.d)
            _clobber(d, lambda x: x == s)
            c = env.const(v)
            if c is not None:
                d[s] = ("=", c)
            elif isinstance(v, int) and v in env.d:
                d[s] = env.d[v]
            elif env.nonzero(v):
                d[s] = ("!", frozenset([0]))
            v = d.get(("al", v), v)
            if isinstance(v, (int, str)) or \
               (isinstance(v, tuple) and v[0] == "r"):
                d[("hv", s)] = v
            env = Env(f, d)
        return [(st, env)]
    if op == "load":
        s = slot(f, i.ops[0])
        if s is not None:
            d = dict(env.d)
            if s in env.d:
                d[i.id] = env.d[s]
            d[("lv", i.id)] = s
            if f._alias:
                h = env.d.get(("hv", s))
                if h is not None and h != i.id:
                    d[("al", i.id)] = h
            env = Env(f, d)
        r = client.instr(f, i, st, env)
        if r is not None:
            st = r
        return [(st, env)]
    r = client.instr(f, i, st, env)
    if r is not None:
        st = r
    return [(st, env)]
