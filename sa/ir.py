"""In-memory model of the normalised program written by tool/irx."""
import json

from .build import Broken, REPO


def _tup(x):
    if isinstance(x, list):
        return tuple(_tup(y) for y in x)
    return x


class Instr:
    __slots__ = ("f", "id", "op", "ty", "ops", "d", "bb", "pos")

    def __init__(self, f, o, bb, pos):
        self.f = f
        self.id = o["i"]
        self.op = o["op"]
        self.ty = o["ty"]
        self.ops = tuple(_tup(x) for x in o.get("ops", ()))
        self.d = o
        self.bb = bb
        self.pos = pos

    @property
    def callee(self):
        """Name of the directly called function, or None."""
        c = self.d.get("callee")
        if isinstance(c, str) and c.startswith("@"):
            return c[1:]
        return None

    @property
    def cname(self):
        """callee with the suffix that linking adds to statics removed."""
        c = self.callee
        if c is None:
            return None
        if c.startswith("llvm."):
            return c
        if c.startswith(("__isoc23_", "__isoc99_")):
            return c[9:]
        return c.split(".")[0]

    @property
    def where(self):
        f = self.f
        file = self.d.get("file") or f.file or "?"
        line = self.d.get("l", 0)
        fn = self.d.get("fn")
        s = "%s:%d" % (relpath(file), line)
        if fn:
            return "%s (%s, inlined into %s)" % (s, fn, f.name)
        return "%s (%s)" % (s, f.name)

    def __repr__(self):
        return "%%%d=%s%r" % (self.id, self.op, self.ops)


def relpath(p):
    if p.startswith(REPO + "/"):
        return p[len(REPO) + 1:]
    return p


class Function:
    def __init__(self, prog, o):
        self.prog = prog
        self.name = o["name"]
        self.base = self.name.split(".")[0]
        self.decl = o.get("decl", False)
        self.internal = o["internal"]
        self.ret = o["ret"]
        self.args = [tuple(a) for a in o["args"]]
        self.file = o.get("file")
        self.line = o.get("line", 0)
        self.ditype = o.get("ditype")
        self.blocks = []
        self.ins = []
        self.n = o.get("n", 0)
        if self.decl:
            return
        self.ins = [None] * self.n
        for bi, b in enumerate(o["blocks"]):
            lst = []
            for pos, io in enumerate(b):
                i = Instr(self, io, bi, pos)
                self.ins[i.id] = i
                lst.append(i)
            self.blocks.append(lst)
        self.vars = {}
        for v in o.get("vars", ()):
            self.vars.setdefault(v[0], v[1])
        self.vardi = {v[0]: v[2] for v in o.get("vars", ()) if len(v) > 2}
        self.succs = []
        for b in self.blocks:
            t = b[-1]
            if t.op == "br":
                s = list(t.d["succ"])
            elif t.op == "switch":
                s = [c[1] for c in t.d["cases"]] + [t.d["default"]]
            else:
                s = []
            self.succs.append(s)
        self.preds = [[] for _ in self.blocks]
        for i, s in enumerate(self.succs):
            for x in s:
                if i not in self.preds[x]:
                    self.preds[x].append(i)
        self._dom = None
        self._users = None
        self._reach = None
        self._pt = {}

    # -- basic queries
    def instrs(self):
        return (i for b in self.blocks for i in b)

    def calls(self, *names):
        for i in self.instrs():
            if i.op == "call" and (not names or i.cname in names):
                yield i

    def get(self, v):
        return self.ins[v] if isinstance(v, int) else None

    @property
    def users(self):
        if self._users is None:
            u = {}
            for i in self.instrs():
                for o in self.operands(i):
                    if isinstance(o, int) or (isinstance(o, str)
                                              and o[0] == "a"):
                        u.setdefault(o, []).append(i)
            self._users = u
        return self._users

    def operands(self, i):
        for o in i.ops:
            yield o
        if i.op == "phi":
            for _, v in i.d["in"]:
                yield _tup(v)
        elif i.op == "getelementptr":
            for s in i.d["steps"]:
                if s[0] == "x":
                    yield _tup(s[2])
        elif i.op == "call":
            c = i.d["callee"]
            if not isinstance(c, str) or not c.startswith("@"):
                yield _tup(c)

    def phi_in(self, i):
        return [(b, _tup(v)) for b, v in i.d["in"]]

    # -- dominators (simple iterative)
    def _compute_dom(self):
        order = self.rpo()
        idx = {b: n for n, b in enumerate(order)}
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in self.preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self._dom = idom

    def rpo(self):
        if self._reach is not None:
            return self._reach
        seen = set()
        out = []
        stack = [(0, iter(self.succs[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs[s])))
                    break
            else:
                out.append(b)
                stack.pop()
        out.reverse()
        self._reach = out
        return out

    @property
    def idom(self):
        if self._dom is None:
            self._compute_dom()
        return self._dom

    def dominates_bb(self, a, b):
        d = self.idom
        if b not in d:
            return True     # unreachable
        while True:
            if a == b:
                return True
            if d[b] == b:
                return False
            b = d[b]

    def dominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.bb == j.bb:
            return i.pos < j.pos
        return self.dominates_bb(i.bb, j.bb)

    def reachable_from(self, bb, avoid=()):
        seen = set()
        st = [bb]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.succs[b])
        return seen

    # -- addresses
    def addr(self, v):
        """(root, const offset, ((scale, operand)...), steps) of a pointer."""
        steps = []
        while True:
            if isinstance(v, int):
                i = self.ins[v]
                if i.op == "getelementptr":
                    steps = [_tup(s) for s in i.d["steps"]] + steps
                    v = i.ops[0]
                    continue
                if i.op in ("bitcast", "addrspacecast", "freeze"):
                    v = i.ops[0]
                    continue
            elif isinstance(v, tuple) and v and v[0] == "gep":
                steps = list(v[2]) + steps
                v = v[1]
                continue
            break
        off = 0
        xs = []
        for s in steps:
            if s[0] == "o":
                off += s[1]
            elif s[0] == "f":
                off += s[3]
            else:
                xs.append((s[1], s[2]))
        return v, off, tuple(xs), steps

    def pointee(self, v, depth=0):
        """debug-info description of what pointer v points to, or None"""
        p = self.prog
        key = v
        if key in self._pt:
            return self._pt[key]
        self._pt[key] = None
        t = None
        n = self.argno(v)
        if n is not None:
            if self.ditype is not None:
                m = p.di[self.ditype].get("members", ())
                # the first member is the return type
                if len(m) - 1 == len(self.args) and n + 1 < len(m):
                    t = p.deref_di(m[n + 1])
        elif isinstance(v, int):
            i = self.ins[v]
            if i.op == "alloca":
                t = p.strip_di(self.vardi.get(v))
            elif i.op == "load":
                ft = self.member_type(i.ops[0])
                if ft is not None:
                    t = p.deref_di(ft)
            elif i.op == "call" and i.callee in p.funcs:
                d = p.funcs[i.callee].ditype
                if d is not None:
                    m = p.di[d].get("members", ())
                    if m:
                        t = p.deref_di(m[0])
            elif i.op == "phi" and depth < 4:
                for _, x in self.phi_in(i):
                    t = self.pointee(x, depth + 1)
                    if t is not None:
                        break
            elif i.op == "select":
                for x in i.ops[1:]:
                    t = self.pointee(x, depth + 1)
                    if t is not None:
                        break
            elif i.op == "getelementptr":
                ft = self.member_type(v)
                if ft is not None:
                    t = p.strip_di(ft)
        elif isinstance(v, str) and v.startswith("@"):
            g = p.globals.get(v[1:])
            if g is not None and "di" in g:
                t = p.strip_di(g["di"])
        self._pt[key] = t
        return t

    def member_type(self, v):
        """debug-info type id of the object pointer v designates"""
        p = self.prog
        root, off, xs, steps = self.addr(v)
        st = self.field_struct(v)
        if st is not None:
            t = p.structs.get(st[0])
            if t is None:
                return None
            return p.type_at(t, st[1] * 8)
        if not steps:
            t = self.pointee(root)
            if t is not None:
                if t["tag"] == "DW_TAG_structure_type" and t.get("members"):
                    return p.type_at(t["id"], 0)
                return t["id"]
        return None

    def field_struct(self, v):
        """(struct name, byte offset in it) for a member pointer"""
        root, off, xs, steps = self.addr(v)
        seg = []
        novar = True
        for s in steps:
            if s[0] == "x":
                seg = []
                novar = False
            else:
                seg.append(s)
        o = 0
        st = None
        pre = 0
        for s in seg:
            if s[0] == "f":
                if st is None:
                    st = s[1]
                    o = 0
                o += s[3]
            elif st is not None:
                o += s[1]
            else:
                pre += s[1]
        name = None
        if st is not None:
            name = st[1:]
            if name.startswith(("struct.", "union.")):
                name = name.split(".", 1)[1]
            parts = name.split(".")
            if len(parts) > 1 and parts[-1].isdigit():
                name = parts[0]
        if novar:
            t = self.pointee(root)
            if t is not None and t["name"] and t.get("members") and \
               t["tag"] == "DW_TAG_structure_type" and off * 8 < t["size"]:
                if st is None or t["name"] == name or name == "anon" or \
                   self.prog.contains_struct(t, pre * 8, name):
                    return (t["name"], off)
        if st is None:
            return None
        return (name, o)

    def field(self, v):
        """(struct, path) the pointer v designates a member of, or None."""
        st = self.field_struct(v)
        if st is None:
            return None
        path = self.prog.field_path(st[0], st[1])
        return (st[0], path if path is not None else "+%d" % st[1])

    def fieldname(self, v):
        x = self.field(v)
        return None if x is None else "%s.%s" % x

    def strip(self, v):
        """Look through value-preserving casts."""
        while isinstance(v, int):
            i = self.ins[v]
            if i.op in ("zext", "sext", "trunc", "bitcast", "freeze",
                        "ptrtoint", "inttoptr"):
                v = i.ops[0]
            else:
                break
        return v

    def argno(self, v):
        if isinstance(v, str) and v[0] == "a":
            return int(v[1:])
        return None


class Program:
    def __init__(self, path):
        self.funcs = {}
        self.globals = {}
        self.structsize = {}
        self.di = {}
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                k = o["k"]
                if k == "func":
                    fn = Function(self, o)
                    self.funcs[fn.name] = fn
                elif k == "global":
                    if "init" in o:
                        o["init"] = _tup(o["init"])
                    self.globals[o["name"]] = o
                elif k == "struct":
                    self.structsize[o["name"]] = o["size"]
                elif k == "di":
                    self.di[o["id"]] = o
        self._constants = {}
        self.structs = {}
        for o in self.di.values():
            if o["tag"] in ("DW_TAG_structure_type", "DW_TAG_union_type") \
               and o["name"] and o.get("members"):
                self.structs.setdefault(o["name"], o["id"])
        self.bybase = {}
        for fn in self.funcs.values():
            self.bybase.setdefault(fn.base, []).append(fn)
        self._fp = {}
        self._callers = None
        self._taken = None
        self.outer = None   # gives the program with what this one lacks

    def f(self, name):
        """The function called name; missing anchors are an analysis error."""
        fn = self.funcs.get(name)
        if fn is None or fn.decl:
            c = [x for x in self.bybase.get(name, ()) if not x.decl]
            if len(c) == 1:
                return c[0]
            raise Broken("anchor function %s not found in the source" % name)
        return fn

    def has(self, name):
        return any(not x.decl for x in self.bybase.get(name, ()))

    def defined(self):
        return [x for x in self.funcs.values() if not x.decl]

    # -- debug-info types
    def strip_di(self, t):
        while t is not None and t >= 0:
            o = self.di[t]
            if o["tag"] in ("DW_TAG_typedef", "DW_TAG_const_type",
                            "DW_TAG_volatile_type", "DW_TAG_member",
                            "DW_TAG_atomic_type"):
                t = o.get("base", -1)
            else:
                return o
        return None

    def deref_di(self, t):
        """the type a pointer type points to, stripped"""
        o = self.strip_di(t)
        if o is None or o["tag"] != "DW_TAG_pointer_type":
            return None
        return self.strip_di(o.get("base", -1))

    def type_at(self, t, bits):
        """type id of the innermost scalar/pointer member at a bit offset"""
        o = self.strip_di(t)
        while o is not None:
            if o["tag"] == "DW_TAG_array_type":
                b = self.strip_di(o.get("base"))
                if b is None or not b["size"]:
                    return None
                bits %= b["size"]
                o = b
                continue
            if o["tag"] == "DW_TAG_union_type":
                ms = [self.di[m] for m in o.get("members", ())]
                if not ms:
                    return None
                o = self.strip_di(ms[0].get("base"))
                continue
            if o["tag"] != "DW_TAG_structure_type":
                return o["id"]
            for m in o.get("members", ()):
                mm = self.di[m]
                if mm["tag"] == "DW_TAG_member" and \
                   mm["off"] <= bits < mm["off"] + max(mm["size"], 1):
                    bits -= mm["off"]
                    o = self.strip_di(mm.get("base"))
                    break
            else:
                return None
        return None

    def contains_struct(self, o, bits, name):
        """does type o have a (nested) struct called name at bit offset?"""
        while o is not None:
            if o["name"] == name and o["tag"] in ("DW_TAG_structure_type",
                                                  "DW_TAG_union_type"):
                return True
            if o["tag"] == "DW_TAG_array_type":
                b = self.strip_di(o.get("base"))
                if b is None or not b["size"]:
                    return False
                bits %= b["size"]
                o = b
                continue
            if o["tag"] == "DW_TAG_union_type":
                return any(self.contains_struct(
                    self.strip_di(self.di[m].get("base")), bits, name)
                    for m in o.get("members", ()))
            if o["tag"] != "DW_TAG_structure_type":
                return False
            for m in o.get("members", ()):
                mm = self.di[m]
                if mm["tag"] == "DW_TAG_member" and \
                   mm["off"] <= bits < mm["off"] + max(mm["size"], 1):
                    bits -= mm["off"]
                    o = self.strip_di(mm.get("base"))
                    break
            else:
                return False
        return False

    def field_path(self, name, off):
        key = (name, off)
        if key in self._fp:
            return self._fp[key]
        t = self.structs.get(name)
        r = None
        if t is None and "." in name:
            t = self.structs.get(name.split(".")[0])
        if t is not None:
            r = self._path(self.di[t], off * 8)
        self._fp[key] = r
        return r

    def holder(self, name, off, inner):
        """"outer.member" of the innermost struct directly containing the
        struct called inner at byte offset off of struct name"""
        t = self.structs.get(name)
        if t is None:
            return None
        o = self.di[t]
        bits = off * 8
        while o is not None:
            if o["tag"] == "DW_TAG_array_type":
                b = self.strip_di(o.get("base"))
                if b is None or not b["size"]:
                    return None
                bits %= b["size"]
                o = b
                continue
            if o["tag"] != "DW_TAG_structure_type":
                return None
            for m in o.get("members", ()):
                mm = self.di[m]
                if mm["tag"] == "DW_TAG_member" and \
                   mm["off"] <= bits < mm["off"] + max(mm["size"], 1):
                    bits -= mm["off"]
                    sub = self.strip_di(mm.get("base"))
                    if sub is not None and sub["name"] == inner:
                        return "%s.%s" % (o["name"], mm["name"])
                    o = sub
                    break
            else:
                return None
        return None

    def _path(self, o, bits):
        if o is None:
            return ""
        tag = o["tag"]
        if tag == "DW_TAG_array_type":
            b = self.strip_di(o.get("base"))
            if b is None or not b["size"]:
                return ""
            return self._path(b, bits % b["size"])
        if tag == "DW_TAG_union_type":
            names = []
            for m in o.get("members", ()):
                mm = self.di[m]
                sub = self._path(self.strip_di(mm.get("base")), bits)
                names.append(mm["name"] + ("." + sub if sub else ""))
            return "{" + "|".join(names) + "}"
        if tag != "DW_TAG_structure_type":
            return ""
        best = None
        for m in o.get("members", ()):
            mm = self.di[m]
            if mm["tag"] != "DW_TAG_member":
                continue
            if mm["off"] <= bits < mm["off"] + max(mm["size"], 1):
                best = mm
                break
        if best is None:
            return None
        sub = self._path(self.strip_di(best.get("base")), bits - best["off"])
        if not best["name"]:
            return sub
        return best["name"] + ("." + sub if sub else "")

    def struct_members(self, name):
        t = self.structs.get(name)
        if t is None:
            raise Broken("struct %s not found" % name)
        return [self.di[m] for m in self.di[t]["members"]
                if self.di[m]["tag"] == "DW_TAG_member"]

    def enum(self, name=None, member=None):
        for o in self.di.values():
            if o["tag"] != "DW_TAG_enumeration_type":
                continue
            if name is not None and o["name"] != name:
                continue
            d = dict((a, b) for a, b in
                     (x for x in o.get("members", ())
                      if isinstance(x, list)))
            if member is not None and member not in d:
                continue
            return d
        return None

    def enumval(self, member):
        d = self.enum(member=member)
        if d is None:
            raise Broken("enumerator %s not found" % member)
        return d[member]

    # -- call graph
    def address_taken(self):
        """functions whose address is stored somewhere -> list of places"""
        if self._taken is not None:
            return self._taken
        taken = {}

        def walk(c, where):
            if isinstance(c, str) and c.startswith("@"):
                if c[1:] in self.funcs:
                    taken.setdefault(c[1:], []).append(where)
            elif isinstance(c, tuple):
                for x in c:
                    walk(x, where)
        for g in self.globals.values():
            if "init" in g:
                walk(g["init"], ("global", g["name"]))
        for fn in self.defined():
            for i in fn.instrs():
                for o in fn.operands(i):
                    walk(o, ("instr", i))
        self._taken = taken
        return taken

    def constant(self, name):
        """{offset: ("b", byte) or ("p", operand, byte of it)} of a constant"""
        if name in self._constants:
            return self._constants[name]
        out = {}

        def put(x, at, size):
            if isinstance(x, str) or x[0] == "gep":
                for i in range(8):
                    out[at + i] = ("p", x, i)
            elif x[0] == "c":
                v = int(x[1]) & ((1 << size * 8) - 1)
                for i in range(max(1, (x[2] + 7) // 8)):
                    out[at + i] = ("b", (v >> (8 * i)) & 255)
            elif x[0] in ("null", "zero"):
                for i in range(size if x[0] == "zero" else 8):
                    out[at + i] = ("b", 0)
            elif x[0] == "str":
                try:
                    bs = x[1].encode("latin-1")
                except UnicodeError:
                    return
                if len(bs) == size:
                    for i, c in enumerate(bs):
                        out[at + i] = ("b", c)
            elif x[0] == "agg" and x[1]:
                if len(x) > 3:
                    ends = list(x[3][1:]) + [size]
                    for y, o, e in zip(x[1], x[3], ends):
                        put(y, at + o, e - o)
                else:
                    n = size // len(x[1])
                    for i, y in enumerate(x[1]):
                        put(y, at + i * n, n)
        g = self.globals.get(name)
        if g and g["const"] and "init" in g:
            put(g["init"], 0, g["size"])
        self._constants[name] = out
        return out

    def callers(self, name):
        if self._callers is None:
            c = {}
            for fn in self.defined():
                for i in fn.calls():
                    if i.callee:
                        c.setdefault(i.callee, []).append(i)
            self._callers = c
        return self._callers.get(name, [])

    def ret_fact(self, name):
        """what is known about every value function name returns:
        ("=", c), ("!", {0}) or None"""
        c = self.__dict__.setdefault("_rf", {})
        if name in c:
            return c[name]
        c[name] = None
        f = self.funcs.get(name)
        if f is None or f.decl or f.ret == "void":
            return None
        vals = []
        for i in f.instrs():
            if i.op == "ret" and i.ops:
                if not self._leaves(f, i.ops[0], vals, set()):
                    return None
        if not vals:
            return None
        if all(v == vals[0] for v in vals):
            r = vals[0]
        elif all(v[0] == "!" or v[1] != 0 for v in vals):
            r = ("!", frozenset([0]))
        else:
            r = None
        c[name] = r
        return r

    def _leaves(self, f, v, out, seen):
        c = const(v)
        if c is not None:
            out.append(("=", c))
            return True
        if not isinstance(v, int):
            return False
        if v in seen:
            return True
        seen.add(v)
        i = f.ins[v]
        if i.op == "phi":
            return all(self._leaves(f, x, out, seen) for _, x in f.phi_in(i))
        if i.op == "select":
            return all(self._leaves(f, x, out, seen) for x in i.ops[1:])
        if i.op == "call" and i.callee:
            r = self.ret_fact(i.callee)
            if r is not None:
                out.append(r)
                return True
        return False

    def global_init(self, name):
        g = self.globals.get(name)
        if g is None:
            raise Broken("global %s not found" % name)
        return g.get("init")


def const(v):
    """integer value of an operand, or None"""
    if isinstance(v, tuple) and v:
        if v[0] == "c":
            return int(v[1])
        if v[0] == "null":
            return 0
        if v[0] == "zero":
            return 0
    return None


def uconst(v):
    c = const(v)
    if c is None:
        return None
    bits = v[2] if v[0] == "c" else 64
    return c & ((1 << bits) - 1)
