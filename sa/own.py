"""Ownership typestate: what is acquired is released exactly once, or handed
over, on every path."""
from . import flow
from .ir import const

NZ = ("!", frozenset([0]))
Z = ("=", 0)


def resolve(f, v, env):
    """follow copies through phis and local variables on this path"""
    for _ in range(12):
        if isinstance(v, tuple):
            break
        a = env.d.get(("al", v))
        if a is not None:
            v = a
            continue
        if not isinstance(v, int):
            break
        i = f.ins[v]
        if i.op in ("bitcast", "freeze"):
            v = i.ops[0]
            continue
        if i.op == "getelementptr":
            root, off, xs, _ = f.addr(v)
            if off == 0 and not xs:
                v = root
                continue
        break
    return v


class Spec:
    """What calls do to resources.

    acq:  name -> ("ret", kind) | ("out", argno, kind[, cond])
          cond is a function (f, i, env) -> list of (owned?, fact, updates)
    rel:  name -> {kind: argno}
    take: name -> (argno, kinds, when) when: "ok" (returns 0) or "always"
    """

    def __init__(self, acq, rel, take=None, kinds=None, borrow_ok=True):
        self.acq = acq
        self.rel = rel
        self.take = take or {}


class Own(flow.Client):
    """state: frozenset of (resource, kind, status)"""
    alias = True
    stable = None

    def __init__(self, spec, report):
        self.spec = spec
        self.report = report    # report(rule, instr, text)
        self.nacq = set()
        self.nrel = set()

    def init(self, f):
        return frozenset()

    def start(self, f):
        d = {}
        for i in f.instrs():
            if i.op == "alloca" and i.d.get("size", 0) <= 64 and \
               i.d.get("size", 0) % 8 == 0 and i.bb == 0:
                for o in range(0, i.d["size"], 8):
                    d[("m", i.id, o)] = ("undef",)
        return d

    def get(self, st, r):
        for e in st:
            if e[0] == r:
                return e
        return None

    def set(self, st, r, kind, status):
        st = frozenset(e for e in st if e[0] != r)
        if status is not None:
            st = st | {(r, kind, status)}
        return st

    def acquire(self, f, i, st, r, kind):
        e = self.get(st, r)
        if e is not None and e[2] == "owned":
            self.report("leak", i, "the %s acquired here by the previous "
                        "iteration is lost" % kind)
        self.nacq.add(i.id)
        return self.set(st, r, kind, "owned")

    def call(self, f, i, st, env):
        n = i.cname
        sp = self.spec
        out = None
        if n in sp.rel:
            k, arg = sp.rel[n]
            out = [(self.release(f, i, st, env, i.ops[arg], k), None)]
        elif n in sp.acq:
            a = sp.acq[n]
            if a[0] == "ret":
                r = i.id
                out = [(self.acquire(f, i, st, r, a[1]), NZ),
                       (self.set(st, r, None, None), Z)]
            else:
                arg, kind = a[1], a[2]
                s = flow.slot(f, i.ops[arg])
                r = ("r", i.id, arg)
                if len(a) > 3:
                    return a[3](self, f, i, st, env, s, r, kind)
                keep = {}
                if s is not None:
                    for k in (s, ("hv", s)):
                        if k in env.d:
                            keep[k] = env.d[k]
                    got = {s: NZ, ("hv", s): r}
                    out = [(self.acquire(f, i, st, r, kind), Z, got),
                           (self.set(st, r, None, None), NZ, keep)]
                else:
                    # handed straight to somebody else's variable
                    out = [(st, Z), (st, NZ)]
        elif n in sp.take:
            arg, kinds, when = sp.take[n]
            r = resolve(f, i.ops[arg], env)
            e = self.get(st, r)
            self.use(f, i, st, env, skip=())
            if e is not None and e[1] in kinds:
                gone = self.set(st, r, e[1], None)
                if when == "always":
                    out = [(gone, None)]
                else:
                    out = [(gone, Z), (st, NZ)]
            else:
                out = [(st, None)] if when == "always" else \
                    [(st, Z), (st, NZ)]
            return out
        if n not in sp.rel:
            self.use(f, i, st, env)
        return out

    def use(self, f, i, st, env, skip=()):
        for k, o in enumerate(i.ops):
            if k in skip:
                continue
            e = self.get(st, resolve(f, o, env))
            if e is not None and e[2] == "released":
                self.report("use-after-release", i,
                            "passes a released %s to %s"
                            % (e[1], i.callee or "a function pointer"))

    def release(self, f, i, st, env, v, kind):
        self.nrel.add(i.id)
        if env.const(v) == 0:
            return st
        x = env.d.get(v)
        if x == ("undef",) or (isinstance(v, tuple) and v[0] == "undef"):
            self.report("uninitialised", i, "releases a %s variable that was "
                        "never set on this path" % kind)
            return st
        r = resolve(f, v, env)
        e = self.get(st, r)
        if e is None:
            return st
        if e[2] == "released":
            self.report("double-release", i,
                        "releases the same %s twice" % e[1])
            return st
        if e[1] != kind:
            self.report("wrong-release", i, "releases a %s with the function "
                        "for a %s" % (e[1], kind))
        return self.set(st, r, e[1], "released")

    def instr(self, f, i, st, env):
        if i.op == "store":
            v = resolve(f, i.ops[0], env)
            e = self.get(st, v)
            if e is not None and e[2] == "owned":
                if flow.slot(f, i.ops[1]) is None or \
                   flow.slot(f, i.ops[1])[0] != "m":
                    st = self.set(st, v, e[1], None)     # escapes
        if i.op in ("load", "store"):
            p = i.ops[1] if i.op == "store" else i.ops[0]
            root = resolve(f, f.addr(p)[0], env)
            e = self.get(st, root)
            if e is not None and e[2] == "released":
                self.report("use-after-release", i,
                            "uses a %s after releasing it" % e[1])
        if i.op == "insertvalue":
            v = resolve(f, i.ops[1], env)
            e = self.get(st, v)
            if e is not None and e[2] == "owned":
                st = self.set(st, v, e[1], None)
        return st

    def ret(self, f, i, st, env):
        rv = resolve(f, i.ops[0], env) if i.ops else None
        for r, kind, status in st:
            if status != "owned":
                continue
            if rv is not None and r == rv:
                continue
            if isinstance(r, int):
                # known to be null on this path
                if env.const(r) == 0:
                    continue
            src = f.ins[r[1]] if isinstance(r, tuple) else f.ins[r]
            self.report("leak", src, "the %s acquired here by %s is not "
                        "released on a path to %s"
                        % (kind, src.callee or "?", i.where))
