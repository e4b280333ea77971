"""Value graphs: what a loop-free function computes, in a canonical form.

Every value of the (already optimised) function becomes a node of a hash-consed
graph; a join becomes a choice between the values of its inputs, ordered the
way a decision diagram is.  Two functions with the same graph compute the same
thing.  Integers are kept as concatenations of bit slices, so that it makes no
difference in which units a value is moved, masked or extended.

A loop is cut at its back edge: going round again is an exit of its own.
"""
import itertools
import math
import struct

from . import mods

LIMIT = 4096      # nodes a single choice may be distributed over


# calls that return memory nothing else designates
MANY = 64

FRESH = ("malloc", "calloc", "xzalloc", "mem_alloc", "mem_zalloc",
         "mem_calloc")
# calls that only give memory back, and the argument that designates it
RELEASE = {"free": 0, "mem_free": 1}
# calls that concern nothing but what an argument designates
ABOUT = {"toywasm_mutex_init": 0, "toywasm_mutex_destroy": 0,
         "toywasm_cv_init": 0, "toywasm_cv_destroy": 0,
         "pthread_mutex_init": 0, "pthread_mutex_destroy": 0,
         "pthread_cond_init": 0, "pthread_cond_destroy": 0}


class Stuck(Exception):
    """The function has something this representation does not cover."""


# copies of stack cells: where destination, source and count are
CELLS = {"cells_copy": (0, 1, 2), "val_to_cells": (1, 0, 2),
         "val_from_cells": (0, 1, 2)}
# cells of a value of a type (sa/ref/cell.c compares valtype_cellsize)
CELLSIZE = {0x7f: 1, 0x7d: 1, 0x7e: 2, 0x7c: 2, 0x7b: 4, 0x70: 2, 0x6f: 2}
# functions of immutable types
PURE = {"valtype_cellsize", "resulttype_cellsize", "find_type_annotation",
        "module_tabletype", "module_globaltype", "module_tagtype",
        "module_functype", "module_tagtype_functype", "module_memtype",
        "localtype_cellsize", "funcinst_functype"}


def width_of(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    if ty == "float":
        return 32
    if ty == "double":
        return 64
    if ty == "ptr":
        return 64
    raise Stuck("type %s" % ty)


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def fnext(bits, w, up):
    """the neighbouring floating point number (None beyond infinity)"""
    m = 1 << (w - 1)
    inf = 0x7f800000 if w == 32 else 0x7ff0000000000000
    mag = bits & (m - 1)
    neg = bits & m
    if mag > inf:
        return None
    if mag == 0:
        return 1 if up else m | 1
    if bool(neg) != up:      # away from zero
        if mag == inf:
            return None
        return neg | (mag + 1)
    mag -= 1
    if mag == 0:
        return 0
    return neg | mag


def fval(bits, w):
    if w == 32:
        return struct.unpack("<f", struct.pack("<I", bits))[0]
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


class Graph:
    def __init__(self):
        self.nodes = []
        self.ids = {}
        self.w = []
        self.memo = {}
        self.assume = {}      # atoms that are known
        self.globals = {}     # node: name
        self.counters = set() # count from zero in steps of one

    # -- nodes
    def mk(self, w, *key):
        k = (w,) + key
        n = self.ids.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(key)
            self.w.append(w)
            self.ids[k] = n
        return n

    def const(self, v, w):
        return self.mk(w, "c", v & ((1 << w) - 1))

    def isc(self, n):
        k = self.nodes[n]
        return k[1] if k[0] == "c" else None

    # -- choices.  ("ite", atom, hi, lo); atoms in increasing order
    def top(self, n):
        k = self.nodes[n]
        return k[1] if k[0] == "ite" else None

    def cof(self, n, atom, side):
        k = self.nodes[n]
        if k[0] == "ite" and k[1] == atom:
            return k[2] if side else k[3]
        return n

    def raw_ite(self, atom, hi, lo):
        if hi == lo:
            return hi
        if atom in self.assume:
            return hi if self.assume[atom] else lo
        k = self.nodes[atom]
        if k[0] == "eq" and self.isc(k[2]) is not None:
            c = self.isc(k[2])
            hi = self.pin(hi, k[1], c)
            if hi == lo or hi == self.pin(lo, k[1], c):
                return lo
        return self.mk(self.w[hi], "ite", atom, hi, lo)

    def pin(self, n, x, c):
        """n where x is the number c"""
        k = self.nodes[n]
        while k[0] == "ite":
            a = self.nodes[k[1]]
            if a[0] == "bit" and a[1] == x:
                n = k[2] if (c >> a[2]) & 1 else k[3]
            elif a[0] == "eq" and a[1] == x and self.isc(a[2]) is not None:
                n = k[2] if self.isc(a[2]) == c else k[3]
            else:
                break
            k = self.nodes[n]
        return n

    def atom(self, n):
        """the i1 value of a one-bit node that is not itself a choice"""
        k = self.nodes[n]
        if k[0] in ("c", "ite"):
            return n
        return self.raw_ite(n, self.const(1, 1), self.const(0, 1))

    def ite(self, c, a, b):
        if a == b:
            return a
        v = self.isc(c)
        if v is not None:
            return a if v else b
        key = ("ITE", c, a, b)
        r = self.memo.get(key)
        if r is not None:
            return r
        if len(self.memo) > 4000000:
            raise Stuck("too large")
        t = min(x for x in (self.top(c), self.top(a), self.top(b))
                if x is not None)
        r = self.raw_ite(t,
                         self.ite(self.cof(c, t, 1), self.cof(a, t, 1),
                                  self.cof(b, t, 1)),
                         self.ite(self.cof(c, t, 0), self.cof(a, t, 0),
                                  self.cof(b, t, 0)))
        self.memo[key] = r
        return r

    def land(self, a, b):
        return self.ite(a, b, self.const(0, 1))

    def lor(self, a, b):
        return self.ite(a, self.const(1, 1), b)

    def lnot(self, a):
        return self.ite(a, self.const(0, 1), self.const(1, 1))

    def care(self, n, r):
        """n, simplified to what it is where r holds"""
        if self.nodes[n][0] != "ite" or self.isc(r) is not None:
            return n
        key = ("CARE", n, r)
        x = self.memo.get(key)
        if x is not None:
            return x
        tn, tr = self.top(n), self.top(r)
        if tr is not None and tr < tn:
            x = self.care(n, self.lor(self.cof(r, tr, 1),
                                      self.cof(r, tr, 0)))
        else:
            r1, r0 = self.cof(r, tn, 1), self.cof(r, tn, 0)
            n1, n0 = self.cof(n, tn, 1), self.cof(n, tn, 0)
            if self.isc(r1) == 0:
                x = self.care(n0, r0)
            elif self.isc(r0) == 0:
                x = self.care(n1, r1)
            else:
                x = self.raw_or_ite(tn, self.care(n1, r1), self.care(n0, r0))
        self.memo[key] = x
        return x

    def atoms_of(self, n, acc=None, cap=64):
        acc = set() if acc is None else acc
        seen = set()
        st = [n]
        while st and len(acc) <= cap:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            k = self.nodes[x]
            if k[0] == "ite":
                acc.add(k[1])
                st += [k[2], k[3]]
        return acc

    def leaves(self, n):
        out = set()
        seen = set()
        st = [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            k = self.nodes[x]
            if k[0] == "ite":
                st += [k[2], k[3]]
            else:
                out.add(x)
        return out

    def lift(self, args, fn, cap=6):
        """fn over the leaves of the choices among args (few atoms only)"""
        at = set()
        for a in args:
            if self.nodes[a][0] == "ite":
                self.atoms_of(a, at, cap)
                if len(at) > cap:
                    return fn(*args)
        if not at:
            return fn(*args)

        memo = {}

        def rec(args):
            if args in memo:
                return memo[args]
            ts = [self.top(a) for a in args]
            ts = [t for t in ts if t is not None]
            if not ts:
                r = fn(*args)
            else:
                t = min(ts)
                r = self.raw_or_ite(
                    t, rec(tuple(self.cof(a, t, 1) for a in args)),
                    rec(tuple(self.cof(a, t, 0) for a in args)))
            memo[args] = r
            return r
        return rec(tuple(args))

    def choose(self, fn, *args):
        """fn of every combination of the choices among the arguments"""
        memo = {}

        def rec(args):
            if args in memo:
                return memo[args]
            if len(memo) > 20000:
                raise Stuck("too many choices")
            t = [self.top(a) for a in args if isinstance(a, int)]
            t = [x for x in t if x is not None]
            if not t:
                r = fn(*args)
            else:
                t = min(t)
                r = self.raw_ite(
                    t, rec(tuple(self.cof(a, t, True) for a in args)),
                    rec(tuple(self.cof(a, t, False) for a in args)))
            memo[args] = r
            return r
        return rec(tuple(args))

    def raw_or_ite(self, t, hi, lo):
        if hi == lo:
            return hi
        a = self.top(hi)
        b = self.top(lo)
        if (a is None or a > t) and (b is None or b > t):
            return self.raw_ite(t, hi, lo)
        return self.ite(self.atom(t), hi, lo)

    # -- bit slices
    def pieces(self, n):
        k = self.nodes[n]
        if k[0] == "cat":
            return list(k[1])
        return [(n, 0, self.w[n])]

    def slice(self, n, lo, ln):
        if lo == 0 and ln == self.w[n]:
            return n
        key = ("SL", n, lo, ln)
        r = self.memo.get(key)
        if r is None:
            r = self._slice(n, lo, ln)
            self.memo[key] = r
        return r

    def _slice(self, n, lo, ln):
        k = self.nodes[n]
        if k[0] == "c":
            return self.const(k[1] >> lo, ln)
        if k[0] == "ite":
            return self.raw_ite2(k[1], self.slice(k[2], lo, ln),
                                 self.slice(k[3], lo, ln))
        if k[0] == "cat":
            out = []
            pos = 0
            for (m, l, c) in k[1]:
                a = max(lo, pos)
                b = min(lo + ln, pos + c)
                if a < b:
                    out.append((m, l + a - pos, b - a))
                pos += c
            return self.cat(out)
        if k[0] in ("and", "or", "xor"):
            return self.bitwise(k[0], self.slice(k[1], lo, ln),
                                self.slice(k[2], lo, ln))
        if k[0] in ("add", "mul", "sub") and lo + ln < self.w[n]:
            m = self.arith(k[0], self.slice(k[1], 0, lo + ln),
                           self.slice(k[2], 0, lo + ln))
            return self.slice(m, lo, ln)
        if ln == 1 and lo == self.w[n] - 1 and k[0] == "sub":
            # the sign of a difference that cannot wrap
            x, y = self.narrow(k[1], lo), self.narrow(k[2], lo)
            if x is not None and y is not None and x[1] == y[1]:
                return self.icmp("slt" if x[1] else "ult", x[0], y[0])
        if ln == 1:
            return self.atom(self.mk(1, "bit", n, lo))
        return self.mk(ln, "cat", ((n, lo, ln),))

    def raw_ite2(self, t, hi, lo):
        if hi == lo:
            return hi
        return self.raw_or_ite(t, hi, lo)

    def cat(self, ps):
        """concatenation, least significant first"""
        out = []

        def push(p):
            m, l, c = p
            k = self.nodes[m]
            if k[0] == "c":
                v = (k[1] >> l) & ((1 << c) - 1)
                if out and self.nodes[out[-1][0]][0] == "c":
                    pm, pl, pc = out[-1]
                    pv = self.nodes[pm][1]
                    out[-1] = (self.const(pv | (v << pc), pc + c), 0, pc + c)
                else:
                    out.append((self.const(v, c), 0, c))
                return
            if k[0] == "bit":
                push((k[1], k[2], 1))
                return
            if k[0] == "ite" and c == 1 and self.w[m] == 1 and \
                    self.isc(k[2]) == 1 and self.isc(k[3]) == 0 and \
                    self.nodes[k[1]][0] == "bit":
                b = self.nodes[k[1]]
                push((b[1], b[2], 1))
                return
            if k[0] == "cat" or (k[0] != "ite" and (l, c) != (0, self.w[m])
                                 and k[0] in ("and", "or", "xor")) or \
               (k[0] == "ite" and (l, c) != (0, self.w[m])):
                s = self.slice(m, l, c)
                ks = self.nodes[s]
                if ks[0] == "cat":
                    for q in ks[1]:
                        if q[0] == s:
                            raise Stuck("slice")
                        push2(q)
                else:
                    push2((s, 0, c))
                return
            push2(p)

        def push2(p):
            m, l, c = p
            k = self.nodes[m]
            if k[0] == "c":
                push(p)
                return
            if k[0] == "bit" or (
                    k[0] == "ite" and c == 1 and self.w[m] == 1 and
                    self.isc(k[2]) == 1 and self.isc(k[3]) == 0 and
                    self.nodes[k[1]][0] == "bit"):
                push(p)
                return
            if out:
                pm, pl, pc = out[-1]
                if pm == m and pl + pc == l:
                    out[-1] = (m, pl, pc + c)
                    return
                if l > 0 and k[0] in ("add", "sub", "mul") and \
                        self.w[pm] == l == pl + pc and \
                        self.slice(m, 0, l) == pm:
                    out[-1] = (m, pl, pc + c)
                    return
            out.append((m, l, c))
        for p in ps:
            push(p)
        w = sum(p[2] for p in out)
        if len(out) == 1:
            m, l, c = out[0]
            if l == 0 and c == self.w[m]:
                return m
            if self.nodes[m][0] in ("add", "sub", "mul") and \
                    l + c < self.w[m]:
                return self.slice(m, l, c)
            k = self.nodes[m]
            if k[0] == "ite" or k[0] in ("add", "sub", "mul") and l == 0 or \
               c == 1:
                return self.slice(m, l, c)
        # distribute over a choice when it is a small one
        at = set()
        for m, l, c in out:
            if self.nodes[m][0] == "ite":
                self.atoms_of(m, at, 3)
        if at and len(at) <= 3:
            t = min(at)
            return self.raw_ite2(
                t,
                self.cat([(self.cof(m, t, 1), l, c) for m, l, c in out]),
                self.cat([(self.cof(m, t, 0), l, c) for m, l, c in out]))
        return self.mk(w, "cat", tuple(out))

    def zext(self, n, w):
        d = w - self.w[n]
        if d == 0:
            return n
        return self.cat([(n, 0, self.w[n]), (self.const(0, d), 0, d)])

    def sext(self, n, w):
        x = self.w[n]
        if self.nodes[n][0] == "ite" and len(self.atoms_of(n)) <= 3:
            return self.lift([n], lambda a: self.sext1(a, w))
        return self.sext1(n, w)

    def sext1(self, n, w):
        x = self.w[n]
        b = self.slice(n, x - 1, 1)
        return self.cat([(n, 0, x)] + [(b, 0, 1)] * (w - x))

    def cut(self, n):
        """piece list with constants split into runs of equal bits"""
        out = []
        for m, l, c in self.pieces(n):
            k = self.nodes[m]
            if k[0] != "c":
                out.append((m, l, c))
                continue
            v = k[1] >> l
            i = 0
            while i < c:
                b = (v >> i) & 1
                j = i
                while j < c and ((v >> j) & 1) == b:
                    j += 1
                out.append((self.const(-b, j - i), 0, j - i))
                i = j
        return out

    def bitwise(self, op, a, b):
        w = self.w[a]
        if w == 1:
            if op == "and":
                return self.land(a, b)
            if op == "or":
                return self.lor(a, b)
            return self.ite(a, self.lnot(b), b)
        pa = self.cut(a)
        pb = self.cut(b)
        if len(pa) == 1 and len(pb) == 1:
            return self.bit1(op, a, b)
        out = []
        ia = ib = 0
        oa = ob = 0
        while ia < len(pa):
            m, l, c = pa[ia]
            x, y, z = pb[ib]
            n = min(c - oa, z - ob)
            r = self.bit1(op, self.slice(m, l + oa, n),
                          self.slice(x, y + ob, n))
            out.append((r, 0, n))
            oa += n
            ob += n
            if oa == c:
                ia += 1
                oa = 0
            if ob == z:
                ib += 1
                ob = 0
        return self.cat(out)

    def bit1(self, op, a, b):
        w = self.w[a]
        if w == 1:
            return self.bitwise(op, a, b)
        if self.nodes[a][0] == "ite" or self.nodes[b][0] == "ite":
            return self.lift([a, b], lambda p, q: self.bit2(op, p, q))
        return self.bit2(op, a, b)

    def bit2(self, op, a, b):
        w = self.w[a]
        ones = (1 << w) - 1
        ca, cb = self.isc(a), self.isc(b)
        if ca is not None and cb is not None:
            v = {"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op]
            return self.const(v, w)
        if cb is None and ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None and cb not in (0, ones):
            return self.bitwise(op, a, b)
        if op == "and":
            if cb == 0:
                return b
            if cb == ones or a == b:
                return a
        elif op == "or":
            if cb == 0 or a == b:
                return a
            if cb == ones:
                return b
        else:
            if cb == 0:
                return a
            if a == b:
                return self.const(0, w)
        if len(self.pieces(a)) > 1 or len(self.pieces(b)) > 1:
            return self.bitwise(op, a, b)
        a, b = sorted((a, b))
        return self.mk(w, op, a, b)

    def narrow(self, n, w):
        """(m, is signed) when n is the extension of the w-bit m"""
        k = self.nodes[n]
        x = self.w[n]
        if x <= w:
            return None
        if k[0] == "c":
            if k[1] < (1 << w):
                return self.const(k[1], w), False
            return None
        if k[0] != "cat":
            return None
        lo, hi = self.rng(n)
        if lo >= 0 and hi < (1 << w):
            return self.slice(n, 0, w), False
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return self.slice(n, 0, w), True
        return None

    def rng(self, n):
        """bounds of the value, as a signed number if it can be one"""
        r = self.memo.get(("RNG", n))
        if r is None:
            r = self._rng(n)
            self.memo[("RNG", n)] = r
        return r

    def _rng(self, n):
        k = self.nodes[n]
        w = self.w[n]
        if k[0] == "c":
            v = signed(k[1], w)
            return v, v
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if k[0] == "ite":
            a, b = self.rng(k[2]), self.rng(k[3])
            return min(a[0], b[0]), max(a[1], b[1])
        if k[0] == "cat":
            ps = list(k[1])
            m, l, c = ps[-1]
            if self.nodes[m][0] == "c" and not (
                    (self.nodes[m][1] >> (l + c - 1)) & 1):
                v = self.nodes[m][1] >> l
                return v << (w - c), ((v + 1) << (w - c)) - 1
            if self.nodes[m][0] == "c":
                v = signed(self.nodes[m][1] >> l, c)
                return v << (w - c), ((v + 1) << (w - c)) - 1
            # copies of the sign bit
            i = len(ps) - 1
            while i > 0 and ps[i][2] == 1 and ps[i] == ps[-1] and \
                    (ps[i - 1] == ps[-1] or
                     ps[i - 1][0] == m and
                     ps[i - 1][1] + ps[i - 1][2] == l + 1):
                i -= 1
            x = sum(p[2] for p in ps[:i + 1])
            if x < w:
                return -(1 << (x - 1)), (1 << (x - 1)) - 1
            return full
        if k[0] in ("ctpop", "ctlz", "cttz"):
            return 0, self.w[k[1]]
        return full

    def arith(self, op, a, b):
        if self.nodes[a][0] == "ite" or self.nodes[b][0] == "ite":
            return self.lift([a, b], lambda p, q: self.arith1(op, p, q), 3)
        return self.arith1(op, a, b)

    def arith1(self, op, a, b):
        w = self.w[a]
        ca, cb = self.isc(a), self.isc(b)
        if ca is not None and cb is not None:
            v = {"add": ca + cb, "sub": ca - cb, "mul": ca * cb}[op]
            return self.const(v, w)
        if op == "add" and cb is not None and cb + 1 == 1 << w and w > 32:
            # one less than what is left to count
            ps = self.pieces(a)
            n = w - ps[-1][2]
            if len(ps) == 2 and self.isc(ps[-1][0]) == 0 and \
                    self.nodes[ps[0][0]][0] == "sub" and \
                    self.counters & set(self.nodes[ps[0][0]][1:]):
                x = self.slice(a, 0, n)
                return self.ite(
                    self.icmp("eq", x, self.const(0, n)), b,
                    self.zext(self.arith("add", x, self.const(-1, n)), w))
        # a result that needs fewer bits is computed in fewer bits
        (al, ah), (bl, bh) = self.rng(a), self.rng(b)
        if w > 2 and (ah - al) >> (w - 1) == 0 and (bh - bl) >> (w - 1) == 0:
            if op == "add":
                lo, hi = al + bl, ah + bh
            elif op == "sub":
                lo, hi = al - bh, ah - bl
            else:
                q = (al * bl, al * bh, ah * bl, ah * bh)
                lo, hi = min(q), max(q)
            if lo >= 0:
                x = max(hi.bit_length(), 1)
                if x < w:
                    return self.zext(self.arith(
                        op, self.slice(a, 0, x), self.slice(b, 0, x)), w)
            else:
                x = max((-lo - 1).bit_length(), hi.bit_length()) + 1
                if x < w:
                    return self.sext(self.arith(
                        op, self.slice(a, 0, x), self.slice(b, 0, x)), w)
        if op != "mul" and (self.sums(a) or self.sums(b)):
            t = dict(self.linear(a))
            for x, c in self.linear(b).items():
                t[x] = t.get(x, 0) + (c if op == "add" else -c)
            return self.unlinear(t, w)
        if op == "sub":
            if cb is not None:
                return self.arith1("add", a, self.const(-cb, w))
            if a == b:
                return self.const(0, w)
            return self.mk(w, "sub", a, b)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if op == "add" and cb == 0 or op == "mul" and cb == 1:
            return a
        if op == "mul" and cb == 0:
            return b
        if op == "mul" and cb is not None and cb & (cb - 1) == 0:
            return self.shift("shl", a, self.const(cb.bit_length() - 1, w))
        if op == "add" and cb is not None:
            k = self.nodes[a]
            if k[0] == "add" and self.isc(k[2]) is not None:
                return self.arith1("add", k[1],
                                   self.const(cb + self.isc(k[2]), w))
            return self.mk(w, "add", a, b)
        if cb is None:
            a, b = sorted((a, b))
        return self.mk(w, op, a, b)

    def inverted(self, a):
        """x of the bitwise complement of x"""
        k = self.nodes[a]
        if k[0] == "cat" and len(k[1]) == 1 and k[1][0][1] == 0 and \
                self.w[k[1][0][0]] == self.w[a]:
            k = self.nodes[k[1][0][0]]
        if k[0] == "xor":
            for x, y in (k[1:], k[:0:-1]):
                if self.isc(x) == (1 << self.w[a]) - 1:
                    return y
        return None

    def sums(self, a):
        k = self.nodes[a]
        return k[0] in ("add", "sub") or self.inverted(a) is not None or \
            k[0] == "mul" and (self.isc(k[2]) or 0) >> (self.w[a] - 1) or \
            self.widened(a) is not None

    def widened(self, a):
        """(add or sub, x, y) of what was computed in fewer bits"""
        k = self.nodes[a]
        if k[0] != "cat":
            return None
        m, l, c = k[1][0]
        km = self.nodes[m]
        if l or km[0] not in ("add", "sub") or c != self.w[m]:
            return None
        rest = k[1][1:]
        w = self.w[a]
        if len(rest) == 1 and self.isc(rest[0][0]) == 0:
            neg = False
        elif all(p == (m, c - 1, 1) for p in rest):
            neg = True
        else:
            return None
        (al, ah), (bl, bh) = self.rng(km[1]), self.rng(km[2])
        if km[0] == "add":
            lo, hi = al + bl, ah + bh
        else:
            lo, hi = al - bh, ah - bl
        if neg and (lo < -(1 << (c - 1)) or hi >= 1 << (c - 1)) or \
                not neg and (lo < 0 or hi >= 1 << c):
            return None
        return km[0], self.sext(km[1], w), self.sext(km[2], w)

    def linear(self, a):
        """{term: coefficient}; the constant has the term None"""
        k = self.nodes[a]
        c = self.isc(a)
        if c is not None:
            return {None: c}
        if k[0] in ("add", "sub"):
            key = ("LIN", a)
            if key not in self.memo:
                t = dict(self.linear(k[1]))
                for x, c in self.linear(k[2]).items():
                    t[x] = t.get(x, 0) + (c if k[0] == "add" else -c)
                self.memo[key] = t
            return self.memo[key]
        if k[0] == "mul" and self.isc(k[2]) is not None:
            return {k[1]: self.isc(k[2])}
        x = self.inverted(a)
        if x is not None:
            return {x: -1, None: -1}
        x = self.widened(a)
        if x is not None:
            t = dict(self.linear(x[1]))
            for y, c in self.linear(x[2]).items():
                t[y] = t.get(y, 0) + (c if x[0] == "add" else -c)
            return t
        return {a: 1}

    def unlinear(self, t, w):
        con = t.get(None, 0) & ((1 << w) - 1)
        pos = []
        neg = []
        for x, c in t.items():
            if x is None:
                continue
            c = signed(c & ((1 << w) - 1), w)
            m = abs(c)
            if m > 1:
                y = self.arith1("mul", x, self.const(m, w)) \
                    if m < 1 << (w - 1) else self.mk(w, "mul", x,
                                                     self.const(m, w))
            else:
                y = x
            if c > 0:
                pos.append(y)
            elif c < 0:
                neg.append(y)

        def total(l):
            l = sorted(l)
            r = l[0]
            for x in l[1:]:
                r = self.mk(w, "add", *sorted((r, x)))
            return r
        if neg:
            n = total(neg)
            r = self.mk(w, "sub", total(pos) if pos else self.const(0, w), n)
        elif pos:
            r = total(pos)
        else:
            return self.const(con, w)
        if con:
            r = self.mk(w, "add", r, self.const(con, w))
        return r

    def shift(self, op, a, b):
        w = self.w[a]
        cb = self.isc(b)
        if cb is not None:
            if cb >= w:
                return self.mk(w, "poison")
            if op == "shl":
                return self.cat([(self.const(0, cb), 0, cb)] * (cb > 0) +
                                [(self.slice(a, 0, w - cb), 0, w - cb)])
            x = self.slice(a, cb, w - cb)
            return self.zext(x, w) if op == "lshr" else self.sext(x, w)
        if op == "shl" and self.isc(a) == (1 << w) - 1 and w > 1:
            return self.arith("sub", self.const(0, w),
                              self.shift("shl", self.const(1, w), b))
        return self.lift([a, b], lambda p, q: self.mk(w, op, p, q)
                         if self.isc(q) is None else self.shift(op, p, q))

    def op(self, name, w, *args, comm=False):
        def f(*a):
            if comm:
                a = tuple(sorted(a))
            return self.mk(w, name, *a)
        if any(self.nodes[a][0] == "ite" for a in args):
            return self.lift(list(args), f, 3)
        return f(*args)

    # -- comparisons
    def icmp(self, pred, a, b):
        if self.nodes[a][0] == "ite" or self.nodes[b][0] == "ite":
            if self.isc(a) is not None or self.isc(b) is not None:
                cap = 30
            else:
                cap = 6
            return self.lift([a, b], lambda p, q: self.icmp1(pred, p, q),
                             cap)
        return self.icmp1(pred, a, b)

    def writes(self, eff, ps):
        """what was written since; a place written twice has the last"""
        k = self.nodes[eff]
        if len(ps) == 1 and k[0] == "writes" and len(k) == 3 and \
                self.nodes[k[2]][0] == self.nodes[ps[0]][0] == "wr" and \
                self.nodes[k[2]][1] == self.nodes[ps[0]][1]:
            m = dict(self.nodes[k[2]][2])
            m.update(self.nodes[ps[0]][2])
            ps = [self.mk(0, "wr", self.nodes[ps[0]][1],
                          tuple(sorted(m.items())))]
            eff = k[1]
        return self.mk(0, "writes", eff, *sorted(ps))

    def within(self, a, b):
        """how far two pointers are into the same array"""
        ka, kb = self.nodes[a], self.nodes[b]
        if ka[0] != "ptr" or kb[0] != "ptr":
            return None
        out = []
        bases = set()
        for k in (ka, kb):
            n = self.nodes[k[1]]
            if n[0] == "pidx":
                x = n[2]
                p = self.nodes[n[1]]
                base, off = (p[1], p[2]) if p[0] == "ptr" else (n[1], 0)
            else:
                x = self.const(0, 64)
                base, off = k[1], 0
            bases.add(base)
            out.append((x, off + k[2]))
        if len(bases) > 1 or ka[1] == kb[1]:
            return None
        m = min(o for _, o in out)
        return [self.arith("add", x, self.const(o - m, 64)) if o != m else x
                for x, o in out]

    def icmp1(self, pred, a, b):
        w = self.w[a]
        one = self.const(1, 1)
        zero = self.const(0, 1)
        ca, cb = self.isc(a), self.isc(b)
        if ca is not None and cb is not None:
            sa, sb = signed(ca, w), signed(cb, w)
            r = {"eq": ca == cb, "ne": ca != cb, "ult": ca < cb,
                 "ule": ca <= cb, "ugt": ca > cb, "uge": ca >= cb,
                 "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb,
                 "sge": sa >= sb}[pred]
            return one if r else zero
        if pred == "ne":
            return self.lnot(self.icmp1("eq", a, b))
        if pred == "eq":
            if a == b:
                return one
            if w == 1:
                return self.lnot(self.ite(a, self.lnot(b), b))
            # a local and what a pointer in memory points to
            for x, y in ((a, b), (b, a)):
                x, y = self.nodes[x], self.nodes[y]
                if x[0] == "ptr" and self.nodes[x[1]][0] == "alloca" and \
                        (y[0] in ("cat", "pidx", "c") or
                         y[0] == "ptr" and
                         self.nodes[y[1]][0] in ("cat", "pidx")):
                    return zero
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            # a place inside an object
            if cb == 0 and self.nodes[a][0] == "ptr" and self.nodes[a][2] > 0:
                return zero
            # places in the same array
            d = self.within(a, b)
            if d:
                return self.icmp("eq", *d)
            if cb == 0 and self.nodes[a][0] == "sub":
                return self.icmp("eq", self.nodes[a][1], self.nodes[a][2])
            # drop what both sides are known to have in common
            if cb is not None:
                ps = self.pieces(a)
                if len(ps) > 1:
                    # copies of the sign
                    m, l, c = ps[-1]
                    n = 0
                    while n < len(ps) and ps[-1 - n] == (m, l, 1):
                        n += 1
                    if 0 < n < len(ps) and ps[-1 - n][0] == m and \
                            sum(ps[-1 - n][1:]) == l + 1:
                        x = cb >> (w - n - 1)
                        if x not in (0, (1 << (n + 1)) - 1):
                            return zero
                        return self.icmp("eq", self.slice(a, 0, w - n),
                                         self.const(cb, w - n))
                pos = 0
                keep = []
                val = 0
                vp = 0
                for m, l, c in ps:
                    kv = (cb >> pos) & ((1 << c) - 1)
                    k = self.nodes[m]
                    if k[0] == "c":
                        if ((k[1] >> l) & ((1 << c) - 1)) != kv:
                            return zero
                    else:
                        keep.append((m, l, c))
                        val |= kv << vp
                        vp += c
                    pos += c
                if len(keep) != len(ps):
                    if not keep:
                        return one
                    a = self.cat(keep)
                    b = self.const(val, vp)
                    if self.w[a] == 1 or self.nodes[a][0] == "sub":
                        return self.icmp("eq", a, b)
                k = self.nodes[a]
                if k[0] == "cat" and len(k[1]) == 1 and \
                        k[1][0][1:] == (0, self.w[k[1][0][0]]):
                    k = self.nodes[k[1][0][0]]
                if k[0] == "xor":
                    for x, y in (k[1:], k[:0:-1]):
                        if self.isc(x) is not None:
                            return self.icmp("eq", y, self.const(
                                self.isc(x) ^ self.isc(b), self.w[y]))
                if k[0] == "add" and self.isc(k[2]) is not None and \
                        self.w[k[1]] == self.w[b]:
                    return self.icmp("eq", k[1], self.const(
                        (self.isc(b) - self.isc(k[2])) %
                        (1 << self.w[b]), self.w[b]))
            else:
                # the same constant on top of both
                pa, pb = self.pieces(a), self.pieces(b)
                (ma, la, na), (mb, lb, nb) = pa[-1], pb[-1]
                n = min(na, nb)
                if self.nodes[ma][0] == self.nodes[mb][0] == "c" and n < w:
                    x = (self.nodes[ma][1] >> (la + na - n)) & ((1 << n) - 1)
                    y = (self.nodes[mb][1] >> (lb + nb - n)) & ((1 << n) - 1)
                    if x != y:
                        return zero
                    return self.icmp("eq", self.slice(a, 0, w - n),
                                     self.slice(b, 0, w - n))
                # and below both
                (ma, la, na), (mb, lb, nb) = pa[0], pb[0]
                n = min(na, nb)
                if self.nodes[ma][0] == self.nodes[mb][0] == "c" and n < w:
                    x = (self.nodes[ma][1] >> la) & ((1 << n) - 1)
                    y = (self.nodes[mb][1] >> lb) & ((1 << n) - 1)
                    if x != y:
                        return zero
                    return self.icmp("eq", self.slice(a, n, w - n),
                                     self.slice(b, n, w - n))
                ka, kb = self.nodes[a], self.nodes[b]
                if ka[0] == kb[0] == "mul" and ka[2] == kb[2] and \
                        self.isc(ka[2]) and all(
                            0 <= self.rng(k[1])[0] and
                            self.rng(k[1])[1] * self.isc(k[2]) < 1 << w
                            for k in (ka, kb)):
                    return self.icmp("eq", ka[1], kb[1])
                if a > b:
                    a, b = b, a
            if self.isc(b) == 0 and self.nodes[a][0] == "or":
                k = self.nodes[a]
                z = self.const(0, self.w[k[1]])
                return self.land(self.icmp("eq", k[1], z),
                                 self.icmp("eq", k[2], z))
            return self.atom(self.mk(1, "eq", a, b))
        if pred in ("ugt", "sgt"):
            return self.icmp1(pred[0] + "lt", b, a)
        if pred in ("uge", "sge"):
            return self.lnot(self.icmp1(pred[0] + "lt", a, b))
        if pred in ("ule", "sle"):
            return self.lnot(self.icmp1(pred[0] + "lt", b, a))
        if a == b:
            return zero
        s = pred == "slt"
        d = None if s else self.within(a, b)
        if d:
            return self.icmp("ult", *d)
        mx = (1 << (w - 1)) - 1 if s else (1 << w) - 1
        mn = -(1 << (w - 1)) if s else 0
        if cb is not None:
            v = signed(cb, w) if s else cb
            if v == mn:
                return zero
            if v == mn + 1:
                return self.icmp1("eq", a, self.const(mn, w))
            if v == mx:
                return self.lnot(self.icmp1("eq", a, self.const(mx, w)))
            k = self.nodes[a]
            if s and v in (0, 1) and k[0] == "sub" and \
                    "ptr" in (self.nodes[k[1]][0], self.nodes[k[2]][0]):
                # the distance of two places
                return self.icmp("ult", k[1], k[2]) if v == 0 else \
                    self.lnot(self.icmp("ult", k[2], k[1]))
            if s and v == 0:
                return self.slice(a, w - 1, 1)
        if ca is not None:
            v = signed(ca, w) if s else ca
            if v == mx:
                return zero
            # c < x  is  not (x < c + 1)
            return self.lnot(self.icmp1(pred, b, self.const(v + 1, w)))
        (al, ah), (bl, bh) = self.rng(a), self.rng(b)
        if s or al >= 0 and bl >= 0:
            if ah < bl:
                return one
            if al >= bh:
                return zero
        # extended operands: compare the originals
        if al >= 0 and bl >= 0:
            x = max(ah.bit_length(), bh.bit_length(), 1)
            if x < w:
                return self.icmp("ult", self.slice(a, 0, x),
                                 self.slice(b, 0, x))
        elif s:
            x = max((-al - 1).bit_length() if al < 0 else 0,
                    (-bl - 1).bit_length() if bl < 0 else 0,
                    max(ah, 0).bit_length(), max(bh, 0).bit_length()) + 1
            if x < w:
                return self.icmp("slt", self.slice(a, 0, x),
                                 self.slice(b, 0, x))
        if cb is None and ca is None:
            # the same constant below both
            (ma, la, na), (mb, lb, nb) = self.pieces(a)[0], self.pieces(b)[0]
            n = min(na, nb)
            if self.nodes[ma][0] == self.nodes[mb][0] == "c" and n < w and \
                    not (((self.nodes[ma][1] >> la) ^
                          (self.nodes[mb][1] >> lb)) & ((1 << n) - 1)):
                return self.icmp(pred, self.slice(a, n, w - n),
                                 self.slice(b, n, w - n))
        # so many times the same size
        ka, kb = self.nodes[a], self.nodes[b]
        if not s and ka[0] == kb[0] == "mul" and ka[2] == kb[2] and \
                self.isc(ka[2]):
            xs = [self.rng(k[1]) for k in (ka, kb)]
            if all(lo >= 0 and hi * self.isc(ka[2]) < 1 << w
                   for lo, hi in xs):
                return self.icmp("ult", ka[1], kb[1])
        if not s and a in self.counters:
            # a counter reaches its bound before it passes it
            return self.lnot(self.icmp1("eq", a, b))
        # the carry of a sum
        ka = self.nodes[a]
        if not s and ka[0] == "add" and b in (ka[1], ka[2]):
            return self.slice(self.arith("add", self.zext(ka[1], w + 1),
                                         self.zext(ka[2], w + 1)), w, 1)
        if not s and cb == 1 << (w - 1):
            return self.lnot(self.slice(a, w - 1, 1))
        if not s and cb is not None:
            ps = self.pieces(a)
            if len(ps) > 1 and self.nodes[ps[-1][0]][0] == "c" and \
                    self.isc(ps[-1][0]) == 0:
                nw = w - ps[-1][2]
                if cb >> nw:
                    return one
                return self.icmp("ult", self.slice(a, 0, nw),
                                 self.const(cb, nw))
            # zero bits above all bits of the constant do not matter
            pos = 0
            keep = []
            for m, l, c in ps:
                if not (self.isc(m) == 0 and pos >= cb.bit_length()):
                    keep.append((m, l, c))
                pos += c
            if len(keep) != len(ps):
                a = self.cat(keep)
                return self.icmp("ult", a, self.const(cb, self.w[a]))
        if cb is None:
            # one of less, equal, greater
            eq = self.icmp1("eq", a, b)
            if a < b:
                return self.ite(eq, zero, self.atom(self.mk(1, pred, a, b)))
            return self.ite(eq, zero, self.lnot(
                self.atom(self.mk(1, pred, b, a))))
        return self.atom(self.mk(1, pred, a, b))

    def fcmp(self, pred, a, b):
        if self.nodes[a][0] == "ite" or self.nodes[b][0] == "ite":
            return self.lift([a, b], lambda p, q: self.fcmp1(pred, p, q))
        return self.fcmp1(pred, a, b)

    def fnan(self, a):
        c = self.isc(a)
        w = self.w[a]
        if c is not None:
            inf = 0x7f800000 if w == 32 else 0x7ff0000000000000
            return self.const((c & ((1 << (w - 1)) - 1)) > inf, 1)
        return self.atom(self.mk(1, "fnan", a))

    def flt(self, a, b):
        w = self.w[a]
        return self.atom(self.mk(1, "flt", a, b))

    def feq(self, a, b):
        if a > b:
            a, b = b, a
        return self.atom(self.mk(1, "feq", a, b))

    def fle(self, a, b):
        w = self.w[a]
        cb, ca = self.isc(b), self.isc(a)
        if cb is not None:
            n = fnext(cb, w, True)
            if n is not None:
                return self.flt(a, self.const(n, w))
        if ca is not None:
            n = fnext(ca, w, False)
            if n is not None:
                return self.flt(self.const(n, w), b)
        return self.lor(self.flt(a, b), self.feq(a, b))

    def fcmp1(self, pred, a, b):
        if pred == "false":
            return self.const(0, 1)
        if pred == "true":
            return self.const(1, 1)
        if pred == "uno":
            return self.lor(self.fnan(a), self.fnan(b))
        if pred == "ord":
            return self.lnot(self.fcmp1("uno", a, b))
        if pred == "oeq":
            return self.feq(a, b)
        if pred == "une":
            return self.lnot(self.feq(a, b))
        if pred == "olt":
            return self.flt(a, b)
        if pred == "ogt":
            return self.flt(b, a)
        if pred == "ole":
            return self.fle(a, b)
        if pred == "oge":
            return self.fle(b, a)
        if pred == "one":
            return self.lor(self.flt(a, b), self.flt(b, a))
        if pred == "ueq":
            return self.lnot(self.fcmp1("one", a, b))
        neg = {"ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt"}
        return self.lnot(self.fcmp1(neg[pred], a, b))

    # -- printing
    def operands(self, n):
        """the nodes a node is made of"""
        k = self.nodes[n]
        if k[0] in LEAF and len(k) < 3 or k[0] == "c":
            return ()
        if k[0] == "ptr":
            return k[1:2]
        if k[0] == "cat":
            return [m for m, _, _ in k[1]]
        if k[0] in ("lphi", "lmem", "lleft"):
            return k[1], k[3]
        if k[0] in ("local", "wr"):
            return [x for _, x in k[2]] + [k[1]] * (k[0] == "wr")
        if k[0] == "out":
            return k[1:2]
        if k[0] == "bit":
            return k[1:2]
        return [x for x in k[1:] if isinstance(x, int) and
                not isinstance(x, bool) and x >= 0]

    def show(self, n, d=6):
        k = self.nodes[n]
        if k[0] == "c":
            return "%#x:%d" % (k[1], self.w[n]) if k[1] > 9 else str(k[1])
        if d == 0:
            return "…"
        if k[0] == "ite":
            return "(%s ? %s : %s)" % (self.show(k[1], d - 1),
                                       self.show(k[2], d - 1),
                                       self.show(k[3], d - 1))
        if k[0] == "mem":
            return "%s[%s]" % (self.show(k[1], d - 1),
                               signed(self.isc(k[2]), 64)
                               if self.isc(k[2]) is not None else
                               self.show(k[2], d - 1))
        if k[0] == "in":
            return {"a0": "p", "a1": "stack", "a2": "ctx"}.get(k[1], k[1])
        if k[0] == "ptr":
            return "%s%+d" % (self.show(k[1], d - 1), k[2])
        if k[0] == "bit":
            return "bit %d of %s" % (k[2], self.show(k[1], d - 1))
        if k[0] == "cat":
            ps = k[1]
            s = []
            for m, l, c in ps:
                x = self.show(m, d - 1)
                if (l, c) != (0, self.w[m]):
                    x += "[%d+%d]" % (l, c)
                s.append(x)
            if len(s) > 4:
                s = s[:2] + ["…"] + s[-1:]
            return "{%s}" % ",".join(s)
        return "%s(%s)" % (k[0], ", ".join(
            self.show(x, d - 1) if isinstance(x, int) and not
            isinstance(x, bool) and k[0] not in ("in", "sp", "lphi", "alloca")
            else str(x) for x in k[1:]))


COMM = {"smin", "smax", "umin", "umax", "uadd.sat", "sadd.sat", "minnum",
        "maxnum", "fadd", "fmul", "minimum", "maximum"}


class State:
    __slots__ = ("mem", "eff", "clob")

    def __init__(self, mem, eff, clob):
        self.mem = mem      # base node -> {offset: byte node}
        self.eff = eff
        self.clob = clob    # what may have changed memory so far

    def copy(self):
        return State({b: dict(m) for b, m in self.mem.items()}, self.eff,
                     self.clob)


class Eval:
    """the value graph of one function

    call(ev, state, instr, args) may be supplied to say how a call is
    represented: it returns None for the default.
    """

    def __init__(self, g, f, ignore=None, retval=None, keep=None, given=None,
                 plain=False, mute=(), clobber=(), moves=False, perm=0):
        """perm: which order variables of a loop that start from the same
        value are taken in, 0 to perms - 1
        moves: a copy that allows overlap counts as any other copy
        plain: an ordinary function rather than an instruction
        mute: callees that do nothing of interest
        clobber: (plain) callees after which memory may have changed
        keep: when given, only these callees count as effects; every
        other call is a function of its arguments, and memory that this
        function does not write itself does not change
        given: {(callee, argument): number}, what a call stores through an
        argument; {callee: number}, what it returns; {"byte": number}, the
        byte that the pointer stored at the first argument designates"""
        self.given = given or {}
        self.keep = keep
        self.plain = plain
        self.mute = mute
        self.clobber = clobber
        self.escaped = {}   # where addresses of arguments were stored
        self.loose = plain and f.ret == "i32"
        self.moves = moves
        self.moving = False
        self.perm = perm
        self.perms = 1
        self.g = g
        self.retval = retval or {}
        self.f = f
        self.val = {}
        self.exits = []       # (reach, kind, {component: node})
        self.ignore = ignore or {}
        self.local = {}
        self.carried = {}
        self.stepped = set()
        self.run()

    # -- operands
    def v(self, o):
        g = self.g
        if isinstance(o, int):
            if o not in self.val:
                raise Stuck("value used before it is known")
            return self.val[o]
        if isinstance(o, str):
            if o[0] == "a":
                n = int(o[1:])
                w = width_of(self.f.args[n][1])
                x = g.mk(w, "in", o)
                if self.f.args[n][1] == "ptr":
                    return g.mk(64, "ptr", x, 0)
                return g.atom(x) if w == 1 else x
            d = self.f.prog.globals.get(o[1:])
            t = content(self.f.prog, o) if d else None
            if t is not None:
                n = g.mk(64, "global", t)
            else:
                n = g.mk(64, "global", o if o.startswith("@__") else
                         o.split(".")[0])
            g.globals.setdefault(n, o[1:])
            return g.mk(64, "ptr", n, 0)
        if o[0] == "c":
            return g.const(int(o[1]), o[2])
        if o[0] == "null":
            return g.const(0, 64)
        if o[0] == "undef":
            return g.mk(self.uw, "undef")
        if o[0] == "fp":
            return g.const(int(o[1], 16), width_of(o[2]))
        if o[0] == "gep":
            b = self.v(o[1])
            off = 0
            for s in o[2]:
                off += s[1] if s[0] == "o" else s[3] if s[0] == "f" else 0
            return self.padd(b, off)
        if o[0] == "ce" and o[1] == "inttoptr" and o[2][0][0] == "c":
            return g.const(int(o[2][0][1]), 64)
        raise Stuck("operand %r" % (o,))

    def padd(self, p, off):
        g = self.g
        if off == 0:
            return p
        k = g.nodes[p]
        if k[0] == "ite":
            key = ("PADD", p, off)
            if key not in g.memo:
                g.memo[key] = g.raw_ite(k[1], self.padd(k[2], off),
                                        self.padd(k[3], off))
            return g.memo[key]
        if k[0] == "ptr":
            return g.mk(64, "ptr", k[1], k[2] + off)
        if k[0] == "c":
            return g.arith("add", p, g.const(off, 64))
        return g.mk(64, "ptr", p, off)

    def split(self, p):
        k = self.g.nodes[p]
        if k[0] == "ptr":
            return k[1], k[2]
        return p, 0

    def stable(self, base):
        k = self.g.nodes[base]
        return k[0] == "in" or k[0] == "alloca"

    def byte0(self, st, base, off):
        """what a byte holds before this function wrote to it"""
        g = self.g
        k = g.nodes[base]
        if k[0] == "alloca":
            return g.mk(8, "undef")
        if k[0] == "in":
            return g.mk(8, "mem", base, g.const(off, 64),
                        st.clob if self.plain else -1)
        if k[0] == "global":
            c = self.f.prog.constant(g.globals[base])
            x = c.get(off)
            if x is None and c and min(c) <= off <= max(c):
                return g.mk(8, "undef")     # between members
            if x is not None:
                if x[0] == "b":
                    return g.const(x[1], 8)
                return g.slice(self.v(x[1]), x[2] * 8, 8)
        if off == 0 and "byte" in self.given:
            x = self.load(st, g.mk(64, "ptr", g.mk(64, "in", "a0"), 0), 8)
            first = getattr(self, "first", None)
            if first is None:
                first = self.first = x
            if self.split(first)[0] == base:
                return g.const(self.given["byte"], 8)
        return g.mk(8, "mem", base, g.const(off, 64), self.hist(st, base))

    def hist(self, st, base):
        """which writes a read through an opaque pointer may see"""
        g = self.g
        if self.keep is not None:
            return g.mk(0, "hist")
        ps = []
        for b, m in st.mem.items():
            if g.nodes[b][0] in ("alloca", "in") or b == base or \
                    not m.get("w"):
                continue
            ps.append(self.freeze(b, m))
        return g.mk(0, "hist", st.clob if self.plain else st.eff,
                    *sorted(ps))

    def freeze(self, b, m):
        return self.g.mk(0, "wr", b, tuple((o, m[o]) for o in
                                           sorted(m.get("w", ()))))

    def load(self, st, p, n):
        g = self.g
        k = g.nodes[p]
        if k[0] == "ite":
            # a choice of addresses is a choice of contents
            return g.lift([p], lambda q: self.load(st, q, n)
                          if g.nodes[q][0] != "ite" else
                          self._stuck("address"), 4)
        base, off = self.split(p)
        kb = g.nodes[base]
        if kb[0] == "pidx":
            rb, ro = self.split(kb[1])
            if g.nodes[rb][0] == "alloca":
                r = g.mk(n * 8, "undef")
                u = g.mk(8, "undef")
                m = st.mem.get(rb, {})
                for c, at in reversed(self.places(rb, ro + off, kb[2], n)):
                    # a place that was never written cannot be meant
                    if all(m.get(at + k, u) == u for k in range(n)):
                        continue
                    r = g.ite(c, self.load(st, g.mk(64, "ptr", rb, at), n), r)
                return r
        m = st.mem.setdefault(base, {})
        out = []
        for i in range(n):
            b = m.get(off + i)
            if b is None:
                b = self.byte0(st, base, off + i)
                m[off + i] = b
            out.append((b, 0, 8))
        return g.cat(out)

    def places(self, rb, off, x, n):
        """the places within a local that offset x (a node) can select"""
        g = self.g
        size = self.local[rb]
        step = 1
        ps = g.pieces(x)
        if g.nodes[x][0] == "cat" and g.nodes[ps[0][0]][0] == "c" and \
                g.isc(ps[0][0]) == 0:
            step = 1 << ps[0][2]
        lo, hi = g.rng(x)
        if size == 0 or size > 64:
            raise Stuck("indexed local")
        out = []
        at = off % step
        while at + n <= size:
            if lo <= at - off <= hi:
                c = g.icmp("eq", x, g.const(at - off, 64))
                if g.isc(c) != 0:
                    out.append((c, at))
            at += step
        return out

    def _stuck(self, w):
        raise Stuck(w)

    def store(self, st, p, x, n):
        g = self.g
        k = g.nodes[p]
        if k[0] == "ite":
            # write either place
            c = g.atom(k[1])
            for side, q in ((1, k[2]), (0, k[3])):
                old = self.load(st, q, n)
                self.store(st, q, g.ite(c, x, old) if side
                           else g.ite(c, old, x), n)
            return
        base, off = self.split(p)
        if g.nodes[base][0] == "pidx":
            rb, ro = self.split(g.nodes[base][1])
            if g.nodes[rb][0] == "alloca":
                if g.w[x] < n * 8:
                    x = g.zext(x, n * 8)
                for c, at in self.places(rb, ro + off, g.nodes[base][2], n):
                    q = g.mk(64, "ptr", rb, at)
                    self.store(st, q, g.ite(c, x, self.load(st, q, n)), n)
                return
        if g.w[x] < n * 8:
            x = g.zext(x, n * 8)
        kx = g.nodes[x]
        if kx[0] == "ptr" and g.nodes[kx[1]][0] == "in" and \
                g.nodes[base][0] != "alloca":
            self.escaped.setdefault(base, set()).add(kx[1])
        if not self.stable(base):
            # may overlap what other opaque pointers designate
            for b in list(st.mem):
                if b != base and not self.stable(b) and st.mem[b]:
                    if not st.mem[b].get("w"):
                        st.mem.pop(b)
                        continue
                    z = self.freeze(b, st.mem.pop(b))
                    st.eff = g.mk(0, "seq", st.eff, z)
                    st.clob = g.mk(0, "seq", st.clob, z)
        m = st.mem.setdefault(base, {})
        for i in range(n):
            m[off + i] = g.slice(x, 8 * i, 8)
        if not self.stable(base) or self.plain:
            m.setdefault("w", frozenset())
            m["w"] = m["w"] | {off + i for i in range(n)}

    def near(self, name, args):
        """[(base, offsets)], all that a call of a small function looks at
        or changes; None when that is not known"""
        if not self.plain or name is None:
            return None
        m = mods.confined(self.f.prog, name)
        if m is None:
            return None
        out = []
        for k, offs in m.items():
            n = self.g.nodes[args[k]]
            if n[0] != "ptr" or self.g.nodes[n[1]][0] in ("alloca", "ite"):
                return None
            out.append((n[1], frozenset(n[2] + o for o in offs)))
        return out

    def reaches(self, i, args):
        """[(argument of this function, offset, bytes that a call may read
        or write, bytes that it may write (None for any), whether those
        are known from what it does)]"""
        g, p = self.g, self.f.prog
        out = []
        if not self.plain or self.keep is not None:
            return out
        c = i.callee and mods.body(p, i.callee)
        if i.callee is not None and (c is None or c.decl):
            return out
        for n, a in enumerate(args):
            k = g.nodes[a] if a is not None else ("",)
            if k[0] != "ptr":
                continue
            if g.nodes[k[1]][0] == "in":
                w = r = None
                sure = False
                if i.callee is not None:
                    w = mods.argmods(p, i.callee, n)
                    r = mods.argreads(p, i.callee, n)
                    x = mods.extent(p, i.callee, n)
                    sure = w is not None and len(w) <= MANY
                    w = x if w is None else w
                    r = x if r is None else r
                    r = None if w is None or r is None else r | w
                out.append((k[1], k[2], r, w, sure))
            for b in sorted(self.escaped.get(k[1], ())):
                out.append((b, 0, None, None, False))
        return out

    def shown(self, st, met):
        """what was written and a call may look at"""
        g = self.g
        out = []
        for b, k, r, _, _ in met:
            m = st.mem.get(b, {})
            w = m.get("w", ())
            w = [o for o in w if not self.left(b, o, m[o])
                 and (r is None or o - k in r)]
            if w:
                out.append(self.alike(
                    [(o, m[o]) for o in sorted(w)],
                    lambda t: g.mk(0, "wr", b, t)))
        return out

    def left(self, base, off, x):
        """whether a byte is as calls left it, or as it was on entry"""
        k = self.g.nodes[x]
        if k[0] == "ite":
            return self.left(base, off, k[2]) and self.left(base, off, k[3])
        if k[0] == "lleft":
            return self.left(base, off, k[1])
        return k[0] == "left" or \
            k == ("mem", base, self.g.const(off, 64), -1)

    def changed(self, st, met, e):
        """what a call may have written through arguments"""
        g = self.g
        for n, (b, k, _, w, sure) in enumerate(met):
            m = st.mem.setdefault(b, {})
            offs = m.get("w", ())
            if w is not None:
                offs = [k + o for o in w if sure or k + o in offs]
            if not offs:
                continue
            for o in offs:
                m[o] = g.choose(lambda q: g.mk(8, "left", q, n, o - k), e)
            m["w"] = m.get("w", frozenset()) | frozenset(offs)

    def fresh(self, base):
        """a block that was just allocated"""
        k = self.g.nodes[base]
        if k[0] != "result":
            return False
        k = self.g.nodes[k[1]]
        return k[0] == "ev" and k[2] in FRESH

    def meets(self, b, offs, near):
        """which of the offsets a call may look at or change"""
        out = set()
        for nb, no in near:
            if nb == b:
                out |= no & offs
            elif not (self.fresh(b) and (self.fresh(nb) or self.stable(nb))):
                return offs
        return out

    def flush(self, st, near=None):
        g = self.g
        ps = []
        for b in list(st.mem):
            if self.stable(b):
                continue
            m = st.mem.pop(b)
            w = m.get("w", ())
            if w and near is not None:
                # a call that has nothing to do with what was written
                hit = self.meets(b, frozenset(w), near)
                rest = frozenset(w) - hit
                if rest:
                    st.mem[b] = {o: m[o] for o in rest}
                    st.mem[b]["w"] = rest
                w = hit
            if w:
                ps.append(g.mk(0, "wr", b,
                               tuple((o, m[o]) for o in sorted(w))))
        if ps:
            st.eff = g.writes(st.eff, ps)
            st.clob = g.writes(st.clob, ps)

    def inwrites(self, st, base):
        """what was written through an argument other than the stack"""

    def append(self, eff, name, args):
        """one more call; calls whose order does not matter are put in one
        of the orders"""
        g = self.g
        evs = [(name, args)]
        if self.near(name, args) is not None or name in RELEASE or \
                name in ABOUT:
            while len(evs) < 16:
                k = g.nodes[eff]
                if k[0] != "ev" or not any(
                        self.commute(k[2], k[3:], *e) for e in evs):
                    break
                evs.insert(0, (k[2], k[3:]))
                eff = k[1]
        while evs:
            # the first in name of those that nothing before must precede
            e = min(e for n, e in enumerate(evs)
                    if all(self.commute(*x, *e) for x in evs[:n]))
            evs.remove(e)
            eff = g.mk(0, "ev", eff, e[0], *e[1])
        return eff

    def commute(self, n1, a1, n2, a2):
        if n1 in ABOUT and n2 in ABOUT:
            return a1[ABOUT[n1]] != a2[ABOUT[n2]]
        if (n1 in RELEASE or n1 in ABOUT) and (n2 in RELEASE or n2 in ABOUT):
            x = a1[RELEASE[n1] if n1 in RELEASE else ABOUT[n1]]
            y = a2[RELEASE[n2] if n2 in RELEASE else ABOUT[n2]]
            bx, by = self.split(x)[0], self.split(y)[0]
            return not any(self.uses(bx, q) for q in a2) and \
                not any(self.uses(by, q) for q in a1)
        m1, m2 = self.near(n1, a1), self.near(n2, a2)
        return m1 is not None and m2 is not None and not any(
            self.meets(b, o, m2) for b, o in m1)

    def uses(self, n, x):
        """whether x is computed from n; yes when there is much to look at"""
        g = self.g
        seen = {x}
        todo = [x]
        while todo:
            y = todo.pop()
            if y == n or len(seen) > 300:
                return True
            for z in g.operands(y):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return False

    def event(self, st, *key, near=None):
        self.flush(st, near)
        if self.plain:
            st.eff = self.g.choose(
                lambda e, *a: self.append(e, key[0], a),
                st.eff, *key[1:])
        else:
            st.eff = self.g.mk(0, "ev", st.eff, *key)
        if self.plain and key[0] in self.clobber:
            st.clob = self.g.mk(0, "ev", st.clob, *key)
            # the callee may have changed what arguments designate
            for b, m in st.mem.items():
                if self.g.nodes[b][0] == "in":
                    w = m.get("w", ())
                    for o in [o for o in m if o != "w" and o not in w]:
                        del m[o]
        return st.eff

    # -- control
    def run(self):
        f, g = self.f, self.g
        order = f.rpo()
        pos = {b: n for n, b in enumerate(order)}
        reach = {0: g.const(1, 1)}
        edge = {}
        states = {}
        backs = [(b, s) for b in order for s in f.succs[b]
                 if pos[s] <= pos[b]]
        heads = {s for _, s in backs}
        for b, s in backs:
            if not f.dominates_bb(s, b):
                raise Stuck("irreducible loop")
        nphi = 0
        for b in order:
            preds = [p for p in f.preds[b] if pos[p] < pos[b]]
            ins = []
            if b == 0:
                r = g.const(1, 1)
                st = State({}, g.mk(0, "start"), g.mk(0, "start"))
            else:
                for p in preds:
                    if (p, b) in edge:
                        ins.append((p, edge[(p, b)]))
                r = g.const(0, 1)
                for p, e in ins:
                    r = g.lor(r, e)
                if not ins or g.isc(r) == 0:
                    reach[b] = g.const(0, 1)
                    continue
                st = self.join([(e, states[p]) for p, e in ins])
            reach[b] = r
            if self.keep is not None or self.plain:
                st.eff = g.care(st.eff, r)
                st.clob = g.care(st.clob, r)
                for m in st.mem.values():
                    for o, x in m.items():
                        if o != "w":
                            m[o] = g.care(x, r)
            if b in heads:
                self.flush(st)
                st.eff = g.mk(0, "loop", st.eff)
                if self.plain and self.loopclobbers(
                        b, [x for x, h in backs if h == b]):
                    st.clob = g.mk(0, "loop", st.eff)
            used = {}
            phis = []
            for i in f.blocks[b]:
                if i.op != "phi":
                    break
                val = None
                for p, x in f.phi_in(i):
                    self.uw = width_of(i.ty)
                    if (p, b) not in edge or pos[p] >= pos[b]:
                        continue
                    xv = self.v(x)
                    val = xv if val is None else g.ite(edge[(p, b)], xv, val)
                phis.append((i, val))
            if self.keep is not None or self.plain:
                phis = [(i, g.care(val, r)) for i, val in phis]
            steps = {i.id: self.step(i, b, pos) for i, _ in phis} \
                if b in heads else {}
            if b in heads:
                phis = self.order(phis, steps)
            for i, val in phis:
                if b in heads:
                    step = steps[i.id]
                    if step is not None:
                        self.val[i.id] = self.nth(val, step, i.ty, st.eff)
                        self.stepped.add(i.id)
                        continue
                    # known by what it starts from
                    if i.ty == "ptr":
                        val = self.arg(st, val)
                    n = used[val] = used.get(val, 0) + 1
                    val = g.mk(width_of(i.ty), "lphi", val, n, st.eff)
                    if g.w[val] == 1:
                        val = g.atom(val)
                    if i.ty == "ptr":
                        val = g.mk(64, "ptr", val, 0)
                self.val[i.id] = val
            if b in heads:
                carried = self.carried[b] = []
                written = self.written(b, [x for x, h in backs if h == b])
                for base, how in written.items():
                    for k, w, sure in how or ():
                        if sure:
                            for o in w:
                                self.load(st, g.mk(64, "ptr", base, k + o), 1)
                for base, m in st.mem.items():
                    if base not in written:
                        continue
                    for o, x in sorted((q for q in m.items()
                                        if q[0] != "w")):
                        how = self.carry(written[base], o, m)
                        if how is None or g.nodes[x][0] == "undef":
                            continue
                        n = used[x] = used.get(x, 0) + 1
                        m[o] = g.mk(8, how, x, n, st.eff)
                        carried.append((base, o, m[o]))
            out = None
            for i in f.blocks[b]:
                if i.op == "phi":
                    continue
                if i.op in ("br", "switch", "ret", "unreachable"):
                    out = i
                    break
                self.instr(st, i, b, r)
            states[b] = st
            if out.op == "br":
                s = out.d["succ"]
                if len(s) == 1:
                    self.goto(edge, b, s[0], r, pos)
                else:
                    self.uw = 1
                    c = self.v(out.ops[0])
                    self.goto(edge, b, s[0], g.land(r, c), pos)
                    self.goto(edge, b, s[1], g.land(r, g.lnot(c)), pos)
            elif out.op == "switch":
                c = self.v(out.ops[0])
                w = g.w[c]
                rest = r
                for cv, s in out.d["cases"]:
                    e = g.icmp("eq", c, g.const(cv, w))
                    self.goto(edge, b, s, g.land(rest, e), pos)
                    rest = g.land(rest, g.lnot(e))
                self.goto(edge, b, out.d["default"], rest, pos)
            elif out.op == "ret":
                self.uw = 32
                v = self.v(out.ops[0]) if out.ops else g.const(0, 1)
                self.exit(r, st, v)
            # unreachable: cannot happen
            for s in f.succs[b]:
                if pos[s] <= pos[b]:
                    comp = {}
                    for i in f.blocks[s]:
                        if i.op != "phi":
                            break
                        for p, x in f.phi_in(i):
                            if p == b:
                                self.uw = width_of(i.ty)
                                if i.id in self.stepped:
                                    continue
                                comp["phi%d" % self.split(
                                    self.val[i.id])[0]] = self.v(x)
                    st2 = st.copy()
                    self.flush(st2)
                    for base, o, x in self.carried[s]:
                        comp["mem%d" % x] = st2.mem[base].get(o, x)
                    comp["effects"] = st2.eff
                    self.exits.append((edge.get((b, s), r), "again", comp))

    def order(self, phis, steps):
        """the variables of a loop in one of the orders that may matter"""
        same = {}
        for n, (i, val) in enumerate(phis):
            if steps[i.id] is None:
                same.setdefault(val, []).append(n)
        phis = list(phis)
        for ns in same.values():
            if len(ns) > 1:
                by = sorted(ns, key=lambda n: self.use(phis[n][0]))
                for to, x in zip(ns, [phis[n] for n in by]):
                    phis[to] = x
        out = list(phis)
        for ns in same.values():
            if len(ns) < 2:
                continue
            k = math.factorial(len(ns))
            at = self.perm // self.perms % k
            self.perms *= k
            if at:
                pick = next(itertools.islice(
                    itertools.permutations(ns), at, None))
                for to, n in zip(ns, pick):
                    out[to] = phis[n]
        return out

    def use(self, i):
        """what a variable is used for, to tell variables apart"""
        seen = {i.id}
        work = [i]
        out = set()
        while work:
            x = work.pop()
            for u in self.f.users.get(x.id, ()):
                if u.op in ("phi", "add", "sub", "zext", "sext", "trunc",
                            "select", "freeze"):
                    if u.id not in seen:
                        seen.add(u.id)
                        work.append(u)
                elif u.op == "call":
                    out.add("call %s %s" % (u.cname, [
                        n for n, o in enumerate(u.ops) if o == x.id]))
                else:
                    out.add("%s %s %s" % (u.op, u.d.get("steps") and 1, [
                        self.path(o, 4) for o in u.ops if o != x.id]))
        return sorted(out)

    def path(self, v, depth):
        """the access path a value comes from, roughly"""
        if isinstance(v, str):
            return v if v[:1] == "a" else "?"
        if not isinstance(v, int):
            return "c"
        i = self.f.get(v)
        if depth == 0 or i.op not in ("load", "getelementptr"):
            return i.op if i.op != "call" else "call %s" % i.cname
        if i.op == "load":
            return "*" + self.path(i.ops[0], depth - 1)
        n = 0
        for s in i.d["steps"]:
            n += s[1] if s[0] == "o" else s[3] if s[0] == "f" else 0
        return "%s+%d" % (self.path(i.ops[0], depth - 1), n)

    def step(self, i, b, pos):
        """what a loop phi grows by each time round, if always the same"""
        step = None
        for p, x in self.f.phi_in(i):
            if pos[p] < pos[b]:
                continue
            if not isinstance(x, int):
                return None
            j = self.f.get(x)
            if j.ops[:1] != [i.id] and tuple(j.ops[:1]) != (i.id,):
                return None
            if j.op == "add" and isinstance(j.ops[1], tuple) and \
                    j.ops[1][0] == "c":
                n = int(j.ops[1][1])
            elif j.op == "getelementptr":
                n = 0
                for s in j.d["steps"]:
                    if s[0] == "o":
                        n += s[1]
                    elif s[0] == "f":
                        n += s[3]
                    else:
                        return None
            else:
                return None
            if step not in (None, n):
                return None
            step = n
        return step

    def nth(self, val, step, ty, eff):
        """val after as many steps as the loop went round; rounds are taken
        to be less than 2^32"""
        g = self.g
        k = g.mk(32, "lphi", g.const(0, 32), 0, eff)
        g.counters.add(k)
        if ty == "ptr":
            return self.pindex(val, step, g.zext(k, 64))
        w = g.w[val]
        k = g.zext(k, w) if w >= 32 else g.slice(k, 0, w)
        step = signed(step & ((1 << w) - 1), w)
        if step < 0 and w == 64 and g.isc(g.slice(val, 32, 32)) == 0:
            # counts down to zero, not below
            return g.zext(g.arith("sub", g.slice(val, 0, 32), g.arith(
                "mul", g.slice(k, 0, 32), g.const(-step, 32))), 64)
        return g.arith("sub" if step < 0 else "add", val, g.arith(
            "mul", k, g.const(abs(step), w)))

    def body(self, head, tails):
        body = {head}
        work = list(tails)
        while work:
            x = work.pop()
            if x not in body:
                body.add(x)
                work += self.f.preds[x]
        return body

    def loopclobbers(self, head, tails):
        return any(i.op == "call" and (i.cname or "*") in self.clobber
                   for b in self.body(head, tails) for i in self.f.blocks[b])

    def written(self, head, tails):
        """{local or argument: None where a loop may write to it, otherwise
        what calls in the loop may write}"""
        f, g = self.f, self.g
        body = self.body(head, tails)
        out = {}
        calls = {}

        def root(o):
            off = 0
            while isinstance(o, int):
                i = f.get(o)
                if i.op != "getelementptr":
                    break
                for s in i.d["steps"]:
                    off += s[1] if s[0] == "o" else s[3] if s[0] == "f" else 0
                o = i.ops[0]
            if isinstance(o, tuple) and o[0] == "gep":
                o = o[1]
            if isinstance(o, int) and o in self.val:
                b, k = self.split(self.val[o])
                return b, k + off
            if isinstance(o, str) and o[0] == "a":
                return g.mk(64, "in", o), off
            return None, 0
        for b in body:
            for i in f.blocks[b]:
                if i.op == "store":
                    out[root(i.ops[1])[0]] = None
                elif i.op == "call":
                    args = []
                    for o in i.ops:
                        r, k = root(o)
                        if r is not None and g.nodes[r][0] == "alloca":
                            out[r] = None
                        args.append(None if r is None
                                    else g.mk(64, "ptr", r, k))
                    for r, k, _, w, sure in self.reaches(i, args):
                        if w is None or w:
                            calls.setdefault(r, []).append((k, w, sure))
        for r, c in calls.items():
            out.setdefault(r, c)
        return out

    def carry(self, how, o, m):
        """how a loop may change a byte"""
        if how is None:
            return "lmem"
        for k, w, sure in how:
            if (w is None or o - k in w) and (sure or o in m.get("w", ())):
                return "lleft"
        return None

    def goto(self, edge, a, b, c, pos):
        g = self.g
        if (a, b) in edge:
            c = g.lor(edge[(a, b)], c)
        edge[(a, b)] = c

    def join(self, ins):
        g = self.g
        if len(ins) == 1:
            return ins[0][1].copy()
        st = None
        for e, s in ins:
            if st is None:
                st = s.copy()
                continue
            st = self.merge(e, s, st)
        return st

    def unwritten(self, st, base, off, other):
        g = self.g
        if self.plain and g.nodes[base][0] == "in" and \
                off in other.get("w", ()):
            return g.mk(8, "mem", base, g.const(off, 64), -1)
        return self.byte0(st, base, off)

    def only_read(self, base, off, m, other):
        return self.plain and self.g.nodes[base][0] == "in" and \
            off in other.get("w", ()) and off not in m.get("w", ())

    def merge(self, c, a, b):
        g = self.g
        a = a.copy()
        b = b.copy()
        if a.eff != b.eff:
            # opaque reads refer to the history they were made in
            self.flush(a)
            self.flush(b)
        eff = a.eff if a.eff == b.eff else g.ite(c, a.eff, b.eff)
        mem = {}
        for base in set(a.mem) | set(b.mem):
            ma, mb = a.mem.get(base, {}), b.mem.get(base, {})
            m = {}
            for off in set(ma) | set(mb):
                if off == "w":
                    continue
                x = ma.get(off)
                y = mb.get(off)
                if x is None or self.only_read(base, off, ma, mb):
                    x = self.unwritten(a, base, off, mb)
                if y is None or self.only_read(base, off, mb, ma):
                    y = self.unwritten(b, base, off, ma)
                m[off] = x if x == y else g.ite(c, x, y)
            w = ma.get("w", frozenset()) | mb.get("w", frozenset())
            if w:
                m["w"] = w
            mem[base] = m
        return State(mem, eff, a.clob if a.clob == b.clob
                     else g.ite(c, a.clob, b.clob))

    def exit(self, r, st, v):
        g = self.g
        st = st.copy()
        self.flush(st)
        k = g.nodes[v]
        comp = {}
        if k[0] == "tail":
            comp["kind"] = g.mk(0, "next", k[1])
            for n, a in enumerate(k[2:]):
                comp["arg%d" % n] = a
            kind = "next"
            sp = k[3] if len(k) > 3 else None
        else:
            comp["kind"] = g.mk(0, "ret")
            comp["value"] = v
            kind = "ret"
            sp = None
        comp["effects"] = st.eff
        if self.plain:
            good = g.icmp("eq", v, g.const(0, g.w[v])) \
                if self.loose and kind == "ret" else g.const(1, 1)
            top = None
            if sp is not None:
                ks = g.nodes[sp]
                if ks[0] == "ptr" and g.nodes[ks[1]] == ("in", "a1"):
                    top = ks[2]
            for base, m in st.mem.items():
                if g.nodes[base][0] == "in":
                    for off in m.get("w", ()):
                        if self.left(base, off, m[off]):
                            continue
                        if top is not None and off >= top and \
                                g.nodes[base][1] == "a1":
                            continue
                        same = g.mk(8, "mem", base, g.const(off, 64), -1)
                        comp["%s%+d" % (g.nodes[base][1], off)] = g.ite(
                            good, m[off], same)
            self.exits.append((r, kind, comp))
            return
        # cells above the new stack pointer are dead
        top = None
        if sp is not None:
            ks = g.nodes[sp]
            if ks[0] == "ptr" and g.nodes[ks[1]] == ("in", "a1"):
                top = ks[2]
        for base, m in st.mem.items():
            kb = g.nodes[base]
            if kb[0] != "in":
                continue
            for off, x in m.items():
                if off == "w" or x == self.byte0(st, base, off):
                    continue
                if kb[1] == "a1" and top is not None and off >= top:
                    continue
                if kb[1] == "a2" and kind == "ret":
                    continue        # the position of a failed instruction
                if kb[1] == "a1":
                    if kind != "next":
                        continue    # the operands of a failed instruction
                    comp["stack%+d" % off] = x
                else:
                    comp["%s%+d" % (kb[1], off)] = x
        self.exits.append((r, kind, comp))

    # -- instructions
    def instr(self, st, i, b, r):
        f, g = self.f, self.g
        op = i.op
        if op == "alloca":
            n = g.mk(64, "alloca", f.name, i.id)
            self.local[n] = i.d.get("size", 0)
            self.val[i.id] = g.mk(64, "ptr", n, 0)
            return
        if op == "getelementptr":
            p = self.v(i.ops[0])
            off = 0
            for s in i.d["steps"]:
                if s[0] == "o":
                    off += s[1]
                elif s[0] == "f":
                    off += s[3]
                else:
                    self.uw = 64
                    x = self.v(s[2] if not isinstance(s[2], list)
                               else tuple(s[2]))
                    if g.w[x] < 64:
                        x = g.sext(x, 64)
                    c = g.isc(x)
                    if c is not None:
                        off += signed(c, 64) * s[1]
                        continue
                    # index plus constant
                    k = g.nodes[x]
                    if k[0] == "add" and g.isc(k[2]) is not None:
                        off += signed(g.isc(k[2]), 64) * s[1]
                        x = k[1]
                    y = self.negated(s[2])
                    if y is not None:
                        x = g.mk(64, "neg", y)
                    p = g.lift([p, x], lambda q, y: self.pindex(q, s[1], y))
            self.val[i.id] = self.padd(p, off)
            return
        if op == "load":
            p = self.v(i.ops[0])
            n = i.d["size"]
            if (i.d.get("atomic") or i.d.get("volatile")) and not self.plain:
                e = self.event(st, "atomic load", p, n,
                               i.d.get("atomic", 0))
                self.val[i.id] = g.mk(n * 8, "result", e)
            else:
                x = self.load(st, p, n)
                w = width_of(i.ty)
                if w < n * 8:
                    x = g.slice(x, 0, w)
                self.val[i.id] = x
            return
        if op == "store":
            self.uw = i.d["size"] * 8
            x = self.v(i.ops[0])
            p = self.v(i.ops[1])
            if i.d.get("atomic") and not self.plain:
                self.event(st, "atomic store", p, x, i.d["size"],
                           str(i.d["atomic"]))
            else:
                self.store(st, p, x, i.d["size"])
            return
        if op == "cmpxchg":
            p, old, new = (self.v(o) for o in i.ops[:3])
            e = self.event(st, "cmpxchg", p, old, new,
                           str(i.d["atomic"]))
            self.val[i.id] = g.mk(0, "pair", g.mk(g.w[old], "result", e),
                                  g.atom(g.mk(1, "swapped", e)))
            return
        if op == "atomicrmw":
            p, x = (self.v(o) for o in i.ops[:2])
            e = self.event(st, "rmw " + i.d["rmw"], p, x,
                           str(i.d["atomic"]))
            self.val[i.id] = g.mk(g.w[x], "result", e)
            return
        if op == "fence":
            self.event(st, "fence")
            return
        if op == "extractvalue":
            k = g.nodes[self.v(i.ops[0])]
            if k[0] != "pair":
                raise Stuck("extractvalue")
            self.val[i.id] = k[1 + i.d["idx"][0]]
            return
        if op == "call":
            self.call(st, i)
            return
        w = width_of(i.ty)
        self.uw = w
        if op in ("zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint",
                  "inttoptr"):
            x = self.v(i.ops[0])
            if op == "zext":
                x = g.zext(x, w)
            elif op == "sext":
                x = g.sext(x, w)
            elif op == "trunc":
                x = g.slice(x, 0, w)
            elif g.w[x] != w:
                x = g.slice(x, 0, w) if g.w[x] > w else g.zext(x, w)
            self.val[i.id] = x
            return
        if op in ("icmp", "fcmp"):
            a, c = self.two(i)
            self.val[i.id] = getattr(g, op)(i.d["pred"], a, c)
            return
        if op == "select":
            c = self.v(i.ops[0])
            self.val[i.id] = g.ite(c, self.v(i.ops[1]), self.v(i.ops[2]))
            return
        if op in ("and", "or", "xor"):
            a, c = self.two(i)
            self.val[i.id] = g.bitwise(op, a, c)
            return
        if op in ("add", "sub", "mul"):
            a, c = self.two(i)
            self.val[i.id] = g.arith(op, a, c)
            return
        if op in ("shl", "lshr", "ashr"):
            a, c = self.two(i)
            self.val[i.id] = g.shift(op, a, c)
            return
        if op == "fneg":
            x = self.v(i.ops[0])
            self.val[i.id] = g.bitwise("xor", x, g.const(1 << (w - 1), w))
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "sdiv", "udiv", "srem",
                  "urem", "frem"):
            a, c = self.two(i)
            self.val[i.id] = g.op(op, w, a, c, comm=op in COMM)
            return
        if op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext",
                  "fptrunc"):
            x = self.v(i.ops[0])
            self.val[i.id] = g.op(op, w, x)
            return
        raise Stuck("instruction %s" % op)

    def two(self, i):
        for o in i.ops:
            if isinstance(o, int):
                self.uw = self.g.w[self.v(o)]
        return self.v(i.ops[0]), self.v(i.ops[1])

    def negated(self, o):
        """y when the 64-bit o is -y for a 32-bit y, taken to be a count of
        less than 2^31 whichever way it is extended"""
        def of(o, op):
            i = self.f.ins[o] if isinstance(o, int) and o >= 0 else None
            return i if i is not None and i.op == op else None

        def minus(i):
            return i.ops[1] if i and isinstance(i.ops[0], tuple) and \
                self.g.isc(self.v(i.ops[0])) == 0 else None
        i = of(o, "sext")
        y = minus(of(i.ops[0], "sub")) if i else None
        if y is None:
            i = of(minus(of(o, "sub")), "zext")
            y = i.ops[0] if i else None
        if y is None or self.g.w[self.v(y)] != 32:
            return None
        return self.v(y)

    def pindex(self, p, scale, x):
        g = self.g
        c = g.isc(x)
        if c is not None:
            return self.padd(p, (c - ((c >> 63) << 64)) * scale)
        k = g.nodes[x]
        if k[0] == "ite" and g.isc(k[2]) is not None \
                and g.isc(k[3]) is not None:
            return g.ite(g.atom(k[1]), self.pindex(p, scale, k[2]),
                         self.pindex(p, scale, k[3]))
        k = g.nodes[p]
        base, off = self.split(p)
        n = g.mk(64, "pidx", g.mk(64, "ptr", base, 0) if k[0] == "ptr"
                 else p, g.arith("mul", x, g.const(scale, 64)))
        return g.mk(64, "ptr", n, off)

    def arg(self, st, p, depth=3, fills=()):
        """a pointer to a local stands for what the local holds, apart from
        what the callee overwrites without looking at it"""
        g = self.g

        def held(x):
            # a pointer to another local in a local
            if depth == 0:
                return x
            k = g.nodes[x]
            if k[0] == "cat" and len(k[1]) == 1:
                m, l, c = k[1][0]
                km = g.nodes[m]
                if km[0] == "ptr" and g.nodes[km[1]][0] == "alloca":
                    return g.slice(self.arg(st, m, depth - 1), l, c)
            return x
        k = g.nodes[p]
        if k[0] == "ite":
            return g.lift([p], lambda q: self.arg(st, q), 64)
        if k[0] == "ptr" and g.nodes[k[1]][0] == "alloca":
            m = st.mem.get(k[1], {})
            u = g.mk(8, "undef")
            return self.alike([(o, held(x)) for o, x in sorted(
                (o, x) for o, x in m.items() if o != "w"
                and o - k[2] not in fills) if x != u],
                lambda t: g.mk(64, "local", k[2], t))
        return p

    def alike(self, bs, fn, depth=4):
        """fn of the bytes, split by the conditions they have in common"""
        g = self.g
        ts = {g.nodes[x][1] for _, x in bs if g.nodes[x][0] == "ite"}
        if depth == 0 or len(ts) != 1 or \
                any(g.nodes[x][0] != "ite" for _, x in bs):
            return fn(tuple(bs))
        t = ts.pop()
        return g.raw_or_ite(
            t, self.alike([(o, g.nodes[x][2]) for o, x in bs], fn, depth - 1),
            self.alike([(o, g.nodes[x][3]) for o, x in bs], fn, depth - 1))

    def call(self, st, i):
        g = self.g
        name = i.cname
        if name is None:
            name = "*"
        args = []
        for o in i.ops:
            self.uw = 64
            args.append(self.v(o) if not (isinstance(o, tuple) and
                                          o[0] == "md") else None)
        if name == "*":
            c = i.d["callee"]
            args.append(self.v(tuple(c) if isinstance(c, list) else c))
        if name.startswith("llvm."):
            n = name[5:]
            if n.startswith(("lifetime", "dbg", "assume", "experimental",
                             "donothing")):
                return
            if n.startswith(("memcpy", "memmove")):
                c = g.isc(args[2])
                if c is None:
                    k = "move" if n.startswith("memmove") and \
                        not self.moves else "copy"
                    if k == "move":
                        self.moving = True
                    e = self.event(st, k, *[self.arg(st, a)
                                            for a in args[:3]])
                    self.outof(st, args[0], e)
                    return
                x = [self.load(st, self.padd(args[1], k), 1)
                     for k in range(c)]
                for k in range(c):
                    self.store(st, self.padd(args[0], k), x[k], 1)
                return
            if n.startswith("memset"):
                c = g.isc(args[2])
                if c is None:
                    e = self.event(st, "set", *[self.arg(st, a)
                                                for a in args[:3]])
                    self.outof(st, args[0], e)
                    return
                for k in range(c):
                    self.store(st, self.padd(args[0], k), args[1], 1)
                return
            base = n.rsplit(".", 1)[0]
            if base.endswith(".with.overflow"):
                self.val[i.id] = self.overflow(base[:4], *args)
                return
            w = width_of(i.ty)
            if base == "fabs":
                self.val[i.id] = g.bitwise(
                    "and", args[0], g.const((1 << (w - 1)) - 1, w))
                return
            if base == "copysign":
                self.val[i.id] = g.cat([(g.slice(args[0], 0, w - 1), 0, w - 1),
                                        (g.slice(args[1], w - 1, 1), 0, 1)])
                return
            if base == "bswap":
                self.val[i.id] = g.cat([(args[0], w - 8 - 8 * k, 8)
                                        for k in range(w // 8)])
                return
            if base in ("nearbyint", "roundeven"):
                base = "rint"
            if base == "expect":
                self.val[i.id] = args[0]
                return
            if base in ("fshl", "fshr") and g.isc(args[2]) is not None:
                c = g.isc(args[2]) % w
                if base == "fshr":
                    c = (w - c) % w
                    hi, lo = args[0], args[1]
                else:
                    hi, lo = args[0], args[1]
                self.val[i.id] = hi if c == 0 and base == "fshl" else lo \
                    if c == 0 else g.cat(
                        [(g.slice(lo, w - c, c), 0, c),
                         (g.slice(hi, 0, w - c), 0, w - c)])
                return
            if base in ("fshl", "fshr"):
                # only the amount modulo the width matters
                if w & (w - 1) == 0:
                    bits = w.bit_length() - 1
                    args[2] = g.zext(g.slice(args[2], 0, bits), w)
                if args[0] == args[1] and base == "fshr":
                    # rotation right by n is rotation left by -n
                    base = "fshl"
                    neg = g.arith("sub", g.const(0, w), args[2])
                    args[2] = g.zext(g.slice(neg, 0, w.bit_length() - 1), w)
            if base in ("abs", "ctlz", "cttz"):
                args = args[:1]
            if base in ("smin", "smax", "umin", "umax"):
                lt = g.icmp(base[0] + "lt", args[0], args[1])
                if base.endswith("max"):
                    lt = g.lnot(lt)
                self.val[i.id] = g.ite(lt, args[0], args[1])
                return
            if base == "abs":
                neg = g.arith("sub", g.const(0, w), args[0])
                self.val[i.id] = g.ite(g.slice(args[0], w - 1, 1), neg,
                                       args[0])
                return
            if base in ("minnum", "maxnum"):
                self.val[i.id] = self.minmax(base, *args)
                return
            if base in ("sadd.sat", "ssub.sat", "uadd.sat", "usub.sat"):
                ext = g.sext if base[0] == "s" else g.zext
                x = g.arith(base[1:4], ext(args[0], w + 2),
                            ext(args[1], w + 2))
                mx = (1 << (w - 1)) - 1 if base[0] == "s" else (1 << w) - 1
                mn = -(1 << (w - 1)) if base[0] == "s" else 0
                low = g.slice(x, 0, w)
                self.val[i.id] = g.ite(
                    g.icmp("slt", x, g.const(mn, w + 2)), g.const(mn, w),
                    g.ite(g.icmp("sgt", x, g.const(mx, w + 2)),
                          g.const(mx, w), low))
                return
            if base == "ctpop" and w > 32:
                h = [g.op("ctpop", 32, g.slice(args[0], k, 32))
                     for k in range(0, w, 32)]
                x = h[0]
                for y in h[1:]:
                    x = g.arith("add", x, y)
                self.val[i.id] = g.zext(x, w)
                return
            self.val[i.id] = g.op(base, w, *args, comm=base in COMM)
            return
        if name in self.mute:
            if i.ty != "void":
                self.val[i.id] = g.const(0, width_of(i.ty))
            return
        if name in CELLS and self.plain:
            dst, src, n = (args[k] for k in CELLS[name])
            n = g.arith("mul", g.zext(n, 64), g.const(4, 64))
            c = g.isc(n)
            if c is None:
                e = self.event(st, "copy", *[self.arg(st, a)
                                             for a in (dst, src, n)])
                self.outof(st, dst, e)
                return
            x = [self.load(st, self.padd(src, k), 1) for k in range(c)]
            for k in range(c):
                self.store(st, self.padd(dst, k), x[k], 1)
            return
        if name == "valtype_cellsize" and g.isc(args[0]) in CELLSIZE:
            self.val[i.id] = g.const(CELLSIZE[g.isc(args[0])], 32)
            return
        ign = self.ignore.get(name)
        every = args
        fills = {}
        if i.callee is not None:
            for n, a in enumerate(args):
                k = g.nodes[a]
                if k[0] == "ptr" and g.nodes[k[1]][0] == "alloca":
                    fills[a] = mods.argfills(self.f.prog, i.callee, n)
        if ign is not None:
            args = [a if g.isc(a) is None else g.const(g.isc(a), 64)
                    for n, a in enumerate(args) if n in ign]
        if i.d.get("musttail"):
            self.val[i.id] = g.mk(0, "tail", name,
                                  *[self.arg(st, a) for a in args])
            return
        if name in ("fmin", "fminf", "fmax", "fmaxf"):
            self.val[i.id] = self.minmax("minnum" if "min" in name
                                         else "maxnum", *args)
            return
        if name in ("sqrt", "sqrtf"):
            self.val[i.id] = g.op("sqrt", width_of(i.ty), args[0])
            return
        if name in ("memcpy", "memmove", "memset") and \
                g.isc(args[2]) is not None:
            raise Stuck("library copy")
        if name in PURE or self.keep is not None and name not in self.keep:
            e = g.mk(0, "pure", name, *[self.arg(st, a) for a in args])
        else:
            met = self.reaches(i, every)
            e = self.event(st, name, *[self.arg(st, a, 3, fills.get(a, ()))
                                       for a in args],
                           *self.shown(st, met),
                           near=self.near(i.callee, every))
            self.changed(st, met, e)
        if ("advance", name) in self.given:
            # moves the pointer its first argument designates
            w = self.given[("advance", name)]
            x = self.load(st, every[0], 8)
            if g.nodes[x][0] == "cat":
                x = g.mk(64, "ptr", x, 0)
            self.store(st, every[0], self.padd(x, w), 8)
            self.store(st, every[2], self.load(st, x, w), w)
            every = []
        # what it stores through pointers to locals
        for n, a in enumerate(every):
            k = g.nodes[a]
            if k[0] == "ptr" and g.nodes[k[1]][0] == "alloca":
                size = self.local[k[1]]
                x = self.given.get((name, n))
                if x is not None:
                    st.mem[k[1]] = {k[2] + o: g.const(x >> 8 * o & 255, 8)
                                    for o in range(min(size, 8))}
                    continue
                st.mem[k[1]] = {o: g.choose(
                    lambda q: g.mk(8, "out", q, n, o - k[2]), e)
                    for o in range(size)}
        if i.ty != "void":
            w = width_of(i.ty)
            x = g.choose(lambda q: g.mk(w, "result", q), e)
            if name in self.given:
                x = g.const(self.given[name], w)
            elif name in self.retval:
                x = g.const(self.retval[name], w)
            elif w == 1 or self.plain and i.callee is not None and \
                    mods.truth(self.f.prog, i.callee):
                x = g.zext(g.lift([e], lambda q: g.atom(
                    g.mk(1, "result", q)), 64), w)
            self.val[i.id] = x

    def outof(self, st, p, e):
        """a library function filled what the pointer designates"""
        g = self.g
        k = g.nodes[p]
        if k[0] == "ptr" and g.nodes[k[1]][0] == "alloca":
            st.mem[k[1]] = {o: g.choose(
                lambda q: g.mk(8, "out", q, 0, o - k[2]), e)
                for o in range(self.local[k[1]])}

    def overflow(self, op, a, b):
        """the pair of a wrapped result and whether it wrapped"""
        g = self.g
        w = g.w[a]
        if op == "uadd":
            x = g.arith("add", g.zext(a, w + 1), g.zext(b, w + 1))
            return g.mk(0, "pair", g.arith("add", a, b), g.slice(x, w, 1))
        if op == "usub":
            return g.mk(0, "pair", g.arith("sub", a, b),
                        g.icmp("ult", a, b))
        if op == "umul":
            c = g.isc(b)
            if c:
                o = g.icmp("ugt", a, g.const(((1 << w) - 1) // c, w))
            else:
                x = g.arith("mul", g.zext(a, 2 * w), g.zext(b, 2 * w))
                o = g.icmp("ne", g.slice(x, w, w), g.const(0, w))
            return g.mk(0, "pair", g.arith("mul", a, b), o)
        ext = {"sadd": "add", "ssub": "sub", "smul": "mul"}[op]
        x = g.arith(ext, g.sext(a, 2 * w), g.sext(b, 2 * w))
        low = g.slice(x, 0, w)
        return g.mk(0, "pair", low, g.icmp("ne", x, g.sext(low, 2 * w)))

    def minmax(self, base, a, b):
        """C's fmin and fmax: only what they guarantee"""
        g = self.g
        other = g.op(base, g.w[a], a, b, comm=True)
        lo, hi = (a, b) if base == "minnum" else (b, a)
        return g.ite(g.lor(g.fnan(a), g.fnan(b)), other,
                     g.ite(g.flt(a, b), lo, g.ite(g.flt(b, a), hi, other)))

    # -- the outcome as one choice per component
    def outcome(self, name, unreached="none"):
        g = self.g
        none = g.mk(0, "none")
        r = g.mk(0, unreached)
        for reach, kind, comp in self.exits:
            x = comp.get(name)
            if x is None:
                if not self.plain and name.startswith(("stack", "a0", "a1", "a2")) and \
                        (kind == "next" or not name.startswith("stack")):
                    x = self.default(name)
                elif self.plain and name[0] == "a" and name[1].isdigit():
                    b = name[1:].replace("-", "+-").split("+", 1)
                    x = g.mk(8, "mem", g.mk(64, "in", "a" + b[0]),
                             g.const(int(b[1]), 64), -1)
                else:
                    x = none
            r = g.ite(reach, x, r)
        return r

    def default(self, name):
        g = self.g
        base = "a1" if name.startswith("stack") else name[:2]
        off = int(name[5 if name.startswith("stack") else 2:])
        n = int(base[1:])
        b = g.mk(64, "in", base)
        return g.mk(8, "mem", b, g.const(off, 64), -1)

    def prune(self):
        """forget what is carried round a loop and never used"""
        g = self.g
        seen = set()

        def walk(*todo):
            todo = list(todo)
            while todo:
                n = todo.pop()
                if n in seen or not 0 <= n < len(g.nodes):
                    continue
                seen.add(n)
                k = g.nodes[n]
                if k[0] == "c":
                    continue
                if k[0] == "ptr":
                    todo.append(k[1])
                elif k[0] in ("lphi", "lmem", "lleft"):
                    todo += [k[1], k[3]]
                elif k[0] == "cat":
                    todo += [p[0] for p in k[1]]
                else:
                    for x in k[1:]:
                        if isinstance(x, tuple):
                            todo += [p[1] for p in x if isinstance(p, tuple)
                                     and len(p) == 2]
                        elif isinstance(x, int):
                            todo.append(x)
        rest = []
        for r, kind, comp in self.exits:
            walk(r)
            for name, x in comp.items():
                if name[:3] in ("phi", "mem") and name[3:].isdigit():
                    rest.append((int(name[3:]), comp, name, g.care(x, r)))
                else:
                    walk(g.care(x, r))
        while True:
            live = [x for x in rest if x[0] in seen]
            if not live:
                break
            rest = [x for x in rest if x[0] not in seen]
            walk(*(x[3] for x in live))
        for _, comp, name, _ in rest:
            del comp[name]

    def components(self):
        s = set()
        for _, kind, comp in self.exits:
            s |= set(comp)
        s.add("kind")
        return s

    def kindmap(self):
        g = self.g
        for n, (r, kind, comp) in enumerate(self.exits):
            comp.setdefault("kind", g.mk(0, kind))


def intervals(g, path):
    """{node: [smin, smax, umin, umax]} from comparisons with constants"""
    iv = {}

    def get(x):
        w = g.w[x]
        return iv.setdefault(x, [-(1 << (w - 1)), (1 << (w - 1)) - 1,
                                 0, (1 << w) - 1])
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] not in ("eq", "ult", "slt"):
            continue
        x, v = k[1], g.isc(k[2])
        if v is None:
            continue
        w = g.w[x]
        r = get(x)
        if k[0] == "slt":
            v = signed(v, w)
            if t:
                r[1] = min(r[1], v - 1)
            else:
                r[0] = max(r[0], v)
        elif k[0] == "ult":
            if t:
                r[3] = min(r[3], v - 1)
            else:
                r[2] = max(r[2], v)
        elif t:
            s = signed(v, w)
            r[0], r[1] = max(r[0], s), min(r[1], s)
            r[2], r[3] = max(r[2], v), min(r[3], v)
    for x, r in iv.items():
        w = g.w[x]
        h = 1 << (w - 1)
        m, l, c = g.pieces(x)[-1]
        top = g.ids.get((1, "bit", m, l + c - 1))
        t = path.get(top) if top is not None else None
        if t is True:
            r[1] = min(r[1], -1)
        elif t is False:
            r[0] = max(r[0], 0)
        for _ in range(2):
            # one signedness bounds the other
            if r[0] >= 0 or r[3] < h:
                r[0], r[1] = max(r[0], r[2]), min(r[1], r[3])
                r[2], r[3] = max(r[0], r[2]), min(r[1], r[3])
            elif r[1] < 0 or r[2] >= h:
                r[0], r[1] = max(r[0], r[2] - 2 * h), min(r[1],
                                                          r[3] - 2 * h)
                r[2], r[3] = r[0] + 2 * h, r[1] + 2 * h
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] == "eq" and not t and g.isc(k[2]) is not None:
            v = g.isc(k[2])
            r = iv[k[1]] if k[1] in iv else get(k[1])
            s = signed(v, g.w[k[1]])
            for lo, hi, c in ((0, 1, s), (2, 3, v)):
                r[lo] += r[lo] == c
                r[hi] -= r[hi] == c
    return iv


def _relations(g, path):
    """float comparisons with constants per value, and pairwise relations"""
    fv = {}
    pairs = {}
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] in ("eq", "ult", "slt"):
            x, y = k[1], k[2]
            if g.isc(y) is None:
                p = pairs.setdefault((k[0][0], min(x, y), max(x, y)), {})
                p[(k[0], x < y)] = t
        elif k[0] in ("flt", "feq", "fnan"):
            if k[0] == "fnan":
                fv.setdefault(k[1], []).append(("nan", None, t))
                continue
            x, y = k[1], k[2]
            w = g.w[x]
            cx, cy = g.isc(x), g.isc(y)
            if cy is not None:
                fv.setdefault(x, []).append((k[0], fval(cy, w), t))
            elif cx is not None:
                fv.setdefault(y, []).append(
                    ("fgt" if k[0] == "flt" else k[0], fval(cx, w), t))
            else:
                p = pairs.setdefault(("f", min(x, y), max(x, y)), {})
                p[(k[0], x < y)] = t
    return fv, pairs


def feasible(g, path):
    """is a set of (atom, truth) consistent?  Only comparisons of the same
    quantity with constants, and the order relations of a pair, are related."""
    iv = intervals(g, path)
    for r in iv.values():
        if r[0] > r[1] or r[2] > r[3]:
            return False
    fv, pairs = _relations(g, path)
    for x, cs in fv.items():
        if not _ffeas(cs):
            return False
    nan = {x: [t for c, _, t in cs if c == "nan"][0] for x, cs in fv.items()
           if any(c == "nan" for c, _, _ in cs)}
    for (kind, x, y), p in pairs.items():
        if kind == "f":
            tr = [q for q, t in p.items() if t]
            if len(tr) > 1:
                return False
            if tr and (nan.get(x) or nan.get(y)):
                return False
            if len(p) == 3 and not tr and nan.get(x) is False and \
                    nan.get(y) is False:
                return False
        elif sum(1 for t in p.values() if t) > 1:
            return False
    # an order against what is known of both sides
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] in ("ult", "slt", "eq") and g.isc(k[2]) is None and \
                (k[1] in iv or k[2] in iv):
            b = []
            for x in k[1:]:
                if x in iv:
                    b.append(iv[x])
                else:
                    w = g.w[x]
                    lo, hi = g.rng(x)
                    if lo < 0:
                        lo, hi = 0, (1 << w) - 1
                    b.append([-(1 << (w - 1)), (1 << (w - 1)) - 1, lo, hi])
            lo, hi = (0, 1) if k[0] == "slt" else (2, 3)
            if k[0] == "eq":
                if t and (b[0][hi] < b[1][lo] or b[1][hi] < b[0][lo]):
                    return False
            elif t and b[0][lo] >= b[1][hi]:
                return False
            elif not t and b[0][hi] < b[1][lo]:
                return False
    # a known bit against a known value
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] == "bit" and k[1] in iv:
            r = iv[k[1]]
            if r[2] == r[3] and bool((r[2] >> k[2]) & 1) != t:
                return False
    return True


def _ffeas(cs):
    return _frange(cs) is not False


def _frange(cs):
    """False when no value satisfies cs, None when a NaN may, otherwise the
    interval (lo, lo_open, hi, hi_open)"""
    nan = None
    lo, hi = float("-inf"), float("inf")
    lo_open = hi_open = False
    ne = []
    other = False
    for c, v, t in cs:
        if c == "nan":
            if nan is not None and nan != t:
                return False
            nan = t
    if nan:
        if any(t for c, v, t in cs if c != "nan"):
            return False
        return None
    cons = []
    for c, v, t in cs:
        if c == "nan" or v != v:
            continue
        cons.append((c, v, t))
    if nan is None and not any(t for c, v, t in cons):
        return None         # NaN satisfies it
    for c, v, t in cons:
        if c == "flt" and t or c == "fgt" and not t:
            strict = c == "flt"
            if v < hi or v == hi and strict:
                hi, hi_open = v, strict
        elif c == "fgt" and t or c == "flt" and not t:
            strict = c == "fgt"
            if v > lo or v == lo and strict:
                lo, lo_open = v, strict
        elif c == "feq" and t:
            if v > lo:
                lo, lo_open = v, False
            if v < hi:
                hi, hi_open = v, False
            if v < lo or v > hi:
                return False
        else:
            ne.append(v)
    if lo > hi or lo == hi and (lo_open or hi_open):
        return False
    if lo == hi and lo in ne:
        return False
    return lo, lo_open, hi, hi_open


def known(g, path):
    """what a path says about single values: {node: constant node or node},
    {(node, bit): value}"""
    eq = {}
    bits = {}
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] == "bit":
            bits[(k[1], k[2])] = t
        elif k[0] == "eq" and t and g.isc(k[2]) is None:
            eq[k[2]] = k[1]
    for x, r in intervals(g, path).items():
        if r[0] == r[1]:
            eq[x] = g.const(r[0], g.w[x])
        elif r[2] == r[3]:
            eq[x] = g.const(r[2], g.w[x])
        elif r[3].bit_length() < g.w[x]:
            # the bits above those of the largest value
            at = 0
            for m, l, c in g.pieces(x):
                if g.nodes[m][0] != "c":
                    for b in range(max(r[3].bit_length() - at, 0), c):
                        bits[(m, l + b)] = False
                at += c
    # equal to something that is a number
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] == "eq" and t and g.isc(k[2]) is None:
            for x, y in (k[1:], k[:0:-1]):
                if x in eq and g.isc(eq[x]) is not None:
                    eq[y] = eq[x]
    for x in list(eq):
        v = g.isc(eq[x])
        if v is None or g.nodes[x][0] != "cat":
            continue
        at = 0
        for m, l, c in g.pieces(x):
            if l == 0 and c == g.w[m]:
                eq[m] = g.const(v >> at, c)
            else:
                for b in range(c):
                    bits[(m, l + b)] = bool((v >> (at + b)) & 1)
            at += c
    # neither below nor above
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] in ("ult", "slt") and not t:
            b = g.ids.get((1, k[0], k[2], k[1]))
            if b is not None and path.get(b) is False:
                eq[max(k[1], k[2])] = min(k[1], k[2])
    # equal floats of the same sign are the same bits
    same = [g.nodes[a][1:] for a, t in path.items()
            if t and g.nodes[a][0] == "feq"]
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] == "flt" and not t and \
                path.get(g.ids.get((1, "flt", k[2], k[1]))) is False and \
                all(path.get(g.ids.get((1, "fnan", x))) is False
                    for x in k[1:]):
            same.append(k[1:])
    for k in same:
        k = ("feq",) + tuple(k)
        if g.isc(k[1]) is None and g.isc(k[2]) is None:
            tops = []
            for x in k[1:]:
                m, l, c = g.pieces(x)[-1]
                tops.append(bits.get((m, l + c - 1)))
            if tops[0] is not None and tops[0] == tops[1]:
                for (m, l, c), (m2, l2, c2) in zip(g.pieces(k[1]),
                                                   g.pieces(k[2])):
                    if (l, c) == (l2, c2) == (0, g.w[m]) and \
                            g.w[m] == g.w[m2]:
                        eq[max(m, m2)] = min(m, m2)
                eq[max(k[1:])] = min(k[1:])
    fr = {}
    for x, cs in _relations(g, path)[0].items():
        r = _frange(cs)
        if r:
            fr[x] = r
    return eq, bits, fr


def under(g, n, kn, depth=4):
    """n rewritten with what is known"""
    eq, bits, fr = kn
    if n in eq:
        return eq[n]
    k = g.nodes[n]
    if depth == 0:
        return n
    if k[0] == "cat" or any((n, b) in bits for b in range(g.w[n])):
        out = []
        whole = g.pieces(n) if k[0] == "cat" else [(n, 0, g.w[n])]
        for m, l, c in whole:
            if m in eq:
                out.append((eq[m], l, c))
                continue
            m2 = under(g, m, kn, depth - 1) if m != n else m
            if m2 != m:
                out.append((m2, l, c))
                continue
            at = l
            for b in range(l, l + c):
                if (m, b) in bits:
                    if b > at:
                        out.append((m, at, b - at))
                    out.append((g.const(bits[(m, b)], 1), 0, 1))
                    at = b + 1
            if at < l + c:
                out.append((m, at, l + c - at))
        return g.cat(out)
    if k[0] in ("add", "sub", "mul"):
        return g.arith(k[0], under(g, k[1], kn, depth - 1),
                       under(g, k[2], kn, depth - 1))
    if k[0] in ("and", "or", "xor"):
        return g.bitwise(k[0], under(g, k[1], kn, depth - 1),
                         under(g, k[2], kn, depth - 1))
    if k[0] in ("shl", "lshr", "ashr"):
        return g.shift(k[0], under(g, k[1], kn, depth - 1),
                       under(g, k[2], kn, depth - 1))
    if k[0] == "fshl":
        if g.isc(under(g, k[3], kn, depth - 1)) == 0:
            return under(g, k[1], kn, depth - 1)
    if k[0] in ("fptosi", "fptoui"):
        x = k[1]
        if g.nodes[x][0] == "trunc" and g.w[x] == g.w[g.nodes[x][1]]:
            x = g.nodes[x][1]
        if x in fr:
            lo, lo_open, hi, hi_open = fr[x]
            if lo_open:
                lo = math.nextafter(lo, math.inf)
            if hi_open:
                hi = math.nextafter(hi, -math.inf)
            if not math.isinf(lo) and not math.isinf(hi) and \
                    int(lo) == int(hi):
                return g.const(int(lo), g.w[n])
    return n


def consistent(g, path, kn):
    """do the conditions still agree after what is known is put into them?"""
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] not in ("eq", "ult", "slt"):
            continue
        own = (dict(kn[0]), kn[1], kn[2])
        if k[0] == "eq":
            own[0].pop(k[1], None)
            own[0].pop(k[2], None)
        x, y = under(g, k[1], own), under(g, k[2], own)
        if (x, y) == k[1:]:
            continue
        c = g.icmp(k[0], x, y)
        if g.isc(c) is not None:
            if bool(g.isc(c)) != t:
                return False
            continue
        kc = g.nodes[c]
        if kc[0] == "ite" and g.isc(kc[2]) is not None and \
                g.isc(kc[3]) is not None and kc[1] in path and \
                path[kc[1]] != (t == bool(g.isc(kc[2]))):
            return False
    return True


LEAF = {"c", "in", "sp", "alloca", "global", "undef", "start", "none", "hist",
        "poison", "ret"}


def content(prog, o, depth=4):
    """what a constant holds, when it is small"""
    if not isinstance(o, str):
        if o[0] in ("agg", "arr"):
            out = []
            for x in o[1]:
                x = content(prog, x, depth)
                if x is None:
                    return None
                out.append(x)
            return "{%s}" % ",".join(out)
        if o[0] == "c":
            return "%d:%d" % (o[1], o[2])
        if o[0] == "str":
            return '"%s"' % o[1]
        if o[0] in ("zero", "null"):
            return "0"
        if o[0] == "undef":
            return "?"
        return None
    d = prog.globals.get(o[1:])
    if d is None:
        return o.split(".")[0]
    if "init" not in d:
        # declared here, private to another file
        same = [x for n, x in prog.globals.items() if "init" in x and
                n.split(".")[0] == o[1:].split(".")[0]]
        if len(same) == 1:
            d = same[0]
    if not d["const"] or "init" not in d or d.get("size", 999) > 256 or \
            depth == 0:
        return None
    if d["init"][0] == "str":
        return '"%s"' % (d["init"][1][:-1] if d["init"][1][-1:] == "\0"
                         else d["init"][1])
    return content(prog, d["init"], depth - 1)


def small_cmp(op, a, b, w, flip):
    if flip:
        a, b = b, a
    if op == "eq":
        return a == b
    if op == "slt":
        h = 1 << (w - 1)
        a, b = (a ^ h) - h, (b ^ h) - h
    return a < b


class Deep:
    """nodes rewritten, all the way down, with what a path says"""

    def __init__(self, g, path):
        self.g = g
        self.kn = known(g, path)
        self.path = dict(path)
        self.memo = {}
        self.told = (None, {})
        self.ok = True
        self.open = []      # choices inside the conditions
        self.small = narrow(g, path) or {}
        self.same = {}
        self.put = False
        # the conditions in the words of the other conditions
        self.restate(path)
        for a, t in path.items():
            k = g.nodes[a]
            if t and k[0] == "eq" and g.isc(k[1]) is None and \
                    g.isc(k[2]) is None and g.top(k[1]) is None and \
                    g.top(k[2]) is None:
                self.same[max(k[1:])] = min(k[1:])
        if self.same and self.ok:
            self.memo = {}
            self.restate(path)
        # from here on, numbers for what they are known to be
        self.memo = {}
        self.put = True
        if self.ok:
            self.agree(path)
        for _ in range(2):
            if not self.ok or not self.learnt(path):
                break
            path = dict(self.path)
            self.kn = known(g, path)
            self.memo = {}
            self.agree(path)

    def learnt(self, path):
        """something found to be a number on the way"""
        g = self.g
        return any(t and a not in path and g.nodes[a][0] == "eq" and
                   g.isc(g.nodes[a][2]) is not None
                   for a, t in self.path.items())

    def agree(self, path):
        """two conditions that come to be the same have one outcome"""
        g = self.g
        for a, t in path.items():
            k = g.nodes[a]
            if k[0] == "result":
                x = g.mk(1, "result", self(k[1]))
            elif k[0] == "eq" and t and self.same.get(max(k[1:])) == \
                    min(k[1:]):
                memo, self.memo = self.memo, {}
                y = self.same.pop(max(k[1:]))
                x = g.icmp("eq", self(k[1]), self(k[2]))
                self.same[max(k[1:])] = y
                self.memo = memo
            elif k[0] == "ult" or k[0] in ("eq", "slt") and \
                    g.isc(k[1]) is None and g.isc(k[2]) is None:
                x = g.icmp(k[0], self(k[1]), self(k[2]))
            elif k[0] == "eq" and g.isc(k[2]) is not None and \
                    g.nodes[k[1]][0] == "result":
                x = g.icmp("eq", g.mk(g.w[k[1]], "result",
                                      self(g.nodes[k[1]][1])), k[2])
            elif k[0] == "eq" and g.isc(k[2]) is not None and \
                    g.nodes[k[1]][0] == "cat":
                x = g.icmp("eq", self(k[1]), k[2])
            else:
                continue
            kx = g.nodes[x]
            if kx[0] == "ite" and g.isc(kx[2]) is not None and \
                    g.isc(kx[3]) is not None:
                t = t == bool(g.isc(kx[2]))
                x = kx[1]
            elif kx[0] == "c":
                self.ok = self.ok and bool(kx[1]) == t
                continue
            if self.path.setdefault(x, t) != t:
                self.ok = False
                return
        self.memo = {}

    def restate(self, path):
        g = self.g
        for a, t in path.items():
            k = g.nodes[a]
            if k[0] not in ("eq", "ult", "slt", "bit"):
                continue
            c = self.cond(a)
            kc = g.nodes[c]
            while kc[0] == "ite" and kc[1] in self.path and not (
                    g.isc(kc[2]) is not None and g.isc(kc[3]) is not None):
                c = kc[2] if self.path[kc[1]] else kc[3]
                kc = g.nodes[c]
            v = g.isc(c)
            if v is not None:
                if bool(v) != t:
                    self.ok = False
                continue
            kc = g.nodes[c]
            if kc[0] == "ite" and g.isc(kc[2]) is not None and \
                    g.isc(kc[3]) is not None:
                ka = g.nodes[kc[1]]
                if ka[0] in ("eq", "ult", "slt"):
                    self.open += [q for q in (g.top(ka[1]), g.top(ka[2]))
                                  if q is not None and q not in path]
                v = t == bool(g.isc(kc[2]))
                if self.path.setdefault(kc[1], v) != v:
                    self.ok = False
            elif kc[0] == "ite" and kc[1] not in path:
                self.open.append(kc[1])

    def cond(self, a):
        g = self.g
        k = g.nodes[a]
        if k[0] == "bit":
            v = self.kn[1].get((k[1], k[2])) if self.put else None
            if v is not None:
                return g.const(int(v), 1)
            return g.slice(self(k[1]), k[2], 1)
        if k[0] == "eq" and self.same.get(max(k[1:])) == min(k[1:]):
            return g.const(1, 1)
        if k[0] != "bit":
            for n, c, flip in ((k[1], k[2], False), (k[2], k[1], True)):
                c = g.isc(c)
                if c is None or n not in self.small:
                    continue
                w = g.w[n]
                rs = {small_cmp(k[0], v, c, w, flip) for v in self.small[n]}
                if len(rs) == 1:
                    return g.const(int(rs.pop()), 1)
        return g.icmp(k[0], self(k[1]), self(k[2]))

    def __call__(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.get(n)
            if self.put and n in self.bits() and self.g.isc(r) is None:
                bs = self.bits()[n]
                r = self.g.cat([(r, b, 1) if bs.get(b) is None
                                else (self.g.const(int(bs[b]), 1), 0, 1)
                                for b in range(self.g.w[n])])
            self.memo[n] = r
        return r

    def bits(self):
        """the single bits the path tells, by node"""
        if self.told[0] is not self.kn:
            d = {}
            for (n, b), v in self.kn[1].items():
                if v is not None and self.g.nodes[n][0] in LEAF:
                    d.setdefault(n, {})[b] = v
            self.told = (self.kn, d)
        return self.told[1]

    def get(self, n):
        g = self.g
        k = g.nodes[n]
        c = self.kn[0].get(n) if self.put else None
        if c is not None and g.isc(c) is not None:
            return c
        if k[0] in LEAF and len(k) < 3:
            return n
        if n in self.path:
            return g.const(int(self.path[n]), 1)
        if n in self.same:
            return self(self.same[n])
        if k[0] == "ite":
            t = self.path.get(k[1])
            if t is None and g.nodes[k[1]][0] in ("eq", "ult", "slt", "bit"):
                c = self.cond(k[1])
                kc = g.nodes[c]
                if kc[0] == "c":
                    t = bool(kc[1])
                elif kc[0] == "ite":
                    t = self.path.get(kc[1])
                    if t is None:
                        return g.ite(c, self(k[2]), self(k[3]))
                    c = kc[2] if t else kc[3]
                    t = bool(g.isc(c)) if g.isc(c) is not None else None
            if t is None:
                return g.raw_or_ite(k[1], self(k[2]), self(k[3]))
            return self(k[2] if t else k[3])
        if k[0] == "ptr":
            b = self(k[1])
            kb = g.nodes[b]
            if kb[0] == "ptr":
                return g.mk(64, "ptr", kb[1], kb[2] + k[2])
            return g.mk(64, "ptr", b, k[2]) if b != k[1] else n
        if k[0] == "bit":
            return self.cond(n)
        if k[0] == "cat":
            ps = []
            for m, l, c in k[1]:
                vs = self.small.get(m)
                if vs is None:
                    x = self(m)
                    for b in range(l, l + c):
                        v = self.kn[1].get((m, b)) if self.put else None
                        ps.append((x, b, 1) if v is None
                                  else (g.const(int(v), 1), 0, 1))
                    continue
                for b in range(l, l + c):
                    bs = {(v >> b) & 1 for v in vs}
                    ps.append((g.const(bs.pop(), 1), 0, 1) if len(bs) == 1
                              else (self(m), b, 1))
            return g.cat(ps)
        if k[0] in ("lphi", "lmem", "lleft"):
            return g.mk(g.w[n], k[0], self(k[1]), k[2], self(k[3]))
        if k[0] == "local":
            return g.mk(g.w[n], "local", k[1],
                        tuple((o, self(x)) for o, x in k[2]))
        if k[0] == "wr":
            return g.mk(g.w[n], "wr", self(k[1]),
                        tuple((o, self(x)) for o, x in k[2]))
        if k[0] == "out":
            return g.mk(g.w[n], "out", self(k[1]), k[2], k[3])
        if k[0] in ("add", "sub", "mul"):
            return g.arith(k[0], self(k[1]), self(k[2]))
        if k[0] in ("and", "or", "xor"):
            return g.bitwise(k[0], self(k[1]), self(k[2]))
        if k[0] in ("shl", "lshr", "ashr"):
            return g.shift(k[0], self(k[1]), self(k[2]))
        if k[0] in ("eq", "ult", "slt"):
            return self.cond(n)
        args = [self(x) if isinstance(x, int) and not isinstance(x, bool)
                and x >= 0 else x for x in k[1:]]
        if k[0] == "writes":
            return g.writes(args[0], args[1:])
        if k[0] == "hist":
            args = args[:1] + sorted(args[1:])
        return g.mk(g.w[n], k[0], *args)


def apart(g, x, y):
    """a condition inside two nodes that may tell where they are the same"""
    while x != y:
        kx, ky = g.nodes[x], g.nodes[y]
        for k in (kx, ky):
            if k[0] == "ite":
                return k[1]
        if kx[0] != ky[0] or len(kx) != len(ky) or kx[0] in LEAF:
            return None
        if kx[0] == "cat":
            if len(kx[1]) != len(ky[1]):
                return None
            ps = [(p[0], q[0]) for p, q in zip(kx[1], ky[1])]
        elif kx[0] in ("local", "wr"):
            if [o for o, _ in kx[2]] != [o for o, _ in ky[2]]:
                return None
            ps = [(p, q) for (_, p), (_, q) in zip(kx[2], ky[2])]
            if kx[0] == "wr":
                ps.insert(0, (kx[1], ky[1]))
        elif kx[0] in ("ptr", "bit", "out"):
            ps = [(kx[1], ky[1])]
        elif kx[0] in ("lphi", "lmem", "lleft"):
            ps = [(kx[1], ky[1]), (kx[3], ky[3])]
        else:
            ps = [(p, q) for p, q in zip(kx[1:], ky[1:])
                  if isinstance(p, int) and isinstance(q, int)]
        for p, q in ps:
            if p != q and p >= 0 and q >= 0:
                x, y = p, q
                break
        else:
            return None
    return None


def narrow(g, path):
    """the values left for every small number the path speaks of, or None
    when there is none"""
    sets = {}
    for a, t in path.items():
        k = g.nodes[a]
        if k[0] == "bit":
            n, test = k[1], lambda v, k=k: bool((v >> k[2]) & 1)
        elif k[0] in ("eq", "ult", "slt") and g.isc(k[2]) is not None:
            c, w = g.isc(k[2]), g.w[k[1]]
            ps = g.pieces(k[1]) if g.nodes[k[1]][0] == "cat" \
                else [(k[1], 0, w)]
            if k[0] == "slt":
                continue
            # one number with zeros above it
            while len(ps) > 1 and g.isc(ps[-1][0]) == 0:
                ps = ps[:-1]
            if len(ps) != 1:
                continue
            n, l, b = ps[0]
            if k[0] == "eq":
                def test(v, l=l, b=b, c=c):
                    return (v >> l) & ((1 << b) - 1) == c
            else:
                def test(v, l=l, b=b, c=c):
                    return (v >> l) & ((1 << b) - 1) < c
        else:
            continue
        if g.w[n] > 8:
            continue
        vs = sets.get(n, range(1 << g.w[n]))
        sets[n] = [v for v in vs if test(v) == t]
        if not sets[n]:
            return None
    return sets


FEW = 10
BITOPS = ("cat", "add", "sub", "and", "or", "xor", "eq", "ult", "slt", "bit")


def few(g, n, memo):
    """the single bits a value is made of, or None when there are many"""
    if n in memo:
        return memo[n]
    k = g.nodes[n]
    r = set()
    if k[0] == "c":
        pass
    elif k[0] == "cat":
        for m, l, c in k[1]:
            if g.nodes[m][0] in BITOPS or g.nodes[m][0] == "c":
                x = few(g, m, memo)
            else:
                x = {(m, b) for b in range(l, l + c)}
            if x is None or len(r | x) > FEW:
                r = None
                break
            r = r | x
    elif k[0] == "bit" and g.nodes[k[1]][0] not in BITOPS:
        r = {(k[1], k[2])}
    elif k[0] in BITOPS:
        for m in (k[1:2] if k[0] == "bit" else k[1:3]):
            x = few(g, m, memo)
            if x is None or len(r | x) > FEW:
                r = None
                break
            r = r | x
    elif g.w[n] <= FEW:
        r = {(n, b) for b in range(g.w[n])}
    else:
        r = None
    memo[n] = r
    return r


def value(g, n, bits, memo):
    """a value whose bits are given"""
    if n in memo:
        return memo[n]
    k = g.nodes[n]
    w = g.w[n]
    if k[0] == "c":
        r = k[1]
    elif k[0] == "cat":
        r = at = 0
        for m, l, c in k[1]:
            if g.nodes[m][0] in BITOPS or g.nodes[m][0] == "c":
                v = value(g, m, bits, memo) >> l
            else:
                v = sum(bits[(m, l + b)] << b for b in range(c))
            r |= (v & ((1 << c) - 1)) << at
            at += c
    elif k[0] == "bit" and g.nodes[k[1]][0] not in BITOPS:
        r = bits[(k[1], k[2])]
    elif k[0] == "bit":
        r = (value(g, k[1], bits, memo) >> k[2]) & 1
    elif k[0] in BITOPS:
        x, y = value(g, k[1], bits, memo), value(g, k[2], bits, memo)
        if k[0] in ("eq", "ult", "slt"):
            r = int(small_cmp(k[0], x, y, g.w[k[1]], False))
        else:
            r = {"add": x + y, "sub": x - y, "and": x & y, "or": x | y,
                 "xor": x ^ y}[k[0]] & ((1 << w) - 1)
    else:
        r = sum(bits[(n, b)] << b for b in range(w))
    memo[n] = r
    return r


def possible(g, path):
    """false when no choice of a few bits meets what the path says"""
    memo = {}
    groups = []
    for a, t in path.items():
        if g.nodes[a][0] not in ("eq", "ult", "slt", "bit"):
            continue
        vs = few(g, a, memo)
        if not vs:
            continue
        own = (set(vs), [(a, t)])
        for q in [q for q in groups if q[0] & vs]:
            if len(own[0] | q[0]) > FEW:
                continue
            groups.remove(q)
            own = (own[0] | q[0], own[1] + q[1])
        groups.append(own)
    for vs, conds in groups:
        if len(conds) < 2:
            continue
        vs = sorted(vs)
        for v in range(1 << len(vs)):
            bits = {x: (v >> i) & 1 for i, x in enumerate(vs)}
            m = {}
            if all(bool(value(g, a, bits, m)) == t for a, t in conds):
                break
        else:
            return False
    return True


def difference(g, a, b, limit=200000):
    """None, or (path, leaf of a, leaf of b) where the two choices differ"""
    count = [0, 0]

    def leaf(x, y, path):
        if g.nodes[x][0] == "undef" or g.nodes[y][0] == "undef":
            return None
        kn = known(g, path)
        x2, y2 = under(g, x, kn), under(g, y, kn)
        x2, y2 = under(g, x2, kn), under(g, y2, kn)
        if x2 == y2:
            return None
        if g.top(x2) is not None or g.top(y2) is not None:
            return rec(x2, y2, path)
        if not consistent(g, path, kn) or narrow(g, path) is None or \
                not possible(g, path):
            return None
        return inside(x2, y2, path)

    def inside(x, y, path):
        count[1] += 1
        if count[1] > 2000:
            raise Stuck("comparison too deep")
        d = Deep(g, path)
        if not d.ok:
            return None
        x, y = d(x), d(y)
        if x == y or g.nodes[x][0] == "undef" or g.nodes[y][0] == "undef":
            return None
        t = min(d.open) if d.open else apart(g, x, y)
        if t is None or t in path:
            return (dict(path), x, y)
        for side in (True, False):
            p2 = dict(path)
            p2[t] = side
            if not feasible(g, p2) or narrow(g, p2) is None or \
                    not consistent(g, p2, known(g, p2)):
                continue
            d = inside(x, y, p2)
            if d is not None:
                return d
        return None

    def rec(x, y, path):
        if x == y:
            return None
        count[0] += 1
        if count[0] > limit:
            raise Stuck("comparison too large")
        t = [q for q in (g.top(x), g.top(y)) if q is not None]
        if not t:
            return leaf(x, y, path)
        t = min(t)
        for side in (True, False):
            p2 = dict(path)
            p2[t] = side
            if not feasible(g, p2):
                continue
            d = rec(g.cof(x, t, side), g.cof(y, t, side), p2)
            if d is not None:
                return d
        return None
    return rec(a, b, {})


def compare(g, ea, eb):
    """first difference between two evaluated functions, or None"""
    for e in (ea, eb):
        e.kindmap()
        e.prune()
    names = ea.components() | eb.components()
    order = ["kind", "arg1", "arg0", "value"] + sorted(
        n for n in names if n not in ("kind", "arg1", "arg0", "value",
                                      "effects")) + ["effects"]
    for n in order:
        if n not in names:
            continue
        # what the definition does not reach does not matter
        d = difference(g, ea.outcome(n), eb.outcome(n, "undef"))
        if d is not None:
            return n, d
    return None
