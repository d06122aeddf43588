"""Abstract interpretation over the order domain.

Integers of the analysed data (coordinates) are opaque symbols; the abstract
state knows only the relative order of symbols (a partition of all weak
orderings, refined on demand when a comparison is not yet decided) and linear
terms over them.  No concrete coordinate ever exists: a verdict holds for every
value that realises the ordering.  Calls are interpreted in place, memory is a
set of objects with field-sized cells."""
import os
import re
from .norm import Poly
from .ir import strip_suffix
from .sccp import signed, width


COV = set() if os.environ.get("LAIK_COV") else None      # blocks interpreted (development aid)


class Undecided(Exception):
    """the code leaves the domain; the rule cannot decide it"""


class Abort(Exception):
    """path ends in an assertion failure / panic"""


class Cut(Exception):
    pass


NULL = ("p", None, 0)
UNDEF = ("u",)
UNINIT = ("u", "never written")


def sym(n):
    return Poly.atom(n)


def is_ptr(v):
    return isinstance(v, tuple) and v[0] == "p"


class Order:
    """weak ordering of symbols, refined on demand"""

    def __init__(self, choose):
        self.par = {}
        self.lt = {}
        self.choose = choose

    def find(self, a):
        while self.par.get(a, a) != a:
            a = self.par[a]
        return a

    def less(self, a, b):
        seen, w = {a}, [a]
        while w:
            x = w.pop()
            for y in self.lt.get(x, ()):
                y = self.find(y)
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return False

    def know(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return 0
        if isinstance(a, int) and isinstance(b, int):
            return (a > b) - (a < b)
        if self.less(a, b):
            return -1
        if self.less(b, a):
            return 1
        return None

    def add(self, a, r, b):
        if isinstance(a, int) or isinstance(b, int):
            for x in (a, b):
                if isinstance(x, int):
                    self.const(x)
        a, b = self.find(a), self.find(b)
        if r == 0:
            if isinstance(b, int):
                a, b = b, a
            self.par[b] = a
            s = self.lt.pop(b, set())
            self.lt.setdefault(a, set()).update(s)
        elif r < 0:
            self.lt.setdefault(a, set()).add(b)
        else:
            self.lt.setdefault(b, set()).add(a)

    def const(self, v):
        cs = getattr(self, "cs", None)
        if cs is None:
            cs = self.cs = set()
        if v not in cs:
            for c in cs:
                lo, hi = min(c, v), max(c, v)
                self.lt.setdefault(lo, set()).add(hi)
            cs.add(v)

    def cmp(self, a, b):
        for x in (a, b):
            if isinstance(x, int):
                self.const(x)
        k = self.know(a, b)
        if k is None:
            k = self.choose(3) - 1
            self.add(a, k, b)
            self.consistent()
        return k

    # ---- successors: no integer lies between x and x+1 ----------------------
    def succ(self, a):
        sc = self.__dict__.setdefault("succs", [])
        for b, s in sc:
            if self.find(b) == self.find(a):
                return s
        s = ("+1", a)
        sc.append((a, s))
        self.add(a, -1, s)
        self.consistent()
        return s

    def consistent(self):
        sc = self.__dict__.get("succs")
        if not sc:
            return
        again = True
        while again:
            again = False
            for i, (a, s) in enumerate(sc):
                for b, t in sc[:i]:
                    if self.find(a) == self.find(b) and self.find(s) != self.find(t):
                        if self.know(s, t) is not None:
                            raise Cut(None)
                        self.add(s, 0, t)
                        again = True
        nodes = {self.find(x) for x in list(self.lt) + [y for v in self.lt.values() for y in v] + list(self.par)}
        for a, s in sc:
            if self.know(a, s) != -1:
                raise Cut(None)
            for x in nodes:
                if self.less(self.find(a), x) and self.less(x, self.find(s)):
                    raise Cut(None)


class Obj:
    def __init__(self, name, size=None, lazy=None, fresh=False):
        self.name, self.size, self.lazy, self.fresh = name, size, lazy, fresh
        self.freed = False
        self.cells = {}

    def __repr__(self):
        return "<%s>" % self.name


class Interp:
    def __init__(self, mod, choose, handlers=None, budget=40000):
        self.mod = mod
        self.order = Order(choose)
        self.choose = choose
        self.handlers = dict(DEFAULT)
        self.handlers.update(handlers or {})
        self.steps = 0
        self.budget = budget
        self.loop_limit = 1 << 60       # visits of blocks by one activation (finite where states are concrete)
        self.globals = {}
        self.trace = []
        self.covered = set()

    # ---- values ------------------------------------------------------------
    def cmpv(self, a, b):
        """-1/0/1"""
        if isinstance(a, int) and isinstance(b, int):
            return (a > b) - (a < b)
        pa = Poly.const(a) if isinstance(a, int) else a
        pb = Poly.const(b) if isinstance(b, int) else b
        if a == UNINIT or b == UNINIT:
            raise Abort("comparison of uninitialised memory" + (" at " + self.cur.loc() if getattr(self, "cur", None) else ""))
        if not isinstance(pa, Poly) or not isinstance(pb, Poly):
            raise Undecided("comparison of %r and %r" % (a, b))
        d = pa - pb
        if d.is_const():
            x = d.cval()
            return (x > 0) - (x < 0)
        # positive symbol = rest, with at most one other symbol / constant and unit coefficients
        pos = [(k, v) for k, v in d.t.items() if k and v > 0]
        neg = [(k, v) for k, v in d.t.items() if k and v < 0]
        c = d.t.get((), 0)
        if all(len(k) == 1 for k, v in pos + neg):
            if len(pos) == 1 and len(neg) == 1 and pos[0][1] == 1 and neg[0][1] == -1 and c == 0:
                return self.order.cmp(pos[0][0][0], neg[0][0][0])
            if len(pos) == 1 and not neg and pos[0][1] == 1:
                return self.order.cmp(pos[0][0][0], -c)
            if len(neg) == 1 and not pos and neg[0][1] == -1:
                return -self.order.cmp(neg[0][0][0], c)
        return self.hard_cmp(pa, pb)

    def hard_cmp(self, a, b):
        d = a - b
        c = d.t.get((), 0)
        pos = [k[0] for k, v in d.t.items() if k and v == 1 and len(k) == 1]
        neg = [k[0] for k, v in d.t.items() if k and v == -1 and len(k) == 1]
        if len(pos) == 1 and len(neg) == 1 and len(d.t) == 3 and 0 < abs(c) <= 3:
            x, y = pos[0], neg[0]      # x + c  vs  y
            for _ in range(abs(c)):
                if c > 0:
                    x = self.order.succ(x)
                else:
                    y = self.order.succ(y)
            return self.order.cmp(x, y)
        raise Undecided("comparison of %r and %r is not an order comparison" % (a, b))

    def global_obj(self, name):
        o = self.globals.get(name)
        if o is None:
            g = self.mod.globals.get(name)
            o = Obj("@" + name, g.get("sz") if g else None)
            o.g = g
            self.globals[name] = o
            if g and g.get("init"):
                self.fill(o, 0, g["ty"], g["init"])
        return o

    def fill(self, o, off, ty, ini):
        if ini[0] == "c":
            o.cells[off] = (self.sizeof(ty), ini[1])
        elif ini[0] == "n":
            o.cells[off] = (8, NULL)
        elif ini[0] == "g":
            o.cells[off] = (8, ("p", ("@", ini[1]), 0))
        elif ini[0] == "A":
            m = re.match(r"%(struct\.[\w.]+)$", ty)
            if m:
                s = self.mod.structs.get(strip_suffix(m.group(1)))
                for k, e in enumerate(ini[1:]):
                    self.fill(o, off + s["el"][k][0], s["el"][k][1], e)
            else:
                m = re.match(r"\[\d+ x (.*)\]$", ty)
                if m:
                    es = self.sizeof(m.group(1))
                    for k, e in enumerate(ini[1:]):
                        self.fill(o, off + k * es, m.group(1), e)

    def sizeof(self, ty):
        m = re.match(r"i(\d+)$", ty)
        if m:
            return max(1, int(m.group(1)) // 8)
        if ty in ("ptr", "double"):
            return 8
        if ty == "float":
            return 4
        m = re.match(r"%(struct\.[\w.]+|union\.[\w.]+)$", ty)
        if m:
            s = self.mod.structs.get(strip_suffix(m.group(1)))
            if s:
                return s["size"]
        m = re.match(r"\[(\d+) x (.*)\]$", ty)
        if m:
            return int(m.group(1)) * self.sizeof(m.group(2))
        raise Undecided("size of " + ty)

    def deref(self, p):
        if p == UNINIT:
            raise Abort("dereference of uninitialised memory")
        if not is_ptr(p):
            raise Undecided("dereference of %r" % (p,))
        if p[1] is None:
            raise Abort("null dereference" + (" at " + self.cur.loc() if getattr(self, "cur", None) else ""))
        o = p[1]
        if isinstance(o, tuple) and o[0] == "@":
            o = self.global_obj(o[1])
        if isinstance(o, str):
            raise Abort("dereference of handle %s%s" % (o, " at " + self.cur.loc() if getattr(self, "cur", None) else ""))
        if o.freed:
            raise Abort("use of freed memory" + (" at " + self.cur.loc() if getattr(self, "cur", None) else ""))
        return o, p[2]

    def bounds(self, o, off, size):
        if o.size is not None and isinstance(o.size, int) and isinstance(off, int) and (off < 0 or off + size > o.size):
            raise Abort("access of bytes %d..%d of %r with %d bytes at %s" % (off, off + size - 1, o, o.size, self.cur.loc() if getattr(self, "cur", None) else "?"))

    def loadm(self, p, size, ty):
        o, off = self.deref(p)
        if isinstance(off, Poly):
            off = off.cval() if off.is_const() else off
        if not isinstance(off, int):
            if o.lazy:
                v = o.lazy(self, o, off, size)
                if v is not None:
                    return v
            raise Undecided("load at symbolic offset of %r" % o)
        self.bounds(o, off, size)
        c = o.cells.get(off)
        if c is None and o.lazy:
            v = o.lazy(self, o, off, size)
            if v is not None:
                o.cells[off] = c = (size, v)
        if c is None:
            g = getattr(o, "g", None)
            if g and g.get("init") and g["init"][0] == "z":
                if g.get("const") or not getattr(self, "stale_globals", True):
                    return NULL if ty == "ptr" else 0
                v = NULL if ty == "ptr" else sym("stale:%s+%d" % (o.name, off))
                o.cells[off] = (size, v)
                return v
            return UNINIT if o.fresh else UNDEF
        if c[0] != size:
            raise Undecided("load of %d bytes from %d-byte cell of %r+%d" % (size, c[0], o, off))
        if ty == "ptr" and c[1] == 0:
            return NULL
        return c[1]

    def storem(self, p, size, v):
        o, off = self.deref(p)
        if isinstance(off, Poly):
            off = off.cval() if off.is_const() else off
        if not isinstance(off, int):
            raise Undecided("store at symbolic offset of %r" % o)
        self.bounds(o, off, size)
        for k in [k for k, (s, _) in o.cells.items() if k < off + size and off < k + s and k != off]:
            del o.cells[k]
        o.cells[off] = (size, v)

    def memcpy(self, d, s, n):
        if not isinstance(n, int):
            raise Undecided("memcpy of symbolic size")
        if n == 0:
            return
        so, soff = self.deref(s)
        do, doff = self.deref(d)
        if not isinstance(soff, int) or not isinstance(doff, int):
            raise Undecided("memcpy at symbolic offset")
        self.bounds(so, soff, n)
        self.bounds(do, doff, n)
        src = {k: c for k, c in so.cells.items() if soff <= k and k + c[0] <= soff + n}
        for k in [k for k, (sz, _) in do.cells.items() if k < doff + n and doff < k + sz]:
            del do.cells[k]
        for k, c in src.items():
            do.cells[k - soff + doff] = c

    # ---- evaluation ----------------------------------------------------------
    def opval(self, fr, o):
        k = o[0]
        if k == "i":
            return fr["v"].get(o[1], UNDEF)
        if k == "a":
            return fr["args"][o[1]]
        if k == "c":
            return o[1]
        if k == "n":
            return NULL
        if k == "u":
            return UNINIT
        if k == "g":
            return ("p", ("@", o[1]), 0)
        if k == "f":
            return ("f", o[1])
        if k == "x" and o[1] == "getelementptr":
            b = self.opval(fr, o[3][0])
            if isinstance(o[-1], int):
                b = self.opval(fr, tuple(o[3][0]))
                return ("p", b[1], b[2] + o[-1])
        if k == "x" and o[1] == "inttoptr" and o[3][0][0] == "c":
            return ("p", "#%d" % o[3][0][1], 0) if o[3][0][1] else NULL
        return UNDEF

    def call(self, fname, args, depth=0):
        F = self.mod.functions.get(fname)
        name = strip_suffix(fname)
        h = self.handlers.get(name)
        if h is not None:
            return self.outside(h, name, args)
        if F is None or F.decl:
            for pre, hh in PREFIX:
                if name.startswith(pre):
                    return self.outside(hh, name, args)
            raise Undecided("call of external function %s" % name)
        if depth > 24:
            raise Undecided("call depth")
        return self.run(F, args, depth)

    def outside(self, h, name, args):
        """a modelled function; what it cannot do with a null or uninitialised argument is an error of the caller"""
        try:
            return h(self, args)
        except (TypeError, AttributeError, KeyError, IndexError, ValueError):
            if any(a == UNINIT or is_ptr(a) and a[1] is None for a in args):
                raise Abort("%s called with a null or uninitialised argument at %s" % (name, self.cur.loc() if getattr(self, "cur", None) else "?"))
            raise

    def run(self, F, args, depth=0):
        self.covered.add(F.name)
        fr = {"v": {}, "args": list(args)}
        V = fr["v"]
        blk, prev = F.blocks[0], None
        visits = 0
        while True:
            visits += 1
            if visits > self.loop_limit:
                raise Abort("loop in %s does not end" % F.src)
            if COV is not None:
                COV.add((F.name, blk.id))
            phis = {}
            for I in blk.instrs:
                if I.op != "phi":
                    break
                for o, b in zip(I.ops, I.raw["in"]):
                    if b == prev.id:
                        phis[I.id] = self.opval(fr, o)
                        break
            V.update(phis)
            nxt = None
            for I in blk.instrs:
                if I.op == "phi":
                    continue
                self.steps += 1
                if self.steps > self.budget:
                    raise Undecided("step budget exceeded in " + F.src)
                op = I.op
                if op == "br":
                    if I.ops:
                        cnd = self.opval(fr, I.ops[0])
                        if cnd == UNINIT:
                            raise Abort("branch on uninitialised memory at " + I.loc())
                        if not isinstance(cnd, int):
                            raise Undecided("branch on %r at %s" % (cnd, I.loc()))
                        nxt = I.raw["s"][0 if cnd & 1 else 1]
                    else:
                        nxt = I.raw["s"][0]
                elif op == "switch":
                    cnd = self.opval(fr, I.ops[0])
                    if not isinstance(cnd, int):
                        raise Undecided("switch on %r at %s" % (cnd, I.loc()))
                    nxt = I.raw["d"]
                    for c, b in I.raw["cs"]:
                        if c == cnd:
                            nxt = b
                            break
                elif op == "ret":
                    return self.opval(fr, I.ops[0]) if I.ops else None
                elif op == "unreachable":
                    raise Abort("unreachable at " + I.loc())
                else:
                    self.cur = I
                    V[I.id] = self.step(fr, I, depth)
            prev, blk = blk, F.blocks[nxt]

    def step(self, fr, I, depth):
        op = I.op
        if op == "call":
            args = [self.opval(fr, a) for a in I.args]
            if I.callee is not None:
                return self.call(I.callee, args, depth + 1)
            fo = I.raw.get("fp_op")
            p = self.opval(fr, tuple(fo)) if fo else UNDEF
            if is_ptr(p) and isinstance(p[1], tuple) and p[1][0] == "@":
                return self.call(p[1][1], args, depth + 1)
            if p == UNINIT or is_ptr(p) and p[1] is None:
                raise Abort("call of a null or uninitialised function at " + I.loc())
            h = self.handlers.get("*indirect")
            if h:
                return h(self, I, args)
            raise Undecided("indirect call at " + I.loc())
        if op == "alloca":
            sz = I.raw.get("sz")
            if "esz" in I.raw:      # array of variable length
                n = self.opval(fr, I.ops[0])
                if isinstance(n, int):
                    if n <= 0:
                        raise Abort("array of %d elements at %s" % (n, I.loc()))
                    sz = n * I.raw["esz"]
            return ("p", Obj("alloca:" + (I.name or str(I.id)), sz, fresh=True), 0)
        if op == "load":
            return self.loadm(self.opval(fr, I.ops[0]), I.raw["sz"], I.ty)
        if op == "store":
            self.storem(self.opval(fr, I.ops[1]), I.raw["sz"], self.opval(fr, I.ops[0]))
            return None
        if op == "atomicrmw":
            p, sz = self.opval(fr, I.ops[0]), I.raw["sz"]
            v, x = self.loadm(p, sz, I.ty), self.opval(fr, I.ops[1])
            if not isinstance(v, int) or not isinstance(x, int):
                raise Undecided("atomic operation on %r" % (v,))
            f = {"add": v + x, "sub": v - x, "xchg": x, "and": v & x, "or": v | x, "xor": v ^ x}.get(I.raw["p"])
            if f is None:
                raise Undecided("atomic operation " + I.raw["p"])
            self.storem(p, sz, signed(f, 8 * sz))
            return v
        if op == "getelementptr":
            b = self.opval(fr, I.ops[0])
            if b == UNINIT:
                return UNINIT       # an error where it is used
            if not is_ptr(b):
                raise Undecided("address arithmetic on %r at %s" % (b, I.loc()))
            if "off" in I.raw:
                off = I.raw["off"]
            else:
                off = self.gepoff(fr, I)
            if off == UNINIT:
                return UNINIT
            if b[1] is None:
                return ("p", None, off if isinstance(off, int) else 1)
            return ("p", b[1], addv(b[2], off))
        vs = [self.opval(fr, o) for o in I.ops]
        if UNINIT in vs and op not in ("icmp", "select"):
            return self.uninit(op, vs, I)
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            return vs[0]
        if op == "select":
            if not isinstance(vs[0], int):
                raise Undecided("select on %r" % (vs[0],))
            return vs[1] if vs[0] & 1 else vs[2]
        if op in ("sext", "zext", "trunc"):
            v = vs[0]
            if isinstance(v, int):
                b0, b1 = width(I.raw["ft"]), width(I.ty)
                if op == "zext":
                    v &= (1 << b0) - 1
                return signed(v, b1)
            if isinstance(v, Poly):
                if op == "trunc":
                    if I.ty == "i1":
                        return self.boolean(v)
                    return self.truncate(v, I)
                return v
            return UNDEF
        if op == "icmp":
            return self.icmp(I, vs[0], vs[1])
        if op in ("add", "sub", "mul"):
            a, b = vs
            if isinstance(a, int) and isinstance(b, int):
                r = a + b if op == "add" else a - b if op == "sub" else a * b
                return signed(r, width(I.ty))
            if is_ptr(a) and is_ptr(b) and op == "sub" and a[1] is b[1]:
                return subv(a[2], b[2])
            a = Poly.const(a) if isinstance(a, int) else a
            b = Poly.const(b) if isinstance(b, int) else b
            if isinstance(a, Poly) and isinstance(b, Poly):
                r = a + b if op == "add" else a - b if op == "sub" else a * b
                return r.cval() if r.is_const() else r
            return UNDEF
        if len(vs) == 2 and all(isinstance(v, int) for v in vs):
            x, y = vs[0], vs[1]
            b = width(I.ty)
            M = (1 << b) - 1
            try:
                r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y,
                     "sdiv": lambda: int(x / y), "srem": lambda: x - y * int(x / y), "udiv": lambda: (x & M) // (y & M),
                     "urem": lambda: (x & M) % (y & M), "ashr": lambda: x >> y, "lshr": lambda: (x & M) >> y}[op]()
                return signed(r, b)
            except (KeyError, ZeroDivisionError):
                return UNDEF
        if op in ("and", "or") and 0 in vs and I.ty == "i1":
            pass
        if op == "shl" and isinstance(vs[1], int) and isinstance(vs[0], Poly):
            return vs[0] * Poly.const(1 << vs[1])
        if op in ("sdiv", "udiv") and isinstance(vs[0], Poly) and isinstance(vs[1], int) and vs[1] and all(x % vs[1] == 0 for x in vs[0].t.values()):
            return Poly({k: x // vs[1] for k, x in vs[0].t.items()})
        return self.opaque(op, vs, I)

    def uninit(self, op, vs, I):
        return UNINIT

    def opaque(self, op, vs, I):
        return UNDEF

    def boolean(self, v):
        """a symbol holding a bool"""
        if len(v.t) == 1 and list(v.t.values()) == [1] and len(list(v.t)[0]) == 1:
            a = list(v.t)[0][0]
            for k in (0, 1):
                self.order.const(k)
                if self.order.know(a, k) == 0:
                    return k
            k = self.choose(2)
            self.order.add(a, 0, k)
            return k
        raise Undecided("truth value of %r" % (v,))

    def truncate(self, v, I):
        raise Undecided("64-bit coordinate truncated at " + I.loc())

    def gepoff(self, fr, I):
        off = 0
        first = True
        fp = I.raw["fp"]
        for e in fp:
            if e[0] == "*":
                off = addv(off, mulv(self.opval(fr, tuple(e[1])), I.raw["ss"]))
            elif e[0] == "[]":
                off = addv(off, mulv(self.opval(fr, tuple(e[1])), self.sizeof(e[2])))
            else:
                s = self.mod.structs.get(strip_suffix(e[0]))
                off = addv(off, s["el"][e[1]][0])
        return off

    def icmp(self, I, a, b):
        p = I.raw["p"]
        if a == UNINIT or b == UNINIT:
            raise Abort("comparison of uninitialised memory at " + I.loc())
        if is_ptr(a) or is_ptr(b):
            if not is_ptr(a):
                a = NULL if a == 0 else a
            if not is_ptr(b):
                b = NULL if b == 0 else b
            if is_ptr(a) and is_ptr(b) and p in ("eq", "ne"):
                same = (a[1] is b[1] or a[1] == b[1]) and a[2] == b[2]
                return int(same == (p == "eq"))
            if is_ptr(a) and is_ptr(b) and (a[1] is b[1] or a[1] == b[1]):
                return int(self.rel(p[1:], a[2], b[2]))
            raise Undecided("pointer comparison at " + I.loc())
        if a == UNDEF or b == UNDEF:
            raise Undecided("comparison with unknown value at " + I.loc())
        if p[0] == "u" and not (isinstance(a, int) and isinstance(b, int)):
            return self.ucmp(I, a, b)
        if p[0] == "u":
            w = 64
            a &= (1 << w) - 1
            b &= (1 << w) - 1
        return int(self.rel(p if p in ("eq", "ne") else p[1:], a, b))

    def rel(self, p, a, b):
        r = self.cmpv(a, b)
        return {"eq": r == 0, "ne": r != 0, "lt": r < 0, "le": r <= 0, "gt": r > 0, "ge": r >= 0}[p]

    def ucmp(self, I, a, b):
        raise Undecided("unsigned comparison of signed coordinates at " + I.loc())


def addv(a, b):
    if a == UNINIT or b == UNINIT:
        return UNINIT
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    a = Poly.const(a) if isinstance(a, int) else a
    b = Poly.const(b) if isinstance(b, int) else b
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        raise Undecided("address arithmetic")
    r = a + b
    return r.cval() if r.is_const() else r


def subv(a, b):
    return addv(a, mulv(b, -1))


def mulv(a, n):
    if a == UNINIT:
        return UNINIT
    if isinstance(a, int):
        return a * n
    if not isinstance(a, Poly):
        raise Undecided("address arithmetic on %r" % (a,))
    return a * Poly.const(n)


def _ignore(it, args):
    return UNDEF


def _abort(it, args):
    raise Abort("assertion or panic at " + it.cur.loc())


def _memcpy(it, args):
    it.memcpy(args[0], args[1], args[2])
    return args[0]


def _memset(it, args):
    o, off = it.deref(args[0])
    n = args[2]
    if args[1] != 0 or not isinstance(n, int) or not isinstance(off, int):
        raise Undecided("memset")
    for k in [k for k, (s, _) in o.cells.items() if off <= k < off + n]:
        del o.cells[k]
    o.lazy = o.lazy or (lambda i, ob, f, s: 0)
    return args[0]


def _malloc(it, args):
    return ("p", Obj("heap", args[0] if isinstance(args[0], int) else None, fresh=True), 0)


def _zero(it, args):
    n = args[0] * args[1] if isinstance(args[0], int) and isinstance(args[1], int) else None
    return ("p", Obj("heap", n, lazy=lambda i, ob, f, s: 0), 0)


def _free(it, args):
    if is_ptr(args[0]) and isinstance(args[0][1], Obj):
        o = args[0][1]
        if o.freed:
            raise Abort("memory freed twice")
        if args[0][2] != 0 or o.name.startswith("alloca"):
            raise Abort("free of something not allocated")
        o.freed = True
    elif is_ptr(args[0]) and isinstance(args[0][1], tuple):
        raise Abort("free of a global object")
    return None


def _realloc(it, args):
    n = Obj("heap", args[1] if isinstance(args[1], int) else None, fresh=True)
    if is_ptr(args[0]) and args[0][1] is not None:
        o, off = it.deref(args[0])
        n.cells = {k: c for k, c in o.cells.items() if n.size is None or k + c[0] <= n.size}
        n.lazy = o.lazy
        o.freed = True
    return ("p", n, 0)


def _log(it, args):
    """laik_log returns for every level but the highest, which ends the program"""
    lv = it.mod.__dict__.get("_panic")
    if lv is None:
        lv = it.mod._panic = it.mod.enum_const("LAIK_LL_Panic")
    if args and args[0] == lv:
        it.handlers["laik_panic"](it, args)


DEFAULT = {
    "__assert_fail": _abort, "laik_panic": _abort, "abort": _abort, "exit": _abort,
    "laik_log": _log, "laik_log_begin": lambda it, a: 0, "laik_log_shown": lambda it, a: 0, "laik_log_append": _ignore,
    "laik_log_flush": _ignore, "memcpy": _memcpy, "memmove": _memcpy, "memset": _memset,
    "malloc": _malloc, "calloc": _zero, "free": _free, "realloc": _realloc,
}
PREFIX = [("llvm.memcpy", _memcpy), ("llvm.memmove", _memcpy), ("llvm.memset", _memset), ("llvm.lifetime", _ignore), ("llvm.dbg", _ignore), ("llvm.stack", _ignore),
          ("laik_log", _ignore)]


def explore(body, limit=60000):
    """run body(choose) for every refinement; yields its results"""
    prefix = []
    n = 0
    while True:
        taken = []

        def choose(k):
            i = len(taken)
            v = prefix[i] if i < len(prefix) else 0
            taken.append([v, k])
            return v
        yield body(choose)
        n += 1
        if n > limit:
            raise Undecided("too many refinements")
        while taken and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if not taken:
            if COV:
                with open(os.environ["LAIK_COV"], "a") as f:
                    f.write("".join("%s %s\n" % c for c in sorted(COV)))
                COV.clear()
            return
        taken[-1][0] += 1
        prefix = [t[0] for t in taken]
