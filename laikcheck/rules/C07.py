"""Partitioners: the index sets they assign to processes.

Every built-in partitioner is created by its public constructor and run over the
order domain, with opaque borders of the space and of the partitioning it is
derived from.  Results of floating-point computations are terms: two terms are
equal only if they are the same computation, and ordered only by monotonicity of
rounding; a decision depending on weights may go either way.  The resulting range
list must be the one the partitioner is documented to give (derived ones) or give
every index to exactly one process (distributing ones), and each decision of a
weighted partitioner must be the comparison of accumulated weight and the share
of the processes served so far."""
import itertools
from fractions import Fraction
from .. import model
from ..absint import Abort, Cut, Obj, UNDEF, NULL, Undecided, is_ptr, sym
from ..build import AnalysisError
from ..model import P, PosInterp, Setup, V, add, chain, divpoly, fo, mul, rd, setf, ssize
from ..norm import Poly
from .C05 import Cells, entries

M = None
THOROUGH = False
ONE = Poly.const(1)


def poly(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def num(n):
    """constant of a term or None"""
    if n[0] == "i" and not isinstance(n[1], Poly):
        return Fraction(n[1])
    return n[1] if n[0] == "c" else None


def mk(x):
    return ("i", int(x)) if x == int(x) else ("c", x)


def exact(x):
    d = x.denominator
    return d & (d - 1) == 0 and abs(x) < 1 << 50 and d < 1 << 20


def fop(op, a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        if op == "/" and y == 0:
            return ("inf",)
        r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
        if exact(x) and exact(y) and exact(r):
            return mk(r)
    if op == "+" and (x == 0 or y == 0):
        return b if x == 0 else a
    if op == "-" and y == 0:
        return a
    if op == "*" and (x == 0 or y == 0):
        return mk(Fraction(0))
    if op == "*" and (x == 1 or y == 1):
        return b if x == 1 else a
    if op == "/" and y == 1:
        return a
    if op in "+*" and repr(a) > repr(b):
        a, b = b, a
    return (op, a, b)


def real(n):
    """value of a term over the reals: (numerator, denominator)"""
    if n[0] in ("i", "c"):
        return poly(n[1]), ONE
    if n[0] == "a":
        return sym(n[1]), ONE
    if n[0] == "inf":
        raise Cut("division by zero")
    (a, p), (b, q) = real(n[1]), real(n[2])
    if n[0] == "*":
        return a * b, p * q
    if n[0] == "/":
        return a * q, p * b
    if p == q:
        return (a + b if n[0] == "+" else a - b), p
    return (a * q + b * p if n[0] == "+" else a * q - b * p), p * q


class FInterp(PosInterp):
    def __init__(self, ch, shared=None):
        super().__init__(ch)
        self.budget = 400000
        self.truncs = {}
        self.facts = []
        self.memo = {}
        self.splits = []
        self.parts = {}
        self.wid = {}
        self.handlers["verif_idx_weight"] = h_idxw
        self.handlers["verif_task_weight"] = h_taskw
        for n in ("llvm.fmuladd.f64", "fma"):
            self.handlers[n] = lambda i, a: ("fp", fop("+", fop("*", i.node(a[0]), i.node(a[1])), i.node(a[2])))

    def node(self, v):
        if isinstance(v, tuple) and v and v[0] == "fp":
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "f":
            try:
                return mk(Fraction(float(v[1])))
            except ValueError:
                raise Undecided("constant %r" % (v,))
        if isinstance(v, int):
            return ("i", v)
        raise Undecided("floating-point value %r" % (v,))

    def step(self, fr, I, depth):
        op = I.op
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = [self.node(self.opval(fr, o)) for o in I.ops]
            return ("fp", fop({"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op], a, b))
        if op == "fneg":
            return ("fp", fop("-", ("i", 0), self.node(self.opval(fr, I.ops[0]))))
        if op in ("sitofp", "uitofp"):
            v = self.opval(fr, I.ops[0])
            if not isinstance(v, (int, Poly)):
                raise Undecided("conversion of %r" % (v,))
            return ("fp", ("i", v))
        if op in ("fpext", "fptrunc"):
            return self.opval(fr, I.ops[0])
        if op in ("fptosi", "fptoui"):
            return self.trunc_fp(self.node(self.opval(fr, I.ops[0])))
        if op == "fcmp":
            a, b = [self.node(self.opval(fr, o)) for o in I.ops]
            return self.fcmp(I.raw["p"], a, b)
        return super().step(fr, I, depth)

    # ---- rounding to integers: a symbol per computation, ordered by monotonicity
    def trunc_fp(self, n):
        c = num(n)
        if c is not None:
            return int(c)
        if n[0] == "i":
            return n[1]
        if n in self.truncs:
            return self.truncs[n]
        x, q = real(n)
        u = x.t and q.is_const() and Fraction(max(x.t.values())) or 0
        w = u and self.width(Poly({k: int(v / u) if v / u == int(v / u) else 0 for k, v in x.t.items()}))
        if w and 0 < u / q.cval() <= 1:
            # a part of a width: an inner border
            hi, lo = [[k[0] for k, v in x.t.items() if (v > 0) == up][0] for up in (1, 0)]
            done = self.parts.setdefault(("fp", lo, hi), [])
            t = "t%d" % len(self.truncs)
            if self.order.cmp(lo, hi) >= 0:
                raise Cut("empty or inverted range is divided")
            if u == q.cval() and self.choose(2):
                self.order.add(t, 0, hi)
            else:
                self.order.add(lo, -1 if self.choose(2) else 0, t)
                self.order.add(t, -1, hi)
            self.between(done, u / q.cval(), t)
            self.truncs[n] = sym(t) - sym(lo)
            return self.truncs[n]
        s = sym("t%d" % len(self.truncs))
        ints = set()
        leaves(n, ints)
        for m, t in [(("i", x), x) for x in ints] + list(self.truncs.items()):
            for lo, hi, a, b in ((m, n, t, s), (n, m, s, t)):
                if isinstance(a, Poly) and isinstance(b, Poly) and len(a.t) == 1 and len(b.t) == 1 and self.fle(lo, hi):
                    x, y = list(a.t)[0][0], list(b.t)[0][0]
                    k = self.order.know(x, y)
                    if k == 1:
                        raise Cut(None)
                    if k is None:
                        self.order.add(x, -1 if self.choose(2) else 0, y)
        self.truncs[n] = s
        return s

    def nonneg(self, n):
        c = num(n)
        if c is not None:
            return c >= 0
        if n[0] == "i":
            d = n[1]
            if len(d.t) == 2 and sorted(d.t.values()) == [-1, 1] and all(len(k) == 1 for k in d.t):
                x, y = [[k[0] for k, v in d.t.items() if v == s][0] for s in (1, -1)]
                return self.order.know(x, y) in (0, 1)
            return all(v > 0 and all(x[0] == "+" for x in k) for k, v in d.t.items())
        if n[0] in "*/+":
            return self.nonneg(n[1]) and self.nonneg(n[2])
        return False

    def fle(self, a, b):
        """a <= b for sure, as floating point numbers"""
        if a == b:
            return True
        x, y = num(a), num(b)
        if x is not None and y is not None:
            return x <= y
        if x is not None and x <= 0 and self.nonneg(b):
            return True
        for u, v in ((a, b), (b, a)):
            # base + something
            if u[0] == "+":
                rest = [u[2 - i] for i in range(2) if u[1 + i] == v] or None
                if rest and v is a and self.nonneg(rest[0]):
                    return True
        if a[0] == "+" and b[0] == "+":
            for p in (a[1:], a[:0:-1]):
                if self.fle(p[0], b[1]) and self.fle(p[1], b[2]):
                    return True
        if a[0] == "+" and b[0] == "i":
            # base + k * ((b - base) / n), k < n
            for base, m in (a[1:], a[:0:-1]):
                if base[0] == "i":
                    fr = self.fraction(m, add(b[1], mul(-1, base[1])))
                    if fr is not None and 0 <= fr < 1 - Fraction(1, 1 << 30):
                        return True
        fa, fb = self.step_of(a), self.step_of(b)
        if fa and fb and fa[1] == fb[1] and self.nonneg(fa[1]) and fa[0] <= fb[0]:
            return True
        return False

    def step_of(self, n):
        """n = k * unit"""
        if n[0] == "*":
            for p, q in (n[1:], n[:0:-1]):
                if num(p) is not None:
                    return num(p), q
        return (Fraction(1), n) if n[0] == "/" else None

    def fraction(self, m, whole):
        """m = f * whole: f"""
        k, u = self.step_of(m) or (None, None)
        if u and u[0] == "/" and u[1] == ("i", whole) and num(u[2]) and self.nonneg(u[1]):
            return k / num(u[2])
        return None

    def fcmp(self, p, a, b):
        (x, q), (y, r) = real(a), real(b)
        d = (x - y, q) if q == r else (x * r - y * q, q * r)
        rel = p[1:]
        if d[0].is_const() and d[1].is_const():
            v = Fraction(d[0].cval()) / d[1].cval()
            if abs(v) > Fraction(1, 10 ** 9):
                return int({"lt": v < 0, "le": v < 0, "gt": v > 0, "ge": v > 0, "eq": False, "ne": True}[rel])
            if rel in ("eq", "ne"):
                raise Undecided("comparison of floating-point values")
            return self.choose(2)
        key = (repr(d), rel)
        if key not in self.memo:
            self.memo[key] = self.choose(2)
            if rel not in ("lt", "le", "gt", "ge"):
                raise Undecided("comparison of floating-point values")
            up = (rel in ("gt", "ge")) == bool(self.memo[key])
            self.facts.append((d[0], d[1], 1 if up else -1))
        return self.memo[key]

    # ---- bisection: an arbitrary inner border for width * a / b -------------
    def width(self, v):
        """(lo, hi, factor) of factor * (hi - lo)"""
        if isinstance(v, Poly) and len(v.t) == 2 and () not in v.t and all(len(k) == 1 and k[0][0] != "+" for k in v.t):
            hi, lo = sorted(v.t, key=lambda k: -v.t[k])
            if v.t[hi] == -v.t[lo] > 0:
                return self.order.find(lo[0]), self.order.find(hi[0]), v.t[hi]
        return None

    def opaque(self, op, vs, I):
        if op in ("udiv", "sdiv") and isinstance(vs[1], int) and vs[1] > 0:
            w = self.width(vs[0])
            if w and w[2] < vs[1]:
                lo, hi, a = w
                if self.order.cmp(lo, hi) >= 0:
                    raise Cut("empty or inverted range is divided")
                b = vs[1]
                name = [[k[0] for k, v in vs[0].t.items() if (v > 0) == up][0] for up in (0, 1)]
                least, most = self.wid.get((lo, hi), (1, None))
                q = Fraction(a, b)
                done = self.parts.setdefault((op, name[0], name[1]), [])
                for f, m in done:
                    if f == q:
                        return sym(m) - sym(name[0])
                can = [x for x, ok in ((1, most is None or most * a >= b), (0, least * a < b)) if ok]
                if not can:
                    raise Cut(None)
                m = "m%d" % len(self.splits)
                if can[self.choose(len(can)) if len(can) > 1 else 0]:
                    self.wid[lo, hi] = max(least, -(-b // a)), most
                    self.order.add(lo, -1, m)
                    self.splits.append((name[0], name[1], m, a, b))
                else:
                    u = -(-b // a) - 1
                    self.wid[lo, hi] = least, u if most is None else min(u, most)
                    self.order.add(lo, 0, m)
                    self.splits.append(None)
                self.order.add(m, -1, hi)
                self.between(done, q, m)
                return sym(m) - sym(name[0])
            if w and w[2] == vs[1]:
                return divpoly(vs[0], vs[1])
        return super().opaque(op, vs, I)

    def between(self, done, q, m):
        """monotone in the fraction"""
        for f, x in done:
            a, b = (m, x) if q < f else (x, m)
            k = self.order.know(a, b)
            if k == 1:
                raise Cut(None)
            if k is None:
                self.order.add(a, -1 if self.choose(2) else 0, b)
        done.append((q, m))

    def cmpw(self, p, w, c):
        """width p c"""
        lo, hi, f = w
        least, most = self.wid.get((lo, hi), (1, None))
        if p in ("eq", "ne"):
            if c % f:
                return p == "ne"
            r = self.cmpw("le", w, c) and self.cmpw("ge", w, c)
            return r == (p == "eq")
        # width <= u or not
        u = {"lt": -(-c // f) - 1, "ge": -(-c // f) - 1, "le": c // f, "gt": c // f}[p]
        if least > u:
            r = False
        elif most is not None and most <= u:
            r = True
        else:
            r = bool(self.choose(2))
            self.wid[lo, hi] = (least, u) if r else (u + 1, most)
            if r:
                self.splits.append(None)    # not a large space
        return r == (p in ("lt", "le"))

    def ucmp(self, I, a, b):
        return int(self.rel(I.raw["p"][1:], a, b))

    def rel(self, p, a, b):
        d = add(a, mul(-1, b))
        if isinstance(d, Poly) and not all(x[0] == "+" for k in d.t for x in k):
            u = [k for k in d.t if k]
            if len(u) == 4 or (len(u) == 2 and d.t.get((), 0) != 0 and self.splitting):
                # relations of lengths: either way, but the same way each time
                if len(u) == 2:
                    w, c = self.width(d - Poly.const(d.t.get((), 0))), -d.t.get((), 0)
                    if w is None:
                        w, c = self.width(Poly.const(d.t.get((), 0)) - d), -c
                        p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
                    if w is None:
                        raise Undecided("relation of lengths")
                    return self.cmpw(p, w, c)
                flip = {"ge": "lt", "le": "gt"}
                neg, q = p in flip or p == "ne", flip.get(p, "eq" if p == "ne" else p)
                key = ("gt", repr(poly(mul(-1, d)))) if q == "lt" else (q, repr(d))
                if key not in self.memo:
                    self.memo[key] = self.choose(2)
                return bool(self.memo[key]) != neg
            if len(u) == 2 and d.t.get((), 0) == 0:
                x, y = sorted(u, key=lambda k: -d.t[k])
                k = self.order.cmp(x[0], y[0])
                return {"eq": k == 0, "ne": k != 0, "lt": k < 0, "le": k <= 0, "gt": k > 0, "ge": k >= 0}[p]
        return super().rel(p, a, b)

    splitting = False

    def cmpv(self, a, b):
        try:
            return super().cmpv(a, b)
        except Undecided:
            d = poly(add(a, mul(-1, b)))
            dim = {x[-1] for k in d.t for x in k if isinstance(x, str) and x[0] in "se" and x[1:].isdigit()}
            if len(dim) < 2:
                raise
            # borders of different dimensions are not related
            key = repr(d)
            if key not in self.memo:
                self.memo[key] = (-1, 1)[self.choose(2)]
                self.memo[repr(poly(mul(-1, d)))] = -self.memo[key]
            return self.memo[key]

    def sign(self, d, refine=True):
        """also sums of positive integers against a constant, by refining the sizes"""
        while True:
            s = super().sign(d, refine)
            if s is not None or not refine or not all(x[0] == "+" for k in d.t for x in k):
                return s
            lb = self.__dict__.setdefault("lb", {})
            if len({v > 0 for k, v in d.t.items() if k}) != 1:
                return None
            free = [x for x in sorted({x for k in d.t for x in k}) if lb.get(x, 1) > 0]
            if not free:
                return None
            v = lb.get(free[0], 1)
            lb[free[0]] = -v if self.choose(2) else v + 1
            self.sized.append("%s%s%d" % (free[0], "=" if lb[free[0]] < 0 else ">", v))


def leaves(n, out):
    if n[0] == "i" and isinstance(n[1], Poly):
        out.add(n[1])
        d = n[1]
        if len(d.t) == 2:
            for k in d.t:
                out.add(sym(k[0]))
    for x in n[1:]:
        if isinstance(x, tuple):
            leaves(x, out)


def h_idxw(it, a):
    o, off = it.deref(a[0])
    if a[1] != it.user:
        raise Cut("weight function gets other user data")
    x = rd(o, off + 8 * it.pdim)
    k = add(x, mul(-1, it.start))
    if not isinstance(k, int) or not 0 <= k < it.size:
        raise Cut("weight of an index outside of the space is requested")
    return ("fp", ("a", "w%d" % k))


def h_taskw(it, a):
    if a[1] != it.user:
        raise Cut("weight function gets other user data")
    if not isinstance(a[0], int) or not 0 <= a[0] < it.ntask:
        raise Cut("weight of process %r is requested" % (a[0],))
    return ("fp", ("a", "tw%d" % a[0]))


# ---- running --------------------------------------------------------------------

def new(it, kind, *a):
    return it.call(M.fn("laik_new_%s_partitioner" % kind).name, list(a))


def run_pr(it, S, group, pr, other=None):
    p = Obj("params")
    setf(p, "_Laik_PartitionerParams", space=P(S.space), group=P(group), partitioner=pr, other=P(other))
    L = it.call(M.fn("laik_run_partitioner").name, [P(p), NULL])
    for e in entries(it, L, S.dims):
        if not isinstance(e[0], int) or not 0 <= e[0] < group.n:
            raise Cut("range given to process %r" % (e[0],))
        rng = e[1:3]
        for d in range(S.dims):
            if it.cmpv(rng[0][d], rng[1][d]) >= 0:
                raise Cut("empty range given to process %d" % e[0])
    return entries(it, L, S.dims)


def world(it, dims, n, box):
    S = Setup(it, dims, n, box)
    g = S.group(0)
    g.n = n
    return S, g


def same_box(it, a, b):
    return all(it.same(x, y) or it.cmpv(x, y) == 0 for p, q in zip(a, b) for x, y in zip(p, q))


def same_list(it, E, want):
    """the given ranges, in any order"""
    left = list(want)
    for t, lo, hi, tag, m in E:
        for w in left:
            if w[0] == t and (w[3] is None or w[3] == tag) and same_box(it, (lo, hi), w[1:3]):
                left.remove(w)
                break
        else:
            raise Cut("process %d gets a range it should not get" % t)
    if left:
        raise Cut("process %d does not get a range it should get" % left[0][0])


def once(it, E, box, dims):
    """every index of the space exactly once"""
    C = Cells(it, [box] + [(e[1], e[2]) for e in E], dims)
    seen = {}
    for e in E:
        for c in C.of(e[1], e[2]):
            if c in seen:
                raise Cut("an index is given to processes %d and %d" % (seen[c], e[0]))
            seen[c] = e[0]
    full = set(C.of(*box))
    if set(seen) - full:
        raise Cut("an index outside of the space is given to a process")
    if full - set(seen):
        raise Cut("an index of the space is given to no process")


def full_box(it, dims):
    for d in range(dims):
        chain(it, "s%d" % d, "e%d" % d)
    return V(*["s%d" % d for d in range(dims)]), V(*["e%d" % d for d in range(dims)])


def f_all(dims, n):
    def body(it):
        box = full_box(it, dims)
        S, g = world(it, dims, n, box)
        same_list(it, run_pr(it, S, g, new(it, "all")), [(t,) + box + (None,) for t in range(n)])
    return body


def f_master(dims, n):
    def body(it):
        box = full_box(it, dims)
        S, g = world(it, dims, n, box)
        same_list(it, run_pr(it, S, g, new(it, "master")), [(0,) + box + (None,)])
    return body


def put(box, d, lo, hi):
    a, b = list(box[0]), list(box[1])
    a[d], b[d] = lo, hi
    return tuple(a), tuple(b)


def f_copy(od, nd, frm, to, order):
    """blocks of another space, in the given order of processes"""
    def body(it):
        n = len(order)
        ob = tuple(V(*["%s%d" % (k, d) for d in range(od)]) for k in "xy")
        for d in range(od):
            chain(it, "x%d" % d, "y%d" % d)
        cuts = ["x%d" % frm] + ["c%d" % i for i in range(n - 1)] + ["y%d" % frm]
        chain(it, *cuts)
        box = full_box(it, nd)
        box = put(box, to, sym(cuts[0]), sym(cuts[-1]))
        rs = [[] for _ in range(n)]
        for i, t in enumerate(order):
            rs[t].append(put(ob, frm, sym(cuts[i]), sym(cuts[i + 1])) + (0,))
        So = Setup(it, od, n, ob)
        S, g = world(it, nd, n, box)
        for t in range(n):
            rs[t] = [r[:2] + (k,) for k, r in enumerate(rs[t])]
        other = So.partitioning("other", g, rs, 3)
        want = [(t,) + put(box, to, r[0][frm], r[1][frm]) + (r[2] + 3,) for t in range(n) for r in rs[t]]
        same_list(it, run_pr(it, S, g, new(it, "copy", frm, to), other), want)
    return body


def grid_of(it, cuts):
    """boxes of a grid; cuts: number of parts per dimension; gaps are opaque sizes"""
    B, box = [], ([], [])
    for d, k in enumerate(cuts):
        b = [sym("s%d" % d)]
        for i in range(k):
            b.append(add(b[-1], sym("+g%d%d" % (d, i))))
        B.append(b)
        box[0].append(b[0])
        box[1].append(b[-1])
    out = []
    for c in itertools.product(*[range(k) for k in cuts]):
        out.append((tuple(B[d][i] for d, i in enumerate(c)), tuple(B[d][i + 1] for d, i in enumerate(c))))
    return out, (tuple(box[0]), tuple(box[1]))


def lo_ext(it, x, depth, lo):
    return x if False else (lo if it.rel("lt", add(x, -depth), lo) else add(x, -depth))


def hi_ext(it, x, depth, hi):
    return hi if it.rel("gt", add(x, depth), hi) else add(x, depth)


def f_halo(cuts, tasks, depth, corner):
    def body(it):
        boxes, box = grid_of(it, cuts)
        dims, n = len(cuts), max(tasks) + 1
        S, g = world(it, dims, n, box)
        rs = [[] for _ in range(n)]
        for b, t in zip(boxes, tasks):
            rs[t].append(b + (len(rs[t]),))
        other = S.partitioning("other", g, rs, 1)
        E = run_pr(it, S, g, new(it, "cornerhalo" if corner else "halo", depth), other)
        want = []
        for t in range(n):
            for b in rs[t]:
                ext = [(lo_ext(it, b[0][d], depth, box[0][d]), hi_ext(it, b[1][d], depth, box[1][d])) for d in range(dims)]
                if corner:
                    want.append((t, tuple(x[0] for x in ext), tuple(x[1] for x in ext), b[2] + 1))
                    continue
                want.append((t,) + b[:2] + (b[2] + 1,))
                for d in range(dims):
                    for lo, hi in ((ext[d][0], b[0][d]), (b[1][d], ext[d][1])):
                        if it.rel("lt", lo, hi):
                            want.append((t,) + put(b[:2], d, lo, hi) + (b[2] + 1,))
        same_sets(it, E, want, dims)
    return body


def same_sets(it, E, want, dims):
    C = Cells(it, [e[1:3] for e in E] + [w[1:3] for w in want], dims)
    sets = [{}, {}]
    for k, src in ((0, E), (1, want)):
        for e in src:
            s = sets[k].setdefault((e[0], e[3]), set())
            s.update(C.of(e[1], e[2]))
    for k in sorted(set(sets[0]) | set(sets[1])):
        a, b = [s.get(k, set()) for s in sets]
        if b - a:
            raise Cut("process %d does not get all indexes near its range" % k[0])
        if a - b:
            raise Cut("process %d gets indexes that are not near its range" % k[0])


def f_bisect(dims, n):
    def body(it):
        it.splitting = True
        box = full_box(it, dims)
        S, g = world(it, dims, n, box)
        E = run_pr(it, S, g, new(it, "bisection"))
        once(it, E, box, dims)
        if None in it.splits:
            return
        # enough indexes: every process gets a part, parts in proportion to processes
        if sorted(e[0] for e in E) != list(range(n)):
            raise Cut("a process gets no indexes although there are enough")
        # position of borders relative to the space; every process must get the same part
        pos = {}
        for d in range(dims):
            pos["s%d" % d], pos["e%d" % d] = Fraction(0), Fraction(1)
        for lo, hi, m, a, b in it.splits:
            pos[m] = pos[lo] + (pos[hi] - pos[lo]) * Fraction(a, b)
        for e in E:
            v = Fraction(1)
            for d in range(dims):
                v *= pos[side(e[2][d])] - pos[side(e[1][d])]
            if v != Fraction(1, n):
                raise Cut("process %d of %d gets %s of the space" % (e[0], n, v))
    return body


def f_bisect_sized(sizes, n):
    def body(it):
        dims = len(sizes)
        box = tuple(sym("s%d" % d) for d in range(dims)), tuple(add(sym("s%d" % d), w) for d, w in enumerate(sizes))
        S, g = world(it, dims, n, box)
        E = run_pr(it, S, g, new(it, "bisection"))
        once(it, E, box, dims)
        W = [[add(e[2][d], mul(-1, e[1][d])) for d in range(dims)] for e in E]
        if dims == 1 and sizes[0] >= n:
            if sorted(e[0] for e in E) != list(range(n)):
                raise Cut("a process gets no indexes although there are enough")
            if any(abs(w[0] - Fraction(sizes[0], n)) >= 2 for w in W):
                raise Cut("sizes of parts are %s" % [w[0] for w in W])
        if n == 2 and len(E) == 2:
            if max(d for d in range(dims) if W[0][d] != sizes[d]) != max(range(dims), key=lambda d: sizes[d]):
                raise Cut("not the largest dimension is divided")
    return body


def f_seq(fs):
    def body(it):
        for f in fs:
            f(it)
    return body


def side(p):
    return list(p.t)[0][0]


def f_grid(blocks, n):
    def body(it):
        box = full_box(it, 3)
        S, g = world(it, 3, n, box)
        E = run_pr(it, S, g, new(it, "grid", *blocks))
        once(it, E, box, 3)
        if len({e[0] for e in E}) != len(E):
            raise Cut("a process gets two blocks")
    return body


# ---- weights -----------------------------------------------------------------------

class Shares:
    """facts about accumulated weight of the first i indexes and the share of the first k parts"""

    def __init__(self, size, total, shares):
        self.size = size
        self.parts = len(shares)
        self.W = Poly()
        for i in range(size):
            self.W = self.W + sym("w%d" % i)
        shares = list(shares) + [shares[-1]] * 3
        # sums of the first k shares, as multiple of the total: numerators over a common denominator
        self.den = total
        self.first = [Poly()]
        for s in shares:
            self.first.append(self.first[-1] + s)

    def expr(self, i, k, off):
        """((w0+..+w(i-1)) + off*average - (share of the first k parts)) * den"""
        e = Poly()
        for j in range(i):
            e = e + sym("w%d" % j)
        e = e * self.den + self.W * self.den * Poly.const(Fraction(off) / self.size)
        return e - self.W * self.first[k]

    def match(self, d, q):
        """the ways to see d/q compared with 0 as (i, k, off, scale)"""
        out = []
        for i in range(self.size + 1):
            for k in range(len(self.first)):
                e0 = self.expr(i, k, 0)
                # d/q == c * (e0 + off*W*den/size) / den
                for c in (Fraction(1), Fraction(-1)):
                    r = d * self.den - e0 * q * Poly.const(c)
                    off = ratio(r, self.W * self.den * q * Poly.const(Fraction(c, self.size)))
                    if off is not None and -1 <= off <= 1:
                        out.append((i, k, ("average", off), c))
                        continue
                    off = ratio(r, self.den * q * Poly.const(c))
                    if off is not None and -1 <= off <= 1:
                        out.append((i, k, ("constant", off), c))
        return out

    def bound(self, d, q, up):
        """comparison of the total weight with m: known lower bound (or 0 if none), None if other comparison"""
        if q.is_const():
            for c in (Fraction(1), Fraction(-1)):
                m = self.W - d * Poly.const(c / q.cval())
                if m.is_const():
                    return m.cval() if (up > 0) == (c > 0) else 0
        return None


def ratio(a, b):
    """constant c with a == c*b"""
    if not a.t:
        return Fraction(0)
    k = next(iter(b.t), None)
    if k is None or k not in a.t:
        return None
    c = Fraction(a.t[k]) / b.t[k]
    return c if a == b * Poly.const(c) else None


def f_block(dims, pdim, size, n, cycles, iw, tw, setters=False):
    def body(it):
        box = full_box(it, dims)
        it.pdim, it.start, it.size, it.ntask, it.user = pdim, sym("s%d" % pdim), size, n, P(Obj("user"))
        box = put(box, pdim, it.start, add(it.start, size))
        S, g = world(it, dims, n, box)
        fi = ("p", ("@", "verif_idx_weight"), 0) if iw else NULL
        ft = ("p", ("@", "verif_task_weight"), 0) if tw else NULL
        if setters:
            pr = new(it, "block", pdim, 1, NULL, NULL, NULL)
            if iw:
                it.call(M.fn("laik_set_index_weight").name, [pr, fi, it.user])
            if tw:
                it.call(M.fn("laik_set_task_weight").name, [pr, ft, it.user])
            it.call(M.fn("laik_set_cycle_count").name, [pr, cycles])
        else:
            pr = new(it, "block", pdim, cycles, fi, ft, it.user)
        E = run_pr(it, S, g, pr)
        cyc = cycles if not setters or 1 <= cycles <= 10 else 1
        once(it, E, box, dims)
        parts = part_list(it, E, pdim, n, cyc)
        if not iw and not tw:
            even(parts, size, n * cyc)
            return
        if iw:
            T = Poly()
            for t in range(n):
                T = T + (sym("tw%d" % t) if tw else ONE)
            T = T * Poly.const(cyc)
            sh = [sym("tw%d" % (p % n)) if tw else ONE for p in range(n * cyc)]
            by_weight(it, parts, Shares(size, T, sh))
    return body


def f_block1(kind):
    def body(it):
        it.pdim, it.start, it.size, it.ntask, it.user = 0, sym("s0"), 3, 2, P(Obj("user"))
        box = (it.start,), (add(it.start, 3),)
        S, g = world(it, 1, 2, box)
        f = {"1": [], "_iw1": [("p", ("@", "verif_idx_weight"), 0), it.user], "_tw1": [("p", ("@", "verif_task_weight"), 0), it.user]}[kind]
        E = run_pr(it, S, g, it.call(M.fn("laik_new_block_partitioner" + kind).name, f))
        once(it, E, box, 1)
        parts = part_list(it, E, 0, 2, 1)
        if kind == "1":
            even(parts, 3, 2)
        elif not it.facts:
            raise Cut("weights are not used")
    return body


def part_list(it, E, pdim, n, cycles):
    """parts in the order of indexes: (number of the part, first index, end); as
    parts may be empty, all possible numberings"""
    rs = sorted(((add(e[1][pdim], mul(-1, it.start)), add(e[2][pdim], mul(-1, it.start)), e[0]) for e in E))
    out = [c for c in itertools.combinations(range(n * cycles), len(rs)) if all(p % n == r[2] for p, r in zip(c, rs))]
    if not out:
        raise Cut("processes do not get their blocks in order")
    return [[(p, r[0], r[1]) for p, r in zip(c, rs)] for c in out]


def even(numberings, size, k):
    """with enough indexes: each border is less than one index away from an even distribution"""
    if size < k:
        return
    if len(numberings) != 1 or len(numberings[0]) != k:
        raise Cut("a process gets no indexes although there are enough")
    for p, lo, hi in numberings[0]:
        if abs(lo - Fraction(size * p, k)) >= 1 or abs(hi - Fraction(size * (p + 1), k)) >= 1:
            raise Cut("part %d of %d is [%d,%d[ of %d indexes" % (p, k, lo, hi, size))


def by_weight(it, numberings, H, one=False):
    """parts start where the weight before reaches the share of the parts before, up to
    a rounding common to all; one: every part has one index at least"""
    ways, offs, least = [], None, 0
    for d, q, up in it.facts:
        m = H.bound(d, q, up)
        if m is not None:
            least = max(least, m)
            continue
        w = H.match(d, q)
        if not w:
            raise Cut("an index is assigned by a comparison other than of accumulated weight and share")
        ways.append((w, up))
        o = {x[2] for x in w}
        offs = o if offs is None else offs & o
    if offs is None:
        offs = {("average", 0)}
    # rounding by a constant only if it is not larger than an average index weight
    offs = {o for o in offs if o[0] == "average" or abs(o[1]) * H.size <= least}
    if not offs:
        raise Cut("accumulated weights are compared with different rounding")
    err = None
    for off in sorted(offs):
        facts = [(i, k, up if c > 0 else -up) for w, up in ways for i, k, o, c in w if o == off]
        for parts in numberings:
            err = weighted(parts, H, facts, one)
            if not err:
                return
    raise Cut(err)


def weighted(parts, H, facts, one):
    for p, lo, hi in parts:
        if lo > 0 and not any(u > 0 and i <= lo + (not one) and k >= p for i, k, u in facts):
            return "index %d starts part %d although the weight of the indexes before does not reach the share of the parts before" % (lo, p)
        x = hi - 1
        if x > lo - (not one) and p + 1 < H.parts and not any(u < 0 and i >= x + (not one) and k <= p + 1 for i, k, u in facts):
            return "index %d is given to part %d although the weight reaches the share of this part" % (x, p)
    return None


def f_reassign(ranges, n, gone, iw, size):
    """ranges: (process, first, end) of the old partitioning"""
    def body(it):
        it.pdim, it.start, it.size, it.ntask, it.user = 0, sym("s0"), size, n, P(Obj("user"))
        box = ((it.start,), (add(it.start, size),))
        S, g = world(it, 1, n, box)
        stay = [t for t in range(n) if t not in gone]
        ng = Obj("newgroup")
        fp, tp = Obj("fromParent", 4 * n), Obj("toParent", 4 * len(stay))
        for t in range(n):
            fp.cells[4 * t] = (4, stay.index(t) if t in stay else -1)
        for i, t in enumerate(stay):
            tp.cells[4 * i] = (4, t)
        setf(ng, "_Laik_Group", size=len(stay), myid=0, gid=1, parent=P(g), fromParent=P(fp), toParent=P(tp))
        rs = [[] for _ in range(n)]
        for t, a, b in ranges:
            rs[t].append(((add(it.start, a),), (add(it.start, b),), len(rs[t])))
        other = S.partitioning("other", g, rs)
        fi = ("p", ("@", "verif_idx_weight"), 0) if iw else NULL
        E = run_pr(it, S, g, new(it, "reassign", P(ng), fi, it.user if iw else NULL), other)
        once(it, E, box, 1)
        # remaining processes keep their indexes, others are given to remaining ones in order
        own = {}
        for e in E:
            for i in range(add(e[1][0], mul(-1, it.start)), add(e[2][0], mul(-1, it.start))):
                own[i] = e[0]
        moved = []
        for t in range(n):
            for _, a, b in [r for r in ranges if r[0] == t]:
                for i in range(a, b):
                    if t in stay and own[i] != t:
                        raise Cut("a remaining process loses an index")
                    if t in gone:
                        if own[i] not in stay:
                            raise Cut("an index is given to a process not in the new group")
                        moved.append((i, stay.index(own[i])))
        if any(a[1] > b[1] for a, b in zip(moved, moved[1:])):
            raise Cut("processes do not get their indexes in order")
        k = len(stay)
        if not iw:
            for j, (i, p) in enumerate(moved):
                if not (Fraction(j + 1) > Fraction(len(moved) * p, k) - 1 and Fraction(j) < Fraction(len(moved) * (p + 1), k) + 1):
                    raise Cut("indexes of removed processes are not distributed evenly")
            return
        ren = {"w%d" % i: "w%d" % j for j, (i, _) in enumerate(moved)}
        it.facts = [(rename(d, ren), rename(q, ren), u) for d, q, u in it.facts]
        H = Shares(len(moved), Poly.const(k), [ONE] * k)
        parts = []
        for j, (i, p) in enumerate(moved):
            if parts and parts[-1][0] == p:
                parts[-1] = (p, parts[-1][1], j + 1)
            else:
                parts.append((p, j, j + 1))
        by_weight(it, [parts], H, True)
    return body


def rename(p, m):
    return Poly({tuple(sorted((m.get(x, x) for x in k), key=repr)): v for k, v in p.t.items()})


ANCHOR = {"derived": "runHaloPartitioner", "simple": "runAllPartitioner", "bisection": "runBisectionPartitioner", "grid": "runGridPartitioner",
          "block": "runBlockPartitioner", "reassign": "runReassignPartitioner"}


def families(thorough):
    F = []
    A = lambda *x: F.append(x)
    for d in (1, 2, 3):
        for n in (1, 3):
            A("simple", "all, %d-d, %d processes" % (d, n), f_all(d, n))
            A("simple", "master, %d-d, %d processes" % (d, n), f_master(d, n))
    for od, nd in itertools.product((1, 2, 3), repeat=2):
        for frm in range(od):
            for to in range(nd):
                A("derived", "copy of dimension %d of %d to %d of %d" % (frm, od, to, nd), f_copy(od, nd, frm, to, (1, 0, 2, 1)))
    for corner in (0, 1):
        nm = "with corners" if corner else "without corners"
        for depth in (0, 1, 2, 3):
            A("derived", "halo %s, depth %d, 1-d blocks" % (nm, depth), f_halo((3,), (0, 1, 2), depth, corner))
            A("derived", "halo %s, depth %d, two blocks of a process" % (nm, depth), f_halo((3,), (0, 1, 0), depth, corner))
        for depth in (1, 2):
            A("derived", "halo %s, depth %d, 2-d" % (nm, depth), f_halo((2, 2), (0, 1, 2, 3), depth, corner))
            A("derived", "halo %s, depth %d, 2-d columns" % (nm, depth), f_halo((1, 3), (0, 1, 2), depth, corner))
            A("derived", "halo %s, depth %d, 3-d" % (nm, depth), f_halo((1, 1, 3), (2, 1, 0), depth, corner))
            A("derived", "halo %s, depth %d, 3-d in the first" % (nm, depth), f_halo((2, 1, 1), (1, 0), depth, corner))
            A("derived", "halo %s, depth %d, 3-d in the second" % (nm, depth), f_halo((1, 2, 1), (1, 0), depth, corner))
    for d in (1, 2, 3):
        for n in (1, 2, 3, 4) + ((5,) if d == 1 or thorough else ()) + ((6, 7) if d == 1 else ()):
            A("bisection", "%d-d, %d processes" % (d, n), f_bisect(d, n))
    for w in range(1, 10):
        A("bisection", "1-d, %d indexes" % w, f_seq([f_bisect_sized((w,), n) for n in range(1, 10)]))
    for w in itertools.product((1, 2, 3), repeat=2):
        A("bisection", "2-d, %d x %d indexes" % w, f_seq([f_bisect_sized(w, n) for n in range(1, 11)]))
    for w in ((1, 1, 2), (1, 3, 2), (2, 1, 1), (3, 2, 1), (2, 2, 3), (1, 3, 3), (2, 1, 3)):
        A("bisection", "3-d, %d x %d x %d indexes" % w, f_seq([f_bisect_sized(w, n) for n in range(1, 8)]))
    for b in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (1, 3, 1), (1, 1, 4), (2, 2, 1), (1, 2, 2), (2, 2, 2)) + (((3, 2, 1), (2, 3, 2)) if thorough else ()):
        k = b[0] * b[1] * b[2]
        A("grid", "%d x %d x %d blocks" % b, f_grid(b, k))
        A("grid", "%d x %d x %d blocks, more processes" % b, f_grid(b, k + 2))
    for size, n, cyc in [(s, n, 1) for s in (1, 2, 3, 4, 5, 7, 12) for n in (1, 2, 3, 4, 6)] + [(s, n, c) for s in (1, 3, 4, 6, 9) for n in (1, 2, 3) for c in (2, 3)]:
        A("block", "%d indexes, %d processes, %d cycles" % (size, n, cyc), f_block(1, 0, size, n, cyc, 0, 0))
    for pd in (0, 1):
        A("block", "2-d, dimension %d" % pd, f_block(2, pd, 5, 2, 1, 0, 0))
    for pd in (0, 1, 2):
        A("block", "3-d, dimension %d" % pd, f_block(3, pd, 4, 3, 1, 1, 0))
    for size, n, cyc in ((3, 2, 1), (4, 3, 1), (5, 2, 1), (4, 2, 2)) + (((6, 3, 1), (5, 2, 2), (6, 2, 2)) if thorough else ()):
        A("block", "%d indexes with weights, %d processes, %d cycles" % (size, n, cyc), f_block(1, 0, size, n, cyc, 1, 0))
        A("block", "%d indexes with weights, %d processes with weights, %d cycles" % (size, n, cyc), f_block(1, 0, size, n, cyc, 1, 1))
    for size, n, cyc in ((4, 3, 1), (5, 2, 2)):
        A("block", "%d indexes, %d processes with weights, %d cycles" % (size, n, cyc), f_block(1, 0, size, n, cyc, 0, 1))
    for cyc in (-1, 0, 1, 2, 11):
        A("block", "cycle count set to %d" % cyc, f_block(1, 0, 5, 2, cyc, 0, 0, True))
    A("block", "weights set later", f_block(1, 0, 4, 2, 1, 1, 1, True))
    A("block", "weights of indexes set later", f_block(1, 0, 4, 2, 1, 1, 0, True))
    A("block", "weights of processes set later", f_block(1, 0, 3, 2, 1, 0, 1, True))
    for kind in ("1", "_iw1", "_tw1"):
        A("block", "constructor for 1-d " + kind, f_block1(kind))
    for iw in (0, 1):
        nm = "with weights" if iw else "without weights"
        A("reassign", "first of three, " + nm, f_reassign(((0, 0, 4), (1, 4, 5), (2, 5, 6)), 3, (0,), iw, 6))
        A("reassign", "middle of three, " + nm, f_reassign(((0, 0, 1), (1, 1, 4), (2, 4, 6)), 3, (1,), iw, 6))
        A("reassign", "two of three, " + nm, f_reassign(((0, 0, 2), (1, 2, 3), (2, 3, 5)), 3, (0, 2), iw, 5))
        A("reassign", "two of four, " + nm, f_reassign(((0, 0, 2), (1, 2, 3), (2, 3, 5), (3, 5, 6)), 4, (0, 2), iw, 6))
        A("reassign", "process with two ranges, " + nm, f_reassign(((0, 0, 2), (1, 2, 3), (0, 3, 5), (2, 5, 6)), 3, (0,), iw, 6))
        A("reassign", "nobody, " + nm, f_reassign(((0, 0, 2), (1, 2, 3)), 2, (), iw, 3))
        A("reassign", "process without ranges, " + nm, f_reassign(((0, 0, 2), (1, 2, 3)), 3, (2,), iw, 3))
    return F


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, FInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 4)
    return __doc__
