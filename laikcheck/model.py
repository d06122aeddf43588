"""Model objects of LAIK's data structures for the order-domain interpreter:
layouts come from the debug info of the analysed tree."""
from functools import cmp_to_key
from . import core
from .absint import Interp, Obj, Abort, Undecided, sym, is_ptr, NULL, UNDEF, Cut
from .build import AnalysisError
from .norm import Poly

M = None
FULL_INFO = None


def load():
    global M, FULL_INFO
    M = core.load()
    FULL_INFO = M.enum_const("LAIK_RI_FULL")
    if FULL_INFO is None:
        raise AnalysisError("no enumerator LAIK_RI_FULL")
    return M


def fo(s, field):
    """(byte offset, size) of a field"""
    d = M.di.get(s) or M.di.get(s.lstrip("_"))
    if d is None:
        raise AnalysisError("no type " + s)
    for m in d["m"]:
        if m[0] == field:
            return m[1] // 8, m[2] // 8
    raise AnalysisError("no field %s.%s" % (s, field))


def setf(o, s, _base=0, **kw):
    for k, v in kw.items():
        off, size = fo(s, k)
        o.cells[_base + off] = (size, v)


def P(o):
    return ("p", o, 0) if o is not None else NULL


def ssize(s):
    t = M.structs.get("struct." + s)
    if t is None:
        raise AnalysisError("no struct " + s)
    return t["size"]


def h_qsort(it, a):
    o, off = it.deref(a[0])
    n, sz, cmpf = a[1], a[2], a[3]
    if not isinstance(n, int) or not isinstance(sz, int):
        raise Undecided("qsort of unknown extent")
    it.bounds(o, off, n * sz)
    elems = []
    for i in range(n):
        lo = off + i * sz
        elems.append({k - lo: c for k, c in o.cells.items() if lo <= k < lo + sz})

    def mk(e):
        x = Obj("qs")
        x.cells = dict(e)
        return x

    def cmp(x, y):
        if x is y:
            return 0
        r = it.call(cmpf[1][1], [P(mk(x)), P(mk(y))])
        return it.cmpv(r, 0)
    elems.sort(key=cmp_to_key(cmp))
    for k in [k for k in o.cells if off <= k < off + n * sz]:
        del o.cells[k]
    for i, e in enumerate(elems):
        for k, c in e.items():
            o.cells[off + i * sz + k] = c
    return None


class TInterp(Interp):
    def __init__(self, choose):
        super().__init__(M, choose, handlers={"qsort": h_qsort, "strdup": lambda i, a: P(Obj("str")),
                                              "sprintf": lambda i, a: 0, "snprintf": lambda i, a: 0}, budget=400000)
        self.stale_globals = False

    def loadm(self, p, size, ty):
        v = super().loadm(p, size, ty)
        # flag storage of partially initialised bit fields
        if isinstance(v, tuple) and v[0] == "u" and size == 1 and any(u.op in ("and", "or", "shl", "lshr") for u in self.cur.users):
            return 0
        return v


class Setup:
    """partitionings as data structures: frm/to: list per process of (lo tuple, hi tuple, mapNo)"""

    def __init__(self, it, dims, size, space_box):
        self.it, self.dims, self.size = it, dims, size
        self.space = Obj("space")
        setf(self.space, "_Laik_Space", dims=dims, name=P(Obj("name")), id=0)
        self.rng_at(self.space, fo("_Laik_Space", "range")[0], space_box)

    def rng_at(self, o, base, box):
        setf(o, "_Laik_Range", base, space=P(self.space))
        for d in range(self.dims):
            o.cells[base + fo("_Laik_Range", "from")[0] + 8 * d] = (8, box[0][d])
            o.cells[base + fo("_Laik_Range", "to")[0] + 8 * d] = (8, box[1][d])

    def group(self, myid):
        g = Obj("group")
        setf(g, "_Laik_Group", size=self.size, myid=myid, gid=0)
        return g

    def rangelist(self, ranges, tag0=1):
        L = Obj("rangelist")
        n = sum(len(r) for r in ranges)
        tr, off = Obj("trange"), Obj("off")
        k = 0
        esz = ssize("_Laik_TaskRange_Gen")
        rb = fo("_Laik_TaskRange_Gen", "range")[0]
        for t, rs in enumerate(ranges):
            off.cells[4 * t] = (4, k)
            for lo, hi, mapno in rs:
                setf(tr, "_Laik_TaskRange_Gen", k * esz, task=t, tag=mapno + tag0, mapNo=mapno, data=NULL)
                self.rng_at(tr, k * esz + rb, (lo, hi))
                k += 1
        off.cells[4 * len(ranges)] = (4, k)
        setf(L, "_Laik_RangeList", space=P(self.space), tid_count=len(ranges), capacity=n, count=n, trange=P(tr), tss1d=NULL, off=P(off),
             map_tid=-1, map_count=0, map_off=NULL)
        return L

    def partitioning(self, name, group, ranges, tag0=1):
        e = Obj("entry")
        setf(e, "_RangeList_Entry", info=FULL_INFO, filter_tid=-1, other=NULL, ranges=P(self.rangelist(ranges, tag0)), next=NULL)
        p = Obj(name)
        setf(p, "_Laik_Partitioning", id=0, name=P(Obj("name")), group=P(group), space=P(self.space), rangeList=P(e), partitioner=NULL, other=NULL)
        return p


def rd(o, off, size=None):
    c = o.cells.get(off)
    return c[1] if c else UNDEF


def chain(it, *syms):
    for a, b in zip(syms, syms[1:]):
        it.order.add(a, -1, b)


def V(*names):
    return tuple(sym(n) if isinstance(n, str) else n for n in names)


def ranks(it, coords):
    """sort symbols of one dimension in the current refinement -> list of representative classes"""
    out = []
    for cd in coords:
        i = 0
        placed = False
        while i < len(out):
            k = it.cmpv(cd, out[i][0])
            if k == 0:
                out[i].append(cd)
                placed = True
                break
            if k < 0:
                break
            i += 1
        if not placed:
            out.insert(i, [cd])
    return out


def ordering(it):
    out = ["%s<%s" % (a, b) for a, bs in it.order.lt.items() for b in bs] + ["%s=%s" % (b, a) for b, a in it.order.par.items()]
    return ", ".join(sorted(out) + getattr(it, "_sized", [])) or "any order"


class PosInterp(TInterp):
    """additionally: symbols named '+...' are integers >= 1; memory may be
    addressed at polynomial offsets (contents moved by memcpy only)"""

    @property
    def sized(self):
        return self.__dict__.setdefault("_sized", [])

    def cmpv(self, a, b):
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and not (isinstance(a, int) and isinstance(b, int)):
            pa = Poly.const(a) if isinstance(a, int) else a
            pb = Poly.const(b) if isinstance(b, int) else b
            s = self.sign(pa - pb)
            if s is not None:
                return s
        return super().cmpv(a, b)

    def rel(self, p, a, b):
        """a relation of integers; less refinement than a three-way comparison"""
        if p in ("lt", "ge", "le", "gt") and not (isinstance(a, int) and isinstance(b, int)):
            d = add(a, mul(-1, b)) if p in ("lt", "ge") else add(b, mul(-1, a))
            for t, r in ((add(d, 1), 1), (d, -1)):
                if isinstance(t, int):
                    t = Poly.const(t)
                if self.sign(t, False) == r:
                    return (r > 0) == (p in ("ge", "le"))
        return super().rel(p, a, b)

    def sign(self, d, refine=True):
        """sign of a polynomial in positive integers; refines 'a symbol is 1 or
        larger' when the polynomial is known not to have the other sign"""
        lb = self.__dict__.setdefault("lb", {})
        while True:
            if d.is_const():
                return (d.cval() > 0) - (d.cval() < 0)
            atoms = {x for k in d.t for x in k}
            if not all(isinstance(x, str) and x[0] == "+" for x in atoms):
                return None
            u = d
            for x in atoms:
                v = lb.get(x, 1)
                # v < 0: exactly -v;  otherwise x = v + (something >= 0)
                u = u.subst(x, Poly.const(-v) if v < 0 else Poly.atom(x) + Poly.const(v))
            c = u.cval() if u.is_const() else u.t.get((), 0)
            if u.is_const():
                return (c > 0) - (c < 0)
            co = [v for k, v in u.t.items() if k]
            for sg in (1, -1):
                if all(v * sg > 0 for v in co):
                    if c * sg > 0:
                        return sg
                    if c == 0:
                        if not refine:
                            return None
                        x = min(x for k in u.t for x in k)
                        v = lb.get(x, 1)
                        lb[x] = -v if self.choose(2) else v + 1
                        self.sized.append("%s%s%d" % (x, "=" if lb[x] < 0 else ">", v))
                        break
            else:
                return None

    def same(self, a, b):
        """equal for all values left by the refinement"""
        d = add(a, mul(-1, b))
        if isinstance(d, Poly):
            for x, v in self.__dict__.get("lb", {}).items():
                if v < 0:
                    d = d.subst(x, Poly.const(-v))
            if d.is_const():
                d = d.cval()
        return not isinstance(d, Poly) and d == 0

    def ucmp(self, I, a, b):
        if self.rel("lt", a, 0) or self.rel("lt", b, 0):
            raise Undecided("unsigned comparison of a negative value at " + I.loc())
        return int(self.rel(I.raw["p"][1:], a, b))


def pick_pos(it, name):
    """0 or a positive symbol"""
    return sym("+" + name) if it.choose(2) else 0


def add(*vs):
    r = Poly.const(0)
    for v in vs:
        r = r + (Poly.const(v) if isinstance(v, int) else v)
    return r.cval() if r.is_const() else r


def mul(*vs):
    r = Poly.const(1)
    for v in vs:
        r = r * (Poly.const(v) if isinstance(v, int) else v)
    return r.cval() if r.is_const() else r


def divpoly(p, q):
    """p / q for polynomials when exact, q a monomial with coefficient 1 or an int; else None"""
    if isinstance(p, int):
        p = Poly.const(p)
    if isinstance(q, int):
        if q and all(v % q == 0 for v in p.t.values()):
            r = Poly({k: v // q for k, v in p.t.items()})
            return r.cval() if r.is_const() else r
        return None
    if len(q.t) != 1 or list(q.t.values()) != [1]:
        return None
    m = list(q.t)[0]
    out = {}
    for k, v in p.t.items():
        k = list(k)
        for a in m:
            if a not in k:
                return None
            k.remove(a)
        out[tuple(k)] = v
    r = Poly(out)
    return r.cval() if r.is_const() else r


def run_family(i, f, mk, limit=400000):
    """explore all refinements of one family; (i, partitions, error, functions)"""
    from .absint import explore
    n = 0
    cov = set()

    def body(ch):
        it = mk(ch)
        e = None
        try:
            f(it)
        except Cut as x:
            e = str(x) if x.args[0] else None
        except Abort as x:
            e = "fails: %s" % x
        except Undecided as x:
            return "?%s" % x
        cov.update(it.covered)
        return e and "%s (%s)" % (e, ordering(it))
    for e in explore(body, limit):
        n += 1
        if e:
            return i, n, e, cov
    return i, n, None, cov


def run_rules(c, M, F, anchor, worker, chunk=2, unit="order partitions examined"):
    import time
    from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
    for a in anchor.values():
        M.fn(a)
    cov = set()
    und = None
    known = {k[1] for k in core.known_findings() if k[0] == c.pid}
    ex = ProcessPoolExecutor(8)
    fs = [ex.submit(worker, i) for i in range(len(F))]
    left = set(fs)
    try:
        while left:
            done, left = wait(left, timeout=max(1, 840 - (time.time() - c.t0)), return_when=FIRST_COMPLETED)
            if not done:
                raise AnalysisError("analysis does not end in time")
            for f in sorted(done, key=fs.index):
                i, n, e, cv = f.result()
                cov |= cv
                rule, name = F[i][:2]
                c.count(unit, n)
                if e and e[0] == "?":
                    und = und or "%s: not decided by the domain: %s" % (name, e[1:])
                    continue
                c.check(e is None, rule, name, M.fn(anchor[rule]).loc(), e or "")
            if any(v["key"] not in known for v in c.violations):
                break       # one violation settles it
    finally:
        for f in left:
            f.cancel()
        for p in list((ex._processes or {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    if und and not c.violations:
        raise AnalysisError(und)
    c.count("functions interpreted", len(cov))
    c.samples += sorted(cov)
