"""Memory behind a container's mappings over partitioning switches.

Switching, reserving, executing prepared transitions and all mapping queries of
data.c are interpreted over the order domain for one process, with opaque range
borders, opaque element size and memory blocks addressed by polynomials.  After
every step: each mapping covers exactly the hull of its ranges, lies inside one
live block of sufficient size that no other mapping uses, index <-> address
queries agree with the layout; indexes that stay local keep their value, indexes
to send are intact when the backend runs, received values survive; old blocks
are freed exactly once and only when no mapping uses them."""
from functools import cmp_to_key
from .. import model
from ..absint import Abort, Undecided, sym, is_ptr, NULL, Cut, Obj, UNDEF
from ..absint import _free as base_free
from ..build import AnalysisError
from ..model import P, PosInterp, Setup, V, add, chain, divpoly, fo, mul, ranks, rd, setf, ssize
from ..norm import Poly
from .C08 import read_ops
from . import C08

M = None
THOROUGH = False
ES = sym("+es")


class Block(Obj):
    """element memory; log of writes (start element, count, source)"""

    def __init__(self, name, size):
        super().__init__(name, None)
        self.bytes = size
        self.log = []
        self.frees = 0


class DInterp(PosInterp):
    def __init__(self, ch):
        super().__init__(ch)
        self.blocks = []
        self.freed_blocks = []
        h = self.handlers
        h["malloc"] = self.h_malloc
        h["free"] = self.h_free
        h["laik_addDataForInstance"] = lambda i, a: None
        h["getenv"] = lambda i, a: NULL
        for n in ("laik_log_Range", "laik_log_Index", "laik_log_Transition", "laik_log_ActionSeq", "laik_wtime", "laik_aseq_calc_stats",
                  "laik_aseq_activateNewActions", "laik_aseq_addTExec", "laik_switchstat_addASeq"):
            h[n] = lambda i, a: None
        h["laik_aseq_new"] = self.h_as_new
        h["laik_aseq_addTContext"] = self.h_ctx
        h["laik_aseq_free"] = self.h_as_free
        h["model_exec"] = self.h_exec
        h["model_init"] = self.h_init
        self.live_as = 0
        self.execs = 0

    def truncate(self, v, I):
        # counts are passed to type callbacks as int (documented limit); indexes never fit
        if isinstance(v, Poly):
            if any(x[0] == "o" for k in v.t for x in k):
                raise Cut("index truncated to %s at %s" % (I.ty, I.loc()))
            if I.ty == "i32":
                return v
        return super().truncate(v, I)

    # ---- memory ------------------------------------------------------------
    @staticmethod
    def h_malloc(it, a):
        n = a[0]
        if isinstance(n, Poly) and not n.is_const():
            b = Block("block%d" % len(it.blocks), n)
            it.blocks.append(b)
            return P(b)
        return ("p", Obj("heap", n if isinstance(n, int) else None, fresh=True), 0)

    @staticmethod
    def h_free(it, a):
        p = a[0]
        if is_ptr(p) and isinstance(p[1], Block):
            b = p[1]
            if b.freed:
                raise Cut("memory of a mapping is freed twice")
            if b.bytes is None or p[2] != 0:
                raise Cut("memory that was not allocated by LAIK is freed")
            b.freed = True
            return None
        return base_free(it, a)

    def memcpy(self, d, s, n):
        if is_ptr(d) and isinstance(d[1], Block) or is_ptr(s) and isinstance(s[1], Block):
            for p in (d, s):
                if not isinstance(p[1], Block):
                    raise Undecided("element memory copied from or to other memory")
            db, sb = d[1], s[1]
            self.inside(d, n)
            self.inside(s, n)
            if db is sb:
                raise Cut("data copied inside one block although the mapping reuses it")
            db.log.append((self.elem(d[2]), self.elem(n), ("copy", sb, self.elem(s[2]), len(sb.log))))
            return
        super().memcpy(d, s, n)

    def elem(self, off):
        e = divpoly(off, ES)
        if e is None:
            raise Cut("byte offset %r is no multiple of the element size" % (off,))
        return e

    def inside(self, p, n):
        b = p[1]
        if b.freed:
            raise Cut("freed memory of a mapping is accessed")
        lo = self.elem(p[2])
        hi = self.elem(add(p[2], n))
        if self.rel("lt", lo, 0) or b.bytes is not None and self.rel("gt", hi, self.elem(b.bytes)):
            raise Cut("elements %r..%r accessed in memory of %r elements" % (lo, hi, b.bytes and self.elem(b.bytes)))

    def value(self, b, pos, upto=None):
        for k in range((len(b.log) if upto is None else upto) - 1, -1, -1):
            st, n, src = b.log[k]
            if self.rel("ge", pos, st) and self.rel("lt", pos, add(st, n)):
                if src[0] == "copy":
                    return self.value(src[1], add(pos, mul(-1, st), src[2]), src[3])
                if src[0] == "seq":          # values of consecutive indexes
                    return (src[1], add(pos, mul(-1, st), src[2]))
                return src
        return ("unset",)

    # ---- action sequence and backend -----------------------------------------
    @staticmethod
    def h_as_new(it, a):
        it.live_as += 1
        o = Obj("aseq")
        o.model = {}
        c0 = Obj("ctx0")
        arr = Obj("ctxs")
        arr.cells[0] = (8, P(c0))
        o.ctx = c0
        off, _ = fo("_Laik_ActionSeq", "context")
        o.cells[off] = (8, P(c0))
        setf(o, "_Laik_ActionSeq", backend=NULL, name=P(Obj("n")))
        return P(o)

    @staticmethod
    def h_ctx(it, a):
        o, d, t, fl, tl = a[0][1], a[1], a[2], a[3], a[4]
        setf(o.ctx, "_Laik_TransitionContext", data=d, transition=t, fromList=fl, toList=tl, prepFromList=NULL, prepToList=NULL)
        return 0

    @staticmethod
    def h_as_free(it, a):
        if a[0][1].freed:
            raise Cut("action sequence freed twice")
        a[0][1].freed = True
        it.live_as -= 1

    @staticmethod
    def h_exec(it, a):
        if a[0][1].freed:
            raise Cut("freed action sequence executed")
        ctx = a[0][1].ctx
        g = lambda f: rd(ctx, fo("_Laik_TransitionContext", f)[0])
        it.execs += 1
        it.on_exec(g("transition"), g("fromList"), g("toList"))

    @staticmethod
    def h_init(it, a):
        p, n, op = a
        if not is_ptr(p) or not isinstance(p[1], Block):
            raise Undecided("initialisation of other memory")
        it.inside(p, mul(n, ES))
        p[1].log.append((it.elem(p[2]), n, ("init", op)))


def fix(it, shapes, extra=()):
    """total order of all coordinates of the given range lists; every coordinate
    becomes origin + sum of positive gaps, so that any size comparison that
    follows from the order is decided"""
    names = {}
    for rs in shapes:
        for lo, hi, _ in rs:
            for d in range(len(lo)):
                for v in (lo[d], hi[d]):
                    names.setdefault(d, [])
                    if v not in names[d]:
                        names[d].append(v)
    for d in range(3):
        box = V("s%d" % d, "e%d" % d)
        for v in box:
            if v not in names.setdefault(d, []):
                names[d].append(v)
        it.order.add("s%d" % d, -1, "e%d" % d)
    for d, n in extra:
        names[d].append(sym(n))
    env = {}
    for d, vs in names.items():
        pos = sym("o%d" % d)
        for k, cl in enumerate(ranks(it, vs)):
            if k:
                pos = add(pos, sym("+g%d.%d" % (d, k)))
            for v in cl:
                env[v] = pos
    sub = [[(tuple(env[v] for v in lo), tuple(env[v] for v in hi), k) for lo, hi, k in rs] for rs in shapes]
    return sub, env


class World:
    def __init__(self, it, dims, env, size=1, myid=0):
        self.it, self.dims, self.env = it, dims, env
        box = tuple(tuple(env[sym("%s%d" % (e, d))] for d in range(dims)) for e in "se")
        self.S = Setup(it, dims, size, box)
        self.myid = myid
        inst, be, prof, ty = Obj("inst"), Obj("backend"), Obj("prof"), Obj("type")
        setf(prof, "_Laik_Profiling_Controller", do_profiling=0)
        setf(be, "_Laik_Backend", prepare=NULL, exec=("p", ("@", "model_exec"), 0), name=P(Obj("n")))
        setf(inst, "_Laik_Instance", backend=P(be), profiling=P(prof))
        setf(ty, "_Laik_Type", size=ES, init=("p", ("@", "model_init"), 0), name=P(Obj("n")))
        setf(self.S.space, "_Laik_Space", inst=P(inst))
        a = it.call(M.fn("laik_new_allocator_def").name, [])
        it.storem(("p", ("@", M.fn_global("laik_allocator_def") if hasattr(M, "fn_global") else "laik_allocator_def"), 0), 8, a)
        self.d = it.call(M.fn("laik_new_data").name, [P(self.S.space), P(ty)])
        self.set(stat=NULL)
        self.g = self.S.group(myid)
        self.n = 0
        it.on_exec = self.on_exec
        self.recvd = []
        self.cur = None            # (partitioning, own boxes per mapping)

    def set(self, **kw):
        o, off = self.it.deref(self.d)
        setf(o, "_Laik_Data", off, **kw)

    def get(self, f):
        o, off = self.it.deref(self.d)
        return rd(o, off + fo("_Laik_Data", f)[0])

    def part(self, ranges, tag0=1):
        """ranges: per process list of (lo, hi, mapNo)"""
        self.n += 1
        p = self.S.partitioning("p%d" % self.n, self.g, ranges, tag0)
        p.own = ranges[self.myid]
        return p

    # ---- observation -------------------------------------------------------
    def maps(self):
        """current mapping descriptors -> list of dicts"""
        it = self.it
        ml = self.get("activeMappings")
        if ml == NULL or ml == UNDEF:
            return None
        o, off = it.deref(ml)
        n = rd(o, off + fo("_Laik_MappingList", "count")[0])
        b0 = fo("_Laik_MappingList", "map")[0]
        out = []
        for k in range(n):
            b = off + b0 + k * ssize("_Laik_Mapping")
            m = {f: rd(o, b + fo("_Laik_Mapping", f)[0]) for f in ("mapNo", "layout", "layoutSection", "count", "start", "base", "data", "allocator", "capacity")}
            m["ptr"] = ("p", o, b)
            m["req"] = self.rng(o, b + fo("_Laik_Mapping", "requiredRange")[0])
            m["alloc"] = self.rng(o, b + fo("_Laik_Mapping", "allocatedRange")[0])
            out.append(m)
        return out

    def rng(self, o, b):
        return (tuple(rd(o, b + fo("_Laik_Range", "from")[0] + 8 * d) for d in range(self.dims)),
                tuple(rd(o, b + fo("_Laik_Range", "to")[0] + 8 * d) for d in range(self.dims)))

    def hull(self, boxes):
        it = self.it
        lo, hi = list(boxes[0][0]), list(boxes[0][1])
        for b in boxes[1:]:
            for d in range(self.dims):
                if it.rel("lt", b[0][d], lo[d]):
                    lo[d] = b[0][d]
                if it.rel("gt", b[1][d], hi[d]):
                    hi[d] = b[1][d]
        return tuple(lo), tuple(hi)

    def eq(self, a, b):
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            return self.it.cmpv(a, b) == 0
        return a == b

    def index(self, v):
        o = Obj("idx")
        for k in range(3):
            o.cells[8 * k] = (8, v[k] if k < self.dims else 0)
        return P(o)

    def addr(self, m, idx):
        """address of an index by definition: layout offset from the block start"""
        off = self.it.call("laik_offset", [m["layout"], m["layoutSection"], self.index(idx)])
        s = m["start"]
        return ("p", s[1], add(s[2], mul(off, ES)))

    def check_maps(self, p):
        it = self.it
        nm = len({r[2] for r in p.own})
        ms = self.maps()
        if ms is None:
            raise Cut("no mappings after a switch")
        if len(ms) != nm:
            raise Cut("%d mappings instead of %d" % (len(ms), nm))
        for k, m in enumerate(ms):
            if m["mapNo"] != k or m["data"] != self.d:
                raise Cut("mapping %d has wrong number or container" % k)
            h = self.hull([r[:2] for r in p.own if r[2] == k])
            if not all(self.eq(m["req"][e][d], h[e][d]) for e in (0, 1) for d in range(self.dims)):
                raise Cut("mapping %d covers %s instead of %s" % (k, m["req"], h))
            n = 1
            for d in range(self.dims):
                n = mul(n, add(h[1][d], mul(-1, h[0][d])))
            if not it.same(m["count"], n):
                raise Cut("mapping %d has %r instead of %r elements" % (k, m["count"], n))
            for f in ("start", "base"):
                if not is_ptr(m[f]) or not isinstance(m[f][1], Block):
                    raise Cut("mapping %d has no memory (%s)" % (k, f))
                if m[f][1].freed:
                    raise Cut("mapping %d uses freed memory" % k)
            a = self.addr(m, m["req"][0])
            if a[1] is not m["base"][1] or not it.same(a[2], m["base"][2]):
                raise Cut("base address of mapping %d is not the address of its first index" % k)
            b = m["start"][1]
            if not it.same(m["capacity"], b.bytes if b.bytes is not None else self.provided):
                raise Cut("mapping %d: capacity is %r bytes" % (k, m["capacity"]))
            if self.dims == 1:
                it.inside(m["base"], mul(m["count"], ES))
                last = self.addr(m, (add(h[1][0], -1),))
                if not it.same(last[2], add(m["base"][2], mul(ES, add(m["count"], -1)))):
                    raise Cut("mapping %d is not contiguous" % k)
            else:
                last = self.addr(m, tuple(add(x, -1) for x in h[1]))
                b = m["base"][1]
                # the block holds all elements of the allocated range
                na = 1
                for d in range(self.dims):
                    na = mul(na, add(m["alloc"][1][d], mul(-1, m["alloc"][0][d])))
                if b.bytes is not None and not it.same(b.bytes, mul(na, ES)):
                    raise Cut("memory of %r bytes for an allocation of %r elements" % (b.bytes, na))
                for d in range(self.dims):
                    if it.rel("gt", m["alloc"][0][d], h[0][d]) or it.rel("lt", m["alloc"][1][d], h[1][d]):
                        raise Cut("allocated range does not cover the required one")
        blocks = [m["start"][1] for m in ms]
        return ms

    def check_owner(self, ms, held=()):
        """every live block is owned by exactly one mapping (held: blocks owned by others)"""
        use = [m["start"][1] for m in ms]
        for b in self.it.blocks:
            n = sum(1 for x in use if x is b)
            if n > 1 and b not in held:
                raise Cut("two mappings share one memory block")
            if not b.freed and not n and b not in held:
                raise Cut("memory of an old mapping is neither used nor freed")
        for m in ms:
            b = m["start"][1]
            own = m["allocator"] != NULL
            if own != (b not in held):
                raise Cut("mapping %d %s" % (m["mapNo"], "owns memory that is not its own" if own else "does not own its memory: it is never freed"))

    def queries(self, ms, k, pos="x"):
        """index queries for one opaque index"""
        it = self.it
        d = self.d
        for n in range(-1, len(ms) + 1):
            r = it.call("laik_get_map", [d, n])
            want = ms[n]["ptr"] if 0 <= n < len(ms) else NULL
            if (r if r != 0 else NULL) != want:
                raise Cut("mapping query %d returns %r" % (n, r))
            if want == NULL:
                continue
            if it.call("laik_map_get_mapNo", [r]) != n:
                raise Cut("wrong mapping number")
        if not ms:
            return
        m = ms[k]
        out = [Obj("o%d" % i) for i in range(6)]

        def o(i):
            c = out[i].cells.get(0)
            return c[1] if c else UNDEF
        sizes = [add(m["req"][1][i], mul(-1, m["req"][0][i])) for i in range(self.dims)]
        if self.dims == 1:
            it.call("laik_get_map_1d", [d, k, P(out[0]), P(out[1])])
            if o(0) != m["base"] or not it.same(o(1), m["count"]):
                raise Cut("1-d mapping query returns %r, %r" % (o(0), o(1)))
            it.call("laik_get_map_1d", [d, len(ms), P(out[0]), P(out[1])])
            if o(0) not in (NULL, 0) or o(1) != 0:
                raise Cut("query of a mapping that does not exist returns memory")
            x = self.env[sym(pos)]
            # position of the index relative to every mapping
            inside = [i for i, mm in enumerate(ms) if it.rel("le", mm["req"][0][0], x) and it.rel("lt", x, mm["req"][1][0])]
            r = it.call("laik_global2local_1d", [d, x, P(out[0])])
            r2 = it.call("laik_global2maplocal_1d", [d, x, P(out[1]), P(out[2])])
            for q, lo, what in ((r, o(0), "local"), (r2, o(2), "mapping-local")):
                if not inside:
                    if q not in (NULL, 0):
                        raise Cut("an index that is not local gets a %s index" % what)
                    continue
                if q in (NULL, 0) or q not in [ms[i]["ptr"] for i in inside]:
                    raise Cut("a local index is not found (%s)" % what)
                mm = [mm for mm in ms if mm["ptr"] == q][0]
                if not it.same(lo, add(x, mul(-1, mm["req"][0][0]))):
                    raise Cut("%s index %r for index x in %s" % (what, lo, mm["req"]))
                # inverse
                if it.call("laik_maplocal2global_1d", [d, mm["mapNo"], lo]) != x:
                    raise Cut("mapping-local to global translation is not the inverse")
                if len(ms) == 1 and it.call("laik_local2global_1d", [d, lo]) != x:
                    raise Cut("local to global translation is not the inverse")
                ad = it.call("laik_get_map_addr", [d, mm["mapNo"], self.index((x,))])
                want = self.addr(mm, (x,))
                if not is_ptr(ad) or ad[1] is not want[1] or not it.same(ad[2], want[2]):
                    raise Cut("address of an index is element %r of the memory instead of %r" % (divpoly(ad[2], ES), divpoly(want[2], ES)))
            if o(1) != (inside[0] if len(inside) == 1 else o(1)) or not inside and o(1) != -1:
                raise Cut("mapping number %s of the index, expected %s" % (o(1), inside or -1))
        elif self.dims == 2:
            it.call("laik_get_map_2d", [d, k] + [P(x) for x in out[:4]])
            got = [o(0), o(1), o(2), o(3)]
            stride = it.call("laik_layout_lex_stride", [m["layout"], m["layoutSection"], 1])
            want = [m["base"], sizes[1], stride, sizes[0]]
            self.cmp(got, want, "2-d mapping query")
        else:
            it.call("laik_get_map_3d", [d, k] + [P(x) for x in out[:6]])
            st = [it.call("laik_layout_lex_stride", [m["layout"], m["layoutSection"], i]) for i in range(3)]
            self.cmp([o(i) for i in range(6)], [m["base"], sizes[2], st[2], sizes[1], st[1], sizes[0]], "3-d mapping query")

    def cmp(self, got, want, what):
        for g, w in zip(got, want):
            if is_ptr(w) and g != w or not is_ptr(w) and (not isinstance(g, (int, Poly)) or not self.it.same(g, w)):
                raise Cut("%s returns %r instead of %r" % (what, g, w))

    # ---- actions -----------------------------------------------------------
    def write(self, ms, p, tag):
        """the application writes all own indexes"""
        for r in p.own:
            m = ms[r[2]]
            a = self.addr(m, r[0])
            a[1].log.append((self.it.elem(a[2]), add(r[1][0], mul(-1, r[0][0])), ("seq", tag, r[0][0])))

    def switch(self, p, flow="None", red="None"):
        self.it.call(M.fn("laik_switchto_partitioning").name, [self.d, P(p) if p else NULL, M.enum_const("LAIK_DF_" + flow), M.enum_const("LAIK_RO_" + red)])
        if self.get("activePartitioning") != (P(p) if p else NULL):
            raise Cut("partitioning is not active after the switch")

    def listmaps(self, ml):
        sv = self.get("activeMappings")
        self.set(activeMappings=ml)
        r = self.maps()
        self.set(activeMappings=sv)
        return r

    def on_exec(self, t, fl, tl):
        """backend: send/reduce inputs are read, received values are written"""
        it = self.it
        T = (t[1], t[2])
        frm = self.listmaps(fl) if fl != NULL else []
        to = self.listmaps(tl) if tl != NULL else []
        for m in to:
            if not is_ptr(m["base"]) or not isinstance(m["base"][1], Block):
                raise Cut("target mapping has no memory when the backend runs")
        sends = [(o["lo"], o["hi"], o["mapNo"]) for o in read_ops(it, T, "send", "sendTOp", self.dims, ("mapNo",))]
        recvs = [(o["lo"], o["hi"], o["mapNo"]) for o in read_ops(it, T, "recv", "recvTOp", self.dims, ("mapNo",))]
        for o in read_ops(it, T, "red", "redTOp", self.dims, ("myInputMapNo", "myOutputMapNo")):
            if o["myInputMapNo"] >= 0:
                sends.append((o["lo"], o["hi"], o["myInputMapNo"]))
            if o["myOutputMapNo"] >= 0:
                recvs.append((o["lo"], o["hi"], o["myOutputMapNo"]))
        # messages are executed in any order: receive first, then check what is sent
        for lo, hi, k in recvs:
            a = self.addr(to[k], lo)
            it.inside(a, mul(add(hi[0], mul(-1, lo[0])), ES))
            if (lo, hi) in [(s[0], s[1]) for s in sends]:
                continue    # in-place reduction
            a[1].log.append((it.elem(a[2]), add(hi[0], mul(-1, lo[0])), ("seq", "received", lo[0])))
        for lo, hi, k in sends:
            a = self.addr(frm[k], lo)
            it.inside(a, mul(add(hi[0], mul(-1, lo[0])), ES))
            for x in (lo[0], add(hi[0], -1)):
                v = it.value(a[1], it.elem(self.addr(frm[k], (x,))[2]))
                if v[0] != self.tag or not it.same(v[1], x):
                    raise Cut("value to send is overwritten by a value to receive")
        for lo, hi, k in recvs:
            if (lo, hi) in [(s[0], s[1]) for s in sends]:
                a = self.addr(to[k], lo)
                a[1].log.append((it.elem(a[2]), add(hi[0], mul(-1, lo[0])), ("seq", "received", lo[0])))
        self.recvd = recvs

    tag = "A"

    def check_values(self, ms, old, new, tag, flow):
        """after a preserving switch"""
        it = self.it
        pts = []
        for r in new.own:
            for b in [r] + list(old.own if old else []):
                for x in (b[0][0], add(b[1][0], -1)):
                    if it.rel("le", r[0][0], x) and it.rel("lt", x, r[1][0]):
                        pts.append((x, r))
        for x, r in pts:
            m = ms[r[2]]
            v = it.value(m["start"][1], it.elem(self.addr(m, (x,))[2]))
            if flow == "Init":
                if v[0] != "init":
                    raise Cut("index %r is not initialised: %r" % (x, v))
                continue
            loc = any(it.rel("le", b[0][0], x) and it.rel("lt", x, b[1][0]) for b in old.own)
            rec = any(k == r[2] and it.rel("le", lo[0], x) and it.rel("lt", x, hi[0]) for lo, hi, k in self.recvd)
            if rec:
                want = "received"
            elif loc:
                want = tag
            else:
                continue
            if v[0] != want or not it.same(v[1], x):
                raise Cut("index %r holds %r after the switch instead of its %s value" % (x, v, want if want == "received" else "old"))


def R(a, b, k=0):
    return (V(a), V(b), k)


def inside(it, a, b, lo="s0", hi="e0"):
    it.order.add(a, -1, b)
    if it.rel("lt", sym(a), sym(lo)) or it.rel("gt", sym(b), sym(hi)):
        raise Cut(None)


def complement(it, env, own):
    """1-d ranges of the space not in the given ones"""
    pos, end = env[sym("s0")], env[sym("e0")]
    out = []
    for lo, hi, k in sorted(own, key=cmp_to_key(lambda a, b: it.cmpv(a[0][0], b[0][0]))) + [((end,), (end,), 0)]:
        if it.rel("lt", pos, lo[0]):
            out.append(((pos,), lo, 0))
        if it.rel("gt", hi[0], pos):
            pos = hi[0]
    return out


def f_switch(shapes, q, other=None, flow="Preserve", red="None"):
    """1-d: sequence of partitionings of one process; shapes: list of functions it -> own ranges"""
    def body(it):
        # without other ranges given, process 1 holds the complement
        size = 2
        rs = []
        for n, sh in enumerate(shapes):
            rs.append(sh(it, n))
            rs.append(other[n](it, n) if other else [])
        rs, env = fix(it, rs, [(0, "x")] if q else [])
        if not other:
            rs[1::2] = [complement(it, env, r) for r in rs[::2]]
        W = World(it, 1, env, size)
        old = None
        for n, sh in enumerate(shapes):
            p = W.part(rs[2 * n:2 * n + size])
            W.recvd = []
            fl = flow if n else ("Init" if flow == "Init" else "None")
            rd_ = red if n else ("Sum" if flow == "Init" else "None")
            W.switch(p, fl, rd_)
            ms = W.check_maps(p)
            W.check_owner(ms)
            if it.live_as:
                raise Cut("action sequence is not freed after the switch")
            if n and (flow == "Preserve" and red == "None") or flow == "Init":
                W.check_values(ms, old, p, W.tag, flow)
            if q and n == len(shapes) - 1 and ms:
                W.queries(ms, it.choose(len(ms)))
            W.tag = "ABCD"[n]
            W.write(ms, p, W.tag)
            old = p
    return body


def one(it, n):
    inside(it, "a%d" % n, "b%d" % n)
    return [R("a%d" % n, "b%d" % n)]


def full(it, n):
    return [R("s0", "e0")]


def none(it, n):
    return []


def two_maps(it, n):
    inside(it, "a%d" % n, "b%d" % n)
    inside(it, "c%d" % n, "d%d" % n, lo="b%d" % n)
    return [R("a%d" % n, "b%d" % n, 0), R("c%d" % n, "d%d" % n, 1)]


def two_in_one(it, n):
    return [r[:2] + (0,) for r in two_maps(it, n)]


def f_multi(dims):
    """2-d/3-d: sizes, strides, reuse; no element data"""
    def body(it):
        rs = []
        for n in range(2):
            lo, hi = [], []
            for d in range(dims):
                if d and not (dims == 2):
                    lo.append(sym("s%d" % d))
                    hi.append(sym("e%d" % d))
                    continue
                a, b = "a%d%d" % (n, d), "b%d%d" % (n, d)
                inside(it, a, b, "s%d" % d, "e%d" % d)
                lo.append(sym(a))
                hi.append(sym(b))
            rs.append([(tuple(lo), tuple(hi), 0)])
        rs.append([(V(*["s%d" % d for d in range(dims)]), V(*["e%d" % d for d in range(dims)]), 0)])
        rs, env = fix(it, rs)
        W = World(it, dims, env, 2)
        for r in rs[:-1]:
            p = W.part([r, rs[-1]])
            W.switch(p)
            ms = W.check_maps(p)
            W.check_owner(ms)
            W.queries(ms, 0)
    return body


def f_to_nothing(member):
    """leaving a partitioning; processes outside of the group"""
    def body(it):
        rs, env = fix(it, [one(it, n) for n in range(3)])
        W = World(it, 1, env, 2, 0 if member else -1)
        if member:
            p = W.part([rs[0], complement(it, env, rs[0])])
            W.switch(p)
            W.check_owner(W.check_maps(p))
            W.switch(None)
            for b in it.blocks:
                if not b.freed:
                    raise Cut("memory is not freed when leaving the partitioning")
            p = W.part([rs[1], complement(it, env, rs[1])])
            W.switch(p)
            W.check_owner(W.check_maps(p))
        else:
            W.myid = 0
            for n in range(3):
                p = W.part([rs[n], complement(it, env, rs[n])])
                W.switch(p, "Preserve" if n else "None")
            if it.blocks:
                raise Cut("a process outside of the group allocates memory")
    return body


def f_provided(shapes):
    def body(it):
        rs, env = fix(it, [sh(it, n) for n, sh in enumerate(shapes)])
        W = World(it, 1, env, 1)
        blk = Block("provided", None)
        W.provided = mul(ES, add(env[sym("e0")], mul(-1, env[sym("s0")])))
        it.call("laik_data_provide_memory", [W.d, P(blk), W.provided])
        for r in rs:
            p = W.part([r])
            W.switch(p, "None")
            ms = W.check_maps(p)
            if ms and ms[0]["start"][1] is not blk:
                raise Cut("provided memory is not used")
            W.check_owner(ms, [blk])
        if blk.freed:
            raise Cut("provided memory is freed")
    return body


def f_reserve(shapes, q, tags=(1, 1)):
    """reservation for two partitionings, switching inside"""
    def body(it):
        rs, env = fix(it, [sh(it, n) for n, sh in enumerate(shapes)], [(0, "x")] if q else [])
        W = World(it, 1, env, 2)
        ps = [W.part([r, complement(it, env, r)], tags[n]) for n, r in enumerate(rs)]
        r = it.call(M.fn("laik_reservation_new").name, [W.d])
        for p in ps:
            it.call(M.fn("laik_reservation_add").name, [r, P(p)])
        it.call(M.fn("laik_reservation_alloc").name, [r])
        held = list(it.blocks)
        it.call(M.fn("laik_data_use_reservation").name, [W.d, r])
        old = None
        for n, p in enumerate(ps + ps[:1]):
            W.recvd = []
            W.switch(p, "Preserve" if n else "None")
            ms = W.check_maps(p)
            if len(it.blocks) != len(held):
                raise Cut("memory allocated although reserved")
            ml = W.get("activeMappings")
            got = it.call(M.fn("laik_reservation_getMList").name, [r, P(p)])
            if got != ml:
                raise Cut("switch does not use the mappings of the reservation")
            if any(b.freed for b in held):
                raise Cut("memory of a reservation is freed by a switch")
            if old is not None:
                W.check_values(ms, old, p, W.tag, "Preserve")
            W.tag = "ABCD"[n]
            W.write(ms, p, W.tag)
            old = p
        if ms and q:
            W.queries(ms, it.choose(len(ms)))
        it.call(M.fn("laik_reservation_free").name, [r])
        for b in held:
            if not b.freed:
                raise Cut("memory of a reservation is not freed with it")
    return body


def f_prepared(shapes):
    """separately calculated transitions, executed directly or as action sequence"""
    def body(it):
        rs, env = fix(it, [sh(it, n) for n, sh in enumerate(shapes)])
        W = World(it, 1, env, 2)
        ps = [W.part([r, complement(it, env, r)]) for r in rs]
        calc = M.fn("laik_calc_transition").name
        pres, ro = M.enum_const("LAIK_DF_Preserve"), M.enum_const("LAIK_RO_None")
        how = it.choose(2)
        old = None
        W.switch(ps[0])
        seqs = []
        for n in (0, 1):
            t = it.call(calc, [P(W.S.space), P(ps[n]), P(ps[1 - n]), pres, ro])
            seqs.append(it.call(M.fn("laik_calc_actions").name, [W.d, t, NULL, NULL]) if how else t)
        cur = 0
        ms = W.check_maps(ps[0])
        for k in range(4):
            W.tag = "ABCD"[k]
            W.write(ms, ps[cur], W.tag)
            if how:
                it.call(M.fn("laik_exec_actions").name, [seqs[cur]])
            else:
                it.call(M.fn("laik_exec_transition").name, [W.d, seqs[cur]])
            old = ps[cur]
            cur = 1 - cur
            if W.get("activePartitioning") != P(ps[cur]):
                raise Cut("partitioning is not active after executing the transition")
            ms = W.check_maps(ps[cur])
            W.check_owner(ms)
            W.check_values(ms, old, ps[cur], W.tag, "Preserve")
        if it.live_as != (2 if how else 0):
            raise Cut("prepared action sequences are freed by execution or temporary ones are not")
    return body

def f_api(what):
    """other ways to switch and query a container"""
    def body(it):
        M_ = lambda n: M.fn(n).name
        df = lambda n: M.enum_const("LAIK_DF_" + n)
        ro = lambda n: M.enum_const("LAIK_RO_" + n)
        shapes = {"maps": [full, two_maps], "initial": [none, one]}.get(what, [one, one])
        rs, env = fix(it, [sh(it, n) for n, sh in enumerate(shapes)])
        W = World(it, 1, env, 2)
        ps = [W.part([r, complement(it, env, r)]) for r in rs]

        def settled(p, old, flow="Preserve"):
            if W.get("activePartitioning") != P(p):
                raise Cut("the wrong partitioning is active")
            ms = W.check_maps(p)
            W.check_owner(ms)
            if it.live_as:
                raise Cut("action sequence is not freed after the switch")
            if old is not None:
                W.check_values(ms, old, p, W.tag, flow)
            return ms
        if what == "flow":
            W.switch(ps[0])
            ms = settled(ps[0], None)
            for n, fl in enumerate(("Preserve", "Init", "Preserve", "None")):
                W.tag = "ABCD"[n]
                W.write(ms, ps[0], W.tag)
                W.recvd = []
                it.call(M_("laik_switchto_flow"), [W.d, df(fl), ro("Sum" if fl == "Init" else "None")])
                ms = settled(ps[0], ps[0] if fl != "None" else None, fl)
        elif what == "new":
            made = []

            def new(i2, a):
                made.append(a)
                return P(ps[len(made) - 1])
            it.handlers["laik_new_partitioning"] = new
            pr = P(Obj("partitioner"))
            for n in range(2):
                W.recvd = []
                r = it.call(M_("laik_switchto_new_partitioning"), [W.d, P(W.g), pr, df("Preserve" if n else "None"), ro("None")])
                if len(made) != n + 1 or r != P(ps[n]):
                    raise Cut("not exactly one partitioning is created and returned")
                a = made[-1]
                if a[0] != pr or a[1] != P(W.g) or a[2] != P(W.S.space) or a[3] not in (0, NULL):
                    raise Cut("the new partitioning is not created for the given partitioner, the group and the space of the container")
                ms = settled(ps[n], ps[0] if n else None)
                W.write(ms, ps[n], W.tag)
            out = P(W.S.group(-1))
            n = len(it.blocks)
            r = it.call(M_("laik_switchto_new_partitioning"), [W.d, out, pr, df("Preserve"), ro("None")])
            if r not in (0, NULL) or len(made) != 2:
                raise Cut("a process outside of the group switches to a new partitioning")
            settled(ps[1], None)
            if len(it.blocks) != n:
                raise Cut("a process outside of the group allocates memory")
        elif what == "initial":
            it.call(M_("laik_set_initial_partitioning"), [W.d, P(ps[0])])
            if W.get("activePartitioning") != P(ps[0]) or W.maps() != []:
                raise Cut("the initial partitioning is not active or has mappings")
            W.switch(ps[1], "Preserve")
            settled(ps[1], None)
            if len(W.recvd) != len(ps[1].own) or ps[1].own and not all(W.eq(W.recvd[0][e][0], ps[1].own[0][e][0]) for e in (0, 1)):
                raise Cut("after an initial partitioning without own indexes, a preserving switch does not receive all own indexes")
        elif what == "allocator":
            # memory comes from the allocator set at allocation and goes back to it
            log = {}

            def mk(n):
                def al(i2, a):
                    if a[0] != W.d:
                        raise Cut("allocator is called for another container")
                    b = Block("user%s%d" % (n, len(it.blocks)), a[1])
                    it.blocks.append(b)
                    log[b] = n
                    return P(b)

                def fr(i2, a):
                    if a[0] != W.d or not is_ptr(a[1]) or log.get(a[1][1]) != n or a[1][2] != 0:
                        raise Cut("memory is not given back to the allocator it comes from")
                    if a[1][1].freed:
                        raise Cut("memory of an allocator is given back twice")
                    a[1][1].freed = True
                it.handlers["model_malloc" + n], it.handlers["model_free" + n] = al, fr
                return it.call(M_("laik_new_allocator"), [("p", ("@", "model_malloc" + n), 0), ("p", ("@", "model_free" + n), 0), NULL])
            A, B = mk("A"), mk("B")
            for n, (al, p) in enumerate(((A, ps[0]), (B, ps[1]), (A, ps[0]))):
                it.call(M_("laik_set_allocator"), [W.d, al])
                if it.call(M_("laik_get_allocator"), [W.d]) != al:
                    raise Cut("the allocator of a container is not the one set")
                W.recvd = []
                before = len(it.blocks)
                W.switch(p, "Preserve" if n else "None")
                ms = settled(p, ps[1 - n % 2] if n else None)
                for b in it.blocks[before:]:
                    if log.get(b) != "AB"[n % 2]:
                        raise Cut("memory is not allocated by the allocator of the container")
                W.tag = "ABCD"[n]
                W.write(ms, p, W.tag)
            W.switch(None)
            for b in it.blocks:
                if not b.freed:
                    raise Cut("memory is not given back to its allocator")
        elif what == "maps":
            inst = rd(W.S.space, fo("_Laik_Space", "inst")[0])
            if it.call(M_("laik_data_get_group"), [W.d]) not in (0, NULL) or it.call(M_("laik_data_get_partitioning"), [W.d]) not in (0, NULL):
                raise Cut("a container without partitioning has a group or partitioning")
            if it.call(M_("laik_data_range"), [W.d, 0]) not in (0, NULL):
                raise Cut("a container without partitioning has a range")
            made = []

            def factory(i2, a):
                made.append(a[0])
                return it.call(M_("laik_new_layout_lex"), a)
            it.handlers["model_layout"] = factory
            it.call(M_("laik_data_set_layout_factory"), [W.d, ("p", ("@", "model_layout"), 0)])
            for n, p in enumerate(ps):
                W.switch(p)
                ms = settled(p, None)
                if made != [1, 2][:n + 1]:
                    raise Cut("the layout factory of the container is not called once with the number of mappings")
                for f, w in (("space", P(W.S.space)), ("group", P(W.g)), ("inst", inst), ("partitioning", P(p))):
                    if it.call(M_("laik_data_get_" + f), [W.d]) != w:
                        raise Cut("query of the %s of a container is wrong" % f)
                for k in range(len(p.own) + 1):
                    r = it.call(M_("laik_data_range"), [W.d, k])
                    if k == len(p.own):
                        if r not in (0, NULL):
                            raise Cut("a range that does not exist is returned")
                        continue
                    q = it.call(M_("laik_taskrange_get_range"), [r])
                    q = W.rng(*it.deref(q))
                    if not W.eq(q[0][0], p.own[k][0][0]) or not W.eq(q[1][0], p.own[k][1][0]):
                        raise Cut("wrong own range %d of a container" % k)
                for m in ms:
                    # an index of a mapping and back, for each mapping
                    for x in (m["req"][0][0], add(m["req"][1][0], -1)):
                        l = Obj("l")
                        r = it.call("laik_global2local_1d", [W.d, x, P(l)])
                        if r != m["ptr"]:
                            raise Cut("mapping of an index is wrong")
                        if it.cmpv(it.call("laik_maplocal2global_1d", [W.d, m["mapNo"], l.cells[0][1]]), x):
                            raise Cut("mapping-local to global translation is not the inverse")
                # output parameters are optional
                for k in (0, len(ms)):
                    if it.call("laik_get_map_1d", [W.d, k, NULL, NULL]) != it.call("laik_get_map", [W.d, k]):
                        raise Cut("wrong mapping without output parameters")
    return body


def f_map_query(dims):
    """2-d/3-d queries: output parameters are optional; a mapping that does not exist has no memory and size 0"""
    def body(it):
        rs = [[(V(*["s%d" % d for d in range(dims)]), V(*["e%d" % d for d in range(dims)]), 0)]]
        rs, env = fix(it, rs)
        W = World(it, dims, env, 1)
        p = W.part(rs)
        W.switch(p)
        ms = W.check_maps(p)
        fn = "laik_get_map_%dd" % dims
        n = 2 * dims
        full_ = [Obj("o%d" % i) for i in range(n)]
        it.call(fn, [W.d, 0] + [P(o) for o in full_])
        skip = it.choose(n)
        part = [Obj("q%d" % i) for i in range(n)]
        r = it.call(fn, [W.d, 0] + [NULL if i == skip else P(o) for i, o in enumerate(part)])
        if r != ms[0]["ptr"]:
            raise Cut("wrong mapping")
        for i in range(n):
            if i != skip and part[i].cells[0][1] != full_[i].cells[0][1]:
                raise Cut("output parameters depend on each other")
        for bad in (-1, 1):
            o = [Obj("b%d" % i) for i in range(n)]
            if it.call(fn, [W.d, bad] + [P(x) for x in o]) not in (0, NULL):
                raise Cut("a mapping that does not exist is returned")
            sizes = [1, 3] if dims == 2 else [1, 3, 5]
            if o[0].cells.get(0, (8, 1))[1] not in (0, NULL) or any(o[i].cells.get(0, (8, 1))[1] != 0 for i in sizes):
                raise Cut("a mapping that does not exist has memory or a size")
            it.call(fn, [W.d, bad] + [NULL] * n)
    return body


def families(thorough):
    out = []
    A = lambda *x: list(x)
    out.append(("switch", "one range to one range", f_switch(A(one, one), True)))
    out.append(("switch", "one to one to one", f_switch(A(one, one, one), False)))
    out.append(("switch", "everything to two mappings", f_switch(A(full, two_maps), True)))
    out.append(("switch", "two ranges in one mapping", f_switch(A(two_in_one), True)))
    out.append(("switch", "two mappings to one", f_switch(A(two_maps, one), thorough)))
    out.append(("switch", "one to two mappings", f_switch(A(one, two_maps), thorough)))
    out.append(("switch", "two ranges in one mapping to one", f_switch(A(two_in_one, one), thorough)))
    out.append(("switch", "one to two ranges in one mapping", f_switch(A(one, two_in_one), False)))
    out.append(("switch", "everything to two mappings to everything", f_switch(A(full, two_maps, full), False)))
    out.append(("switch", "everything to two mappings to one", f_switch(A(full, two_maps, one), False)))
    out.append(("switch", "one to nothing to one", f_switch(A(one, none, one), False)))
    out.append(("switch", "everything, part, everything, part", f_switch(A(full, one, full, one), False)))
    if thorough:
      out.append(("switch", "two mappings to two mappings", f_switch(A(two_maps, two_maps), False)))
    if thorough:
        out.append(("switch", "two mappings to two ranges in one mapping", f_switch(A(two_maps, two_in_one), True)))
        out.append(("switch", "one to one to two mappings", f_switch(A(one, one, two_maps), False)))
    out.append(("initialise", "one range", f_switch(A(one), False, flow="Init")))
    out.append(("initialise", "one to one", f_switch(A(one, one), False, flow="Init", red="Sum")))
    out.append(("initialise", "two ranges in one mapping", f_switch(A(two_in_one,), False, flow="Init")))
    out.append(("initialise", "one to two mappings", f_switch(A(full, two_maps), False, flow="Init", red="Max")))

    def rest(it, n):
        return [R("b%d" % n, "e0")]

    def left(it, n):
        chain(it, "s0", "b%d" % n, "e0")
        return [R("s0", "b%d" % n)]

    def rest_of(it, n):
        return [R("s0", "a%d" % n), R("b%d" % n, "e0", 1)]

    def middle(it, n):
        chain(it, "s0", "a%d" % n, "b%d" % n, "e0")
        return [R("a%d" % n, "b%d" % n)]
    out.append(("communication", "blocks to shifted blocks", f_switch(A(left, left), False, A(rest, rest))))
    out.append(("communication", "blocks swapped", f_switch(A(left, rest_of_left(left)), False, A(rest, left2))))
    out.append(("communication", "block to everything", f_switch(A(left, full), False, A(rest, full))))
    out.append(("communication", "middle to shifted middle", f_switch(A(middle, middle), False, A(rest_of, rest_of))))
    out.append(("communication", "two outer mappings to middle", f_switch(A(rest_of_(middle, rest_of), middle), False, A(lambda it, n: [R("a%d" % n, "b%d" % n)], rest_of))))
    out.append(("communication", "sum of everything to everything", f_switch(A(full, full), False, A(full, full), red="Sum")))
    out.append(("multi-dimensional", "2-d", f_multi(2)))
    out.append(("multi-dimensional", "3-d", f_multi(3)))
    out.append(("no partitioning", "leave and enter again", f_to_nothing(True)))
    out.append(("no partitioning", "process outside of the group", f_to_nothing(False)))
    out.append(("provided memory", "one range", f_provided(A(one))))
    out.append(("provided memory", "part of everything", f_provided(A(full, one))))
    for nm, sh in (("one and one", A(one, one)), ("two mappings and one", A(two_maps, one)), ("everything and two mappings", A(full, two_maps)),
                   ("two ranges in one mapping and one", A(two_in_one, one)), ("nothing and one", A(none, one))):
        out.append(("reservation", nm, f_reserve(sh, thorough or nm[0] in "oen")))
    out.append(("reservation", "different tags: one and one", f_reserve(A(one, one), False, (1, 2))))
    out.append(("reservation", "different tags: everything and two mappings", f_reserve(A(full, two_maps), False, (2, 1))))
    out.append(("reservation", "different tags: two mappings and everything", f_reserve(A(two_maps, full), False, (1, 3))))
    for w, nm in (("flow", "another flow in the same partitioning"), ("new", "to a partitioning created on the way"), ("initial", "from an initial partitioning"),
                  ("allocator", "allocator functions of the application"), ("maps", "queries and layout factory of the application")):
        out.append(("container functions", nm, f_api(w)))
    for d in (2, 3):
        out.append(("container functions", "%d-d mapping queries" % d, f_map_query(d)))
    for nm, sh in (("one and one", A(one, one)), ("everything and two mappings", A(full, two_maps))):
        out.append(("prepared transition", nm, f_prepared(sh)))
    return out


def rest_of_left(left):
    def f(it, n):
        chain(it, "s0", "b%d" % n, "e0")
        return [R("b%d" % n, "e0")]
    return f


def left2(it, n):
    return [R("s0", "b%d" % n)]


def rest_of_(middle, rest_of):
    def f(it, n):
        middle(it, n)
        return rest_of(it, n)
    return f


ANCHOR = {"container functions": "laik_switchto_flow", "switch": "laik_switchto_partitioning", "initialise": "laik_switchto_partitioning", "communication": "laik_switchto_partitioning",
          "multi-dimensional": "laik_switchto_partitioning", "no partitioning": "laik_switchto_partitioning", "provided memory": "laik_data_provide_memory",
          "reservation": "laik_reservation_alloc", "prepared transition": "laik_exec_transition"}


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, DInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    C08.M = M
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    c.assumptions += ["the backend is modelled by its contract: it reads what a transition sends and writes what it receives, in any order",
                      "up to two mappings per partitioning and chains of up to four switches stand for longer ones"]
    return __doc__
