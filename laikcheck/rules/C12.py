"""Values of a container over all processes after a switch executed by a
message passing backend.

All processes of a group switch one container; transition calculation, mapping
preparation, action sequence transformations and the execution loop of the MPI
backend and of the TCP backend are interpreted for every process over the order
domain, connected by a model of message passing with synchronous sends.  Range
borders and element size are opaque, settings of the backend are enumerated.
Afterwards every index of every process holds the value of an owner before the
switch, or the reduction of exactly the values of all former owners; no deadlock,
unmatched, truncated or unfinished message, buffer overflow, or changed send buffer."""
import itertools
from .. import model, mpisim
from ..absint import Abort, Cut, Obj, UNDEF, NULL, Undecided, is_ptr, sym
from ..build import AnalysisError
from ..model import P, V, add, chain, fo, mul, rd, setf, ssize
from . import C06, C08
from .C06 import Block, DInterp, World, complement, fix, full, inside, none, one, R, two_in_one, two_maps

M = None
THOROUGH = False


class MInterp(DInterp):
    def __init__(self, ch, shared=None):
        super().__init__(ch)
        if shared is not None:
            self.order = shared.order
            self.lb = shared.__dict__.setdefault("lb", {})
            self._sized = shared.sized
        self.watch = []
        self.env = {}
        self.budget = 900000
        h = self.handlers
        for n in ("laik_aseq_new", "laik_aseq_addTContext", "laik_aseq_free", "laik_aseq_addTExec", "laik_aseq_calc_stats", "laik_aseq_activateNewActions",
                  "laik_switchstat_addASeq", "laik_addDataForInstance"):
            h.pop(n, None)
        h.update(mpisim.handlers())
        h["model_reduce"] = self.h_modelreduce
        h["laik_log_ActionSeqIfChanged"] = lambda i, a: None
        h["laik_log_Action"] = lambda i, a: None
        h["laik_log_append_info"] = lambda i, a: None
        h["laik_log_init"] = lambda i, a: None
        h["laik_init_profiling"] = lambda i, a: P(i.prof)
        h["gettimeofday"] = lambda i, a: 0
        h["getpid"] = lambda i, a: 77
        h["getenv"] = self.h_getenv
        h["atoi"] = lambda i, a: a[0][1].num
        self.prof = Obj("prof")
        setf(self.prof, "_Laik_Profiling_Controller", do_profiling=0)

    # counts and byte sizes of one message are below 2^31 (asserted by the code / limit of MPI)
    def rel(self, p, a, b):
        for x, y, s in ((a, b, -1), (b, a, 1)):
            if isinstance(y, int) and y >= (1 << 31) and isinstance(x, model.Poly) and not x.is_const():
                return {"eq": False, "ne": True, "lt": s < 0, "le": s < 0, "gt": s > 0, "ge": s > 0}[p]
        return super().rel(p, a, b)

    @staticmethod
    def h_getenv(it, a):
        g = a[0][1]
        nm = it.cstr(g)
        for k, v in it.env.items():
            if nm.endswith(k):
                o = Obj("env:" + k)
                o.num = v
                return P(o)
        return NULL

    def cstr(self, g):
        if isinstance(g, tuple) and g[0] == "@":
            s = self.mod.globals.get(g[1])
            if s and s.get("init") and s["init"][0] == "s":
                return s["init"][1]
        raise Undecided("string constant")

    def take(self, p, n):
        if not is_ptr(p) or not isinstance(p[1], Block):
            if n == 0:
                return ("none",)
            raise Undecided("message buffer %r" % (p,))
        self.inside(p, mul(n, C06.ES))
        return ("copy", p[1], self.elem(p[2]), len(p[1].log))

    def put(self, p, n, v):
        if not is_ptr(p) or not isinstance(p[1], Block):
            raise Undecided("message buffer %r" % (p,))
        self.inside(p, mul(n, C06.ES))
        p[1].log.append((self.elem(p[2]), n, v))

    def still(self, p, n, v):
        st = self.elem(p[2])
        for s, k, _ in p[1].log[v[3]:]:
            if self.rel("lt", s, add(st, n)) and self.rel("lt", st, add(s, k)):
                return False
        return not p[1].freed

    @staticmethod
    def h_modelreduce(it, a):
        out, x, y, n, op = a
        vs = [it.take(p, n) for p in (x, y) if p != NULL and p != 0]
        it.put(out, n, ("reduced", op, vs) if vs else ("init", op))

    be = None
    want_type = None

    def opname(self, op):
        for o in OPS:
            if op == wire_op(self.be, o):
                return M.enum_const("LAIK_RO_" + o)
        return "unknown operation %r" % (op,)

    def typed(self, ty):
        if ty != wire_type(self.be, self.want_type):
            raise Cut("elements of type %s are sent as %r" % (self.want_type, ty))

    def value(self, b, pos, upto=None):
        for k in range((len(b.log) if upto is None else upto) - 1, -1, -1):
            st, n, src = b.log[k]
            if self.rel("ge", pos, st) and self.rel("lt", pos, add(st, n)):
                return self.val(src, add(pos, mul(-1, st)))
        return ("unset",)

    def val(self, src, o):
        if src[0] == "copy":
            return self.value(src[1], add(src[2], o), src[3])
        if src[0] == "seq":
            return (src[1], add(src[2], o))
        if src[0] == "point":
            return (src[1], src[2])
        if src[0] == "reduced":
            out = []
            for s in src[2]:
                v = self.val(s, o)
                if v[0] == "reduced":
                    if v[1] != src[1]:
                        return ("reduced", "mixed operations", ())
                    out += v[2]
                else:
                    out.append(v)
            return ("reduced", src[1], tuple(out)) if len(out) > 1 else out[0]
        return src


OPS = ("Sum", "Prod", "Min", "Max", "And", "Or")
TYPES = {"laik_Double": ("double", "DOUBLE"), "laik_Float": ("float", "FLOAT"), "laik_Int64": ("int64_t", "INT64"), "laik_Int32": ("int32_t", "INT32"),
         "laik_Char": ("int8_t", "INT8"), "laik_UInt64": ("uint64_t", "UINT64"), "laik_UInt32": ("uint32_t", "UINT32"), "laik_UChar": ("uint8_t", "UINT8")}


def wire_op(be, o):
    if be == "tcp":
        return M.enum_const("LAIK_TCP_MINIMPI_" + {"And": "BAND", "Or": "BOR"}.get(o, o.upper()))
    return ("p", ("@", "ompi_mpi_op_" + {"And": "band", "Or": "bor"}.get(o, o.lower())), 0)


def wire_type(be, t):
    if be == "tcp":
        return M.enum_const("LAIK_TCP_MINIMPI_" + TYPES[t][1])
    return ("p", ("@", "ompi_mpi_" + TYPES[t][0]), 0)


class MWorld(World):
    """one process"""

    def __init__(self, it, rank, size, dims, env, init, conf=None, ty="laik_Double", conc=False):
        self.conc = conc
        self.it, self.dims, self.env, self.myid = it, dims, env, rank
        it.env = conf or {}
        ac, av = Obj("argc"), Obj("argv")
        inst = it.call(M.fn(init).name, [P(ac), P(av)])
        io, _ = it.deref(inst)
        self.inst = inst
        g = rd(io, fo("_Laik_Instance", "world")[0])
        go, _ = it.deref(g)
        if rd(go, fo("_Laik_Group", "size")[0]) != size or rd(go, fo("_Laik_Group", "myid")[0]) != rank:
            raise Cut("initial group has wrong size or process number")
        box = tuple(tuple(env[sym("%s%d" % (e, d))] for d in range(dims)) for e in "se")
        self.S = C06.Setup(it, dims, size, box)
        setf(self.S.space, "_Laik_Space", inst=inst)
        it.call(M.fn("laik_type_init").name, [])
        t = it.loadm(("p", ("@", ty), 0), 8, "ptr")
        setf(t[1], "_Laik_Type", size=C06.ES, init=("p", ("@", "model_init"), 0), reduce=("p", ("@", "model_reduce"), 0))
        self.d = it.call(M.fn("laik_new_data").name, [P(self.S.space), t])
        self.g = go
        self.n = 0
        self.recvd = []

    def write(self, ms, p, tag):
        if not self.conc:
            return super().write(ms, p, tag)
        for lo, hi, k in p.own:
            n = [add(h, mul(-1, l)) for l, h in zip(lo, hi)]
            for x in itertools.product(*[range(v) for v in n]):
                x = tuple(add(a, b) for a, b in zip(lo, x))
                a = self.addr(ms[k], x)
                a[1].log.append((self.it.elem(a[2]), 1, ("point", tag, x)))

    def box_points(self, boxes):
        """interesting indexes of own boxes: corners of pieces"""
        it = self.it
        pts = []
        for lo, hi, k in self.cur.own:
            cs = []
            for d in range(self.dims):
                xs = []
                for b in boxes:
                    for x in (b[0][d], add(b[0][d], -1), b[1][d], add(b[1][d], -1)):
                        if it.rel("le", lo[d], x) and it.rel("lt", x, hi[d]) and not any(it.same(x, y) for y in xs):
                            xs.append(x)
                cs.append(xs)
            out = [()]
            for xs in cs:
                out = [o + (x,) for o in out for x in xs]
            pts += [(o, k) for o in out]
        return pts


def contains(it, b, x):
    return all(it.rel("le", b[0][d], x[d]) and it.rel("lt", x[d], b[1][d]) for d in range(len(x)))


def verify(W, ms, old, new, tags, red=None, opname=None):
    """old/new: ranges of all processes; tags[p]: name of the values process p wrote"""
    it = W.it
    allb = [r for rs in old + new for r in rs]
    for x, k in W.box_points(allb):
        m = ms[k]
        v = it.value(m["start"][1], it.elem(W.addr(m, x)[2]))
        holders = [p for p, rs in enumerate(old) if any(contains(it, r, x) for r in rs)]
        if not holders:
            continue
        if red is None:
            ok = len(v) == 2 and isinstance(v[0], str) and v[0] in [tags[p] for p in holders] and eqx(it, v[1], x)
            if not ok:
                raise Cut("process %d: index %r holds %s instead of its value before the switch" % (W.myid, x, show(v)))
        else:
            if len(holders) == 1:
                got = (v,)
            else:
                if v[0] != "reduced" or v[1] != opname:
                    raise Cut("process %d: index %r holds %s instead of the reduction over processes %s" % (W.myid, x, show(v), holders))
                got = v[2]
            want = sorted(tags[p] for p in holders)
            if sorted(str(g[0]) for g in got) != want or not all(len(g) == 2 and eqx(it, g[1], x) for g in got):
                raise Cut("process %d: index %r is reduced from %s instead of one value of each of the processes %s" % (W.myid, x, [show(g) for g in got], holders))


def eqx(it, a, x):
    if isinstance(a, tuple):
        return all(it.same(p, q) for p, q in zip(a, x))
    return isinstance(a, (int, model.Poly)) and it.same(a, x[0])


def show(v):
    if v[0] in ("unset", "init", "inflight"):
        return {"unset": "no value", "init": "the initial value", "inflight": "undefined data of an unfinished receive"}[v[0]]
    if v[0] == "reduced":
        return "a reduction (%s) of %s" % (v[1], ", ".join(show(x) for x in v[2]))
    return "the value of index %r%s" % (v[1], "" if len(v[0]) == 1 else " of " + v[0])


INITS = {"mpi": "laik_init_mpi", "tcp": "laik_init_tcp"}


def f_switch(be, n, olds, news, flow="Preserve", red="None", confs=(("ASYNC", 2), ("REDUCE", 2)), back=False, how="switch", extra=None, tys=("laik_Double",), conc=None, res=None):
    """olds/news: functions it -> list of ranges per process; opaque borders in 1-d,
    or (conc: size of the space) opaque origin with constant extents"""
    def body(it0):
        conf = {}
        for k, m in confs:
            conf[k] = it0.choose(m)
        ty = tys[it0.choose(len(tys))] if len(tys) > 1 else tys[0]
        reds = red if isinstance(red, tuple) else (red,)
        rdn = reds[it0.choose(len(reds))] if len(reds) > 1 else reds[0]
        rs = olds(it0) + news(it0)
        if conc:
            dims = len(conc)
            mv = lambda v: tuple(add(sym("o%d" % d), x) for d, x in enumerate(v))
            rs = [[(mv(r[0]), mv(r[1]), r[2] if len(r) > 2 else 0) for r in x] for x in rs]
            env = {}
            for d in range(dims):
                env[sym("s%d" % d)] = sym("o%d" % d)
                env[sym("e%d" % d)] = add(sym("o%d" % d), conc[d])
        else:
            dims = 1
            rs, env = fix(it0, rs)
        old, new = rs[:n], rs[n:]
        its = [MInterp(it0.choose, it0) for _ in range(n)]
        opv = M.enum_const("LAIK_RO_" + rdn)

        def proc(it, rank):
            it.be, it.want_type = be, ty
            W = MWorld(it, rank, n, dims, env, INITS[be], conf, ty, bool(conc))
            it0.covered.update(it.covered)
            it.covered = it0.covered
            pa, pb = W.part(old), W.part(new)
            W.tag = "P%d" % rank
            tags = ["P%d" % k for k in range(n)] if rdn != "None" else ["A"] * n
            if rdn == "None":
                W.tag = "A"
            r = NULL
            if res:
                r = it.call(M.fn("laik_reservation_new").name, [W.d])
                for p in (pa, pb):
                    it.call(M.fn("laik_reservation_add").name, [r, P(p)])
                it.call(M.fn("laik_reservation_alloc").name, [r])
                it.call(M.fn("laik_data_use_reservation").name, [W.d, r])
            W.switch(pa, "None", "None")
            ms = W.check_maps(pa)
            W.write(ms, pa, W.tag)
            if how == "switch":
                W.switch(pb, flow, rdn)
            else:
                t = it.call(M.fn("laik_calc_transition").name, [P(W.S.space), P(pa), P(pb), M.enum_const("LAIK_DF_" + flow), opv])
                sq = it.call(M.fn("laik_calc_actions").name, [W.d, t, r, r])
                sb = it.call(M.fn("laik_calc_transition").name, [P(W.S.space), P(pb), P(pa), M.enum_const("LAIK_DF_None"), M.enum_const("LAIK_RO_None")])
                it.call(M.fn("laik_exec_actions").name, [sq])
            W.cur = pb
            ms = W.check_maps(pb)
            verify(W, ms, old, new, tags, None if rdn == "None" else rdn, opv)
            if how != "switch":
                # again with other values
                if sb != NULL and sb != 0:
                    it.call(M.fn("laik_exec_transition").name, [W.d, sb])
                else:
                    W.switch(pa, "None", "None")
                ms = W.check_maps(pa)
                W.tag += "'"
                W.write(ms, pa, W.tag)
                it.call(M.fn("laik_exec_actions").name, [sq])
                verify(W, W.check_maps(pb), old, new, [x + "'" for x in tags], None if rdn == "None" else rdn, opv)
                it.call(M.fn("laik_aseq_free").name, [sq])
            if back:
                ms = W.check_maps(pb)
                W.tag = "B"
                W.write(ms, pb, "B")
                W.switch(pa, "Preserve", "None")
                W.cur = pa
                verify(W, W.check_maps(pa), new, old, ["B"] * n)
            ms = W.check_maps(W.cur)
            use = [m["start"][1] for m in ms]
            for b in it.blocks:
                if res is None and not b.freed and not any(b is u for u in use):
                    raise Cut("process %d: a buffer used for the switch is never freed" % rank)
        mpisim.Sim(its, proc).run()
    return body


# ---- shapes: one range list per process -----------------------------------------

def blocks(n, tag):
    def f(it):
        names = ["s0"] + ["%s%d" % (tag, k) for k in range(1, n)] + ["e0"]
        chain(it, *names)
        return [[R(a, b)] for a, b in zip(names, names[1:])]
    return f


def rblocks(n, tag):
    def f(it):
        return blocks(n, tag)(it)[::-1]
    return f


def alls(n):
    return lambda it: [[R("s0", "e0")] for _ in range(n)]


def single(n, k):
    return lambda it: [[R("s0", "e0")] if p == k else [] for p in range(n)]


def mid_outer(tag):
    def f(it):
        a, b = tag + "1", tag + "2"
        chain(it, "s0", a, b, "e0")
        return [[R(a, b)], [R("s0", a), R(b, "e0", 1)]]
    return f


def mid_outer1(tag):
    def f(it):
        a, b = tag + "1", tag + "2"
        chain(it, "s0", a, b, "e0")
        return [[R("s0", a), R(b, "e0")], [R(a, b)]]
    return f


def mid_outer3(tag):
    def f(it):
        a, b, c = tag + "1", tag + "2", tag + "3"
        chain(it, "s0", a, b, c, "e0")
        return [[R(a, b)], [R("s0", a), R(c, "e0", 1)], [R(b, c)]]
    return f


def overlap(tag):
    """two processes sharing a middle part"""
    def f(it):
        a, b = tag + "1", tag + "2"
        chain(it, "s0", a, b, "e0")
        return [[R("s0", b)], [R(a, "e0")]]
    return f


def overlap3(tag):
    def f(it):
        a, b = tag + "1", tag + "2"
        chain(it, "s0", a, b, "e0")
        return [[R("s0", b)], [R(a, "e0")], [R(a, b)]]
    return f


def some(n, ks):
    return lambda it: [[R("s0", "e0")] if p in ks else [] for p in range(n)]


def c1(bs):
    return lambda it: [[((a,), (b,))] for a, b in bs]


def c2(*bs):
    return lambda it: [[b] for b in bs]


def parts(n, where):
    def f(it):
        chain(it, "s0", "b1", "e0")
        return [[R(*where[p])] if p in where else [] for p in range(n)]
    return f


ANCHOR = {}


def families(thorough):
    out = []
    for be, init, confs in (("mpi", "laik_init_mpi", (("ASYNC", 2), ("REDUCE", 2))), ("tcp", "laik_init_tcp", (("REDUCE", 2),))):
        A = lambda rule, name, *a, **k: out.append((rule + " (" + be + ")", name, f_switch(be, *a, **dict({"confs": confs}, **k))))
        ca = tuple(c for c in confs if c[0] == "ASYNC")
        A("preserve", "blocks to shifted blocks, 2 processes", 2, blocks(2, "b"), blocks(2, "c"), confs=ca, back=True)
        A("preserve", "blocks swapped and shifted, 2 processes", 2, blocks(2, "b"), rblocks(2, "c"), confs=ca, back=True)
        A("preserve", "blocks to everything, 3 processes", 3, blocks(3, "b"), alls(3), confs=ca)
        A("preserve", "one process to blocks, 3 processes", 3, single(3, 1), blocks(3, "b"), confs=ca, back=True)
        A("preserve", "one process to everything, 3 processes", 3, single(3, 2), alls(3), confs=ca)
        A("preserve", "middle and outer mappings to blocks", 2, mid_outer("b"), blocks(2, "c"), confs=ca, back=True)
        A("preserve", "two ranges in one mapping to middle and outer mappings", 2, mid_outer1("b"), mid_outer("b"), confs=ca, back=True)
        A("preserve", "rotated blocks, 3 processes", 3, blocks(3, "b"), lambda it: (lambda r: r[1:] + r[:1])(blocks(3, "b")(it)), confs=ca)
        for nm, n, o, w in (("everything to everything, 2 processes", 2, alls(2), alls(2)), ("everything to everything, 3 processes", 3, alls(3), alls(3)),
                            ("everything to one process, 3 processes", 3, alls(3), single(3, 1)), ("everything to blocks, 2 processes", 2, alls(2), blocks(2, "b")),
                            ("overlapping blocks to overlapping blocks", 2, overlap("b"), overlap("b")),
                            ("overlapping blocks to everything, 3 processes", 3, overlap3("b"), alls(3)),
                            ("two of three processes to the third", 3, some(3, (0, 1)), single(3, 2)),
                            ("two of three processes to the other two", 3, some(3, (0, 1)), some(3, (1, 2)))):
            A("reduction", nm, n, o, w, red="Sum")
        A("reduction", "nine processes", 9, alls(9), alls(9), red="Sum")
        A("reduction", "nine processes to two", 9, alls(9), parts(9, {4: ("s0", "b1"), 7: ("b1", "e0")}), red="Sum")
        A("reduction", "nine of ten processes to all", 10, some(10, range(1, 10)), alls(10), red="Sum")
        A("reduction", "nine of ten processes to larger mappings", 10, parts(10, dict([(p, ("s0", "b1")) for p in range(9)] + [(9, ("b1", "e0"))])), alls(10), red="Sum")
        A("reduction", "everything to outer mappings of one process", 2, alls(2), lambda it: [[], mid_outer("b")(it)[1]], red="Sum")
        A("reduction", "two of three processes to outer mappings of two", 3, some(3, (0, 1)), lambda it: (lambda o: [[], o, o])(mid_outer("b")(it)[1]), red="Sum")
        A("reduction", "outer mappings of two processes to everything", 3, lambda it: (lambda r: [r[1], r[0], r[1]])(mid_outer("b")(it)), some(3, (1, 2)), red="Sum")
        A("reduction", "outer ranges of two processes to two mappings", 3, lambda it: (lambda r: [r[0], r[0], r[1]])(mid_outer1("b")(it)), lambda it: (lambda r: [r[1], r[0], r[1]])(mid_outer("b")(it)), red="Sum")
        A("reduction", "all types", 2, alls(2), alls(2), red="Sum", tys=tuple(TYPES))
        A("preserve", "all types", 2, blocks(2, "b"), rblocks(2, "b"), tys=tuple(TYPES), confs=ca)
        A("reduction", "all operations", 2, alls(2), alls(2), red=OPS)
        A("reduction", "all operations to one process", 2, alls(2), single(2, 1), red=OPS)
        A("prepared", "blocks to shifted blocks, with reservation", 2, blocks(2, "b"), blocks(2, "c"), confs=ca, how="prepared", res=True)
        A("prepared", "blocks to everything, with reservation", 3, blocks(3, "b"), alls(3), confs=ca, how="prepared", res=True)
        A("prepared", "sum of everything, with reservation", 2, alls(2), alls(2), red="Sum", how="prepared", res=True)
        A("prepared", "sum to one process, with reservation", 3, alls(3), single(3, 1), red="Sum", how="prepared", res=True)
        A("prepared", "blocks to shifted blocks, mappings unknown", 2, c1([(0, 3), (3, 5)]), c1([(0, 2), (2, 5)]), confs=ca, how="prepared", conc=(5,))
        A("prepared", "sum of everything, mappings unknown", 2, c1([(0, 3), (0, 3)]), c1([(0, 3), (0, 3)]), red="Sum", how="prepared", conc=(3,))
        A("prepared", "sum to one process, mappings unknown", 3, c1([(0, 3), (0, 3), (0, 3)]), lambda it: [[], [((0,), (3,))], []], red="Sum", how="prepared", conc=(3,))
        A("multi-dimensional", "rows to columns", 2, c2(((0, 0), (3, 1)), ((0, 1), (3, 3))), c2(((0, 0), (2, 3)), ((2, 0), (3, 3))), conc=(3, 3), confs=ca, back=True)
        A("multi-dimensional", "rows to everything", 2, c2(((0, 0), (3, 1)), ((0, 1), (3, 3))), c2(((0, 0), (3, 3)), ((0, 0), (3, 3))), conc=(3, 3), confs=ca)
        A("multi-dimensional", "rows to rows and border", 2, c2(((0, 0), (3, 2)), ((0, 2), (3, 4))), c2(((0, 0), (3, 3)), ((0, 1), (3, 4))), conc=(3, 4), confs=ca)
        A("multi-dimensional", "sum of everything", 2, c2(((0, 0), (2, 2)), ((0, 0), (2, 2))), c2(((0, 0), (2, 2)), ((0, 0), (2, 2))), conc=(2, 2), red="Sum")
        A("multi-dimensional", "sum to one process", 3, c2(((0, 0), (2, 2)), ((0, 0), (2, 2)), ((0, 0), (2, 2))), lambda it: [[], [((0, 0), (2, 2))], []], conc=(2, 2), red="Sum")
        A("multi-dimensional", "3-d slices", 2, c2(((0, 0, 0), (2, 2, 1)), ((0, 0, 1), (2, 2, 2))), c2(((0, 0, 0), (1, 2, 2)), ((1, 0, 0), (2, 2, 2))), conc=(2, 2, 2), confs=ca)
        A("preserve", "blocks to shifted blocks, 3 processes", 3, blocks(3, "b"), blocks(3, "c"), confs=ca, back=True)
        A("preserve", "blocks to reversed blocks, 3 processes", 3, blocks(3, "b"), rblocks(3, "c"), confs=ca, back=True)
        A("preserve", "blocks to everything, 4 processes", 4, blocks(4, "b"), alls(4), confs=ca)
        A("preserve", "middle and outer mappings to shifted middle and outer", 2, mid_outer("b"), mid_outer("c"), confs=ca, back=True)
        A("reduction", "everything to everything, 4 processes", 4, alls(4), alls(4), red="Sum")
        A("reduction", "everything to blocks, 4 processes", 4, alls(4), blocks(4, "b"), red="Sum")
        A("reduction", "overlapping blocks to other overlapping blocks", 2, overlap("b"), overlap("c"), red="Sum")
        A("reduction", "three of four processes to the other three", 4, some(4, (0, 1, 2)), some(4, (1, 2, 3)), red="Sum")
        A("reduction", "five processes", 5, alls(5), some(5, (1, 3)), red="Sum")
        if thorough:
            A("preserve", "blocks to shifted blocks, 4 processes", 4, blocks(4, "b"), blocks(4, "c"), confs=ca, back=True)
            A("preserve", "three ranges in two mappings to three", 3, mid_outer3("b"), mid_outer3("c"), confs=ca, back=True)
            A("reduction", "overlapping blocks to other overlapping blocks, 3 processes", 3, overlap3("b"), overlap3("c"), red="Sum")
            A("reduction", "eight processes", 8, alls(8), alls(8), red="Sum")
            A("reduction", "nine processes to two", 9, alls(9), some(9, (4, 7)), red="Sum")
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, MInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    C06.M = C08.M = M
    THOROUGH = c.tier == "thorough"
    F = families(THOROUGH)
    for f in F:
        ANCHOR[f[0]] = "laik_mpi_exec" if "mpi" in f[0] else "laik_tcp_exec"
    model.run_rules(c, M, F, ANCHOR, run_one, 1)
    return __doc__
