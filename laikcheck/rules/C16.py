"""TCP2 backend: exchange of container elements and key-value stores.

Programs of 1-4 processes are interpreted completely - startup, partitionings,
transition calculation, mappings, execution loop, wire format and event loop of the
TCP2 backend - with every process on its own memory, connected by byte streams.
Element bytes are opaque; partitionings, element sizes, binary or text format of
each process, schedules, partial reads and readiness of connections are enumerated.
Afterwards each index holds the value of an owner before the switch or the reduction
of exactly the values of all holders, and key-value stores have the union of changes."""
from .. import model, netsim
from ..absint import Abort, Cut, Obj, NULL, UNDEF, UNINIT, is_ptr
from ..build import AnalysisError
from ..model import P, fo, rd, setf
from ..netsim import NInterp, Net, Sim

M = None
THOROUGH = False
RED = {}


def red(op, vs):
    xs = []
    for v in vs:
        if v in RED:
            if RED[v][0] != op:
                return "mixed operations"
            xs += RED[v][1]
        else:
            xs.append(v)
    n = "R%d(%s)" % (op, ",".join(sorted(xs)))
    RED[n] = (op, tuple(sorted(xs)))
    return n


class App:
    """one process using the library"""

    def __init__(self, it, rank, size, binary=True, pattern="mixed", init="laik_init", port=None):
        self.it, self.rank, self.size = it, rank, size
        it.env = {"LAIK_BACKEND": "tcp2", "LAIK_SIZE": str(size)}
        it.pattern = pattern
        if not binary:
            it.env["LAIK_TCP2_BIN"] = "0"
        it.handlers["model_reduce"] = h_reduce
        it.handlers["model_init"] = h_init
        it.handlers["model_part"] = h_part
        it.handlers["laik_init_profiling"] = lambda i, a: P(prof())
        it.handlers["laik_program_control_init"] = lambda i, a: P(Obj("control"))
        ac, av = Obj("argc"), Obj("argv")
        ac.cells[0] = (4, 1)
        av.cells[0] = (8, P(Obj("argvector")))
        av.cells[0][1][1].cells[0] = (8, it.new_text("prog"))
        self.inst = self.call("laik_init", P(ac), P(av))
        self.world = self.call("laik_world", self.inst)

    def call(self, name, *a):
        return self.it.call(M.fn(name).name, list(a))

    def text(self, s):
        return self.it.new_text(s)

    def field(self, p, s, f):
        o, off = self.it.deref(p)
        return self.it.loadm(("p", o, off + fo(s, f)[0]), fo(s, f)[1], "ptr" if False else "")

    # ---- containers -------------------------------------------------------------
    def space(self, ext):
        self.ext = ext
        return self.call("laik_new_space_%dd" % len(ext), self.inst, *ext)

    def container(self, sp, esize):
        t = self.call("laik_type_register", self.text("t%d" % esize), esize)
        self.call("laik_type_set_init", t, ("p", ("@", "model_init"), 0))
        self.call("laik_type_set_reduce", t, ("p", ("@", "model_reduce"), 0))
        self.es = esize
        return self.call("laik_new_data", sp, t)

    def partitioner(self, sp, ranges):
        """ranges: per process list of (from, to[, tag])"""
        self.sp = sp
        o = Obj("partdata")
        o.ranges, o.sp = ranges, sp
        return self.call("laik_new_partitioner", self.text("model"), ("p", ("@", "model_part"), 0), P(o), 0)

    def part(self, group, sp, ranges):
        return self.call("laik_new_partitioning", self.partitioner(sp, ranges), group, sp, NULL)

    def switch(self, d, p, flow, redop):
        self.call("laik_switchto_partitioning", d, p, M.enum_const("LAIK_DF_" + flow), M.enum_const("LAIK_RO_" + redop))

    def own(self, ranges, me):
        """index -> cell address, via the mapping queries"""
        it = self.it
        out = {}
        maps = {}
        for r in ranges:
            maps.setdefault(r[2] if len(r) > 2 else 0, []).append(r)
        return maps

    def cells(self, d, ranges):
        """{index: address} of all indexes of the own ranges"""
        it = self.it
        groups = {}
        for k, r in enumerate(ranges):
            groups.setdefault(r[2] if len(r) > 2 else -1 - k, []).append(r)
        # mappings in order of tags / ranges
        out = {}
        order = sorted(groups.items(), key=lambda g: (0, g[0]) if g[0] >= 0 else (1, -g[0]))
        for k, (tag, rs) in enumerate(order):
            m = self.call("laik_get_map", d, k)
            if m == NULL or m == 0:
                raise Cut("process %d has no mapping %d" % (self.rank, k))
            mo, mb = it.deref(m)
            F = lambda f: rd(mo, mb + fo("_Laik_Mapping", f)[0])
            start, lay, sec = F("start"), F("layout"), F("layoutSection")
            if start == NULL:
                raise Cut("process %d: a mapping without memory after a switch" % self.rank)
            for r in rs:
                for x in points(r):
                    ix = Obj("idx")
                    for j, v in enumerate(x):
                        ix.cells[8 * j] = (8, v)
                    off = it.call(self.offset_fn(lay), [lay, sec, P(ix)])
                    out[x] = ("p", start[1], start[2] + off * self.es)
        return out

    def offset_fn(self, lay):
        o, b = self.it.deref(lay)
        f = rd(o, b + fo("_Laik_Layout", "offset")[0])
        return f[1][1]

    def write(self, cells, name):
        for x, p in cells.items():
            self.it.storem(p, self.es, ("val", "%s%s" % (name, "_".join(map(str, x)))))

    def read(self, cells):
        out = {}
        for x, p in cells.items():
            o, off = self.it.deref(p)
            out[x] = self.it.value(o, off, self.es)
        return out


_prof = None


def prof():
    o = Obj("prof")
    setf(o, "_Laik_Profiling_Controller", do_profiling=0)
    return o


def points(r):
    out = [()]
    for a, b in zip(r[0], r[1]):
        out = [x + (v,) for x in out for v in range(a, b)]
    return out


def h_reduce(it, a):
    out, x, y, n, op = a
    es = it.app.es
    if not isinstance(n, int):
        raise Cut("reduction of %r elements" % (n,))
    for k in range(n):
        vs = []
        for p in (x, y):
            if p != NULL and p != 0:
                o, off = it.deref(p)
                v = it.value(o, off + k * es, es)
                vs.append(v[1] if v[0] == "val" else str(v))
        o, off = it.deref(out)
        it.storem(("p", o, off + k * es), es, ("val", red(op, vs)))


def h_init(it, a):
    o, off = it.deref(a[0])
    for k in range(a[1]):
        it.storem(("p", o, off + k * it.app.es), it.app.es, ("val", "init%d" % a[2]))


def h_part(it, a):
    r, pp = a
    o, b = it.deref(pp)
    pr = rd(o, b + fo("_Laik_PartitionerParams", "partitioner")[0])
    po, pb = it.deref(pr)
    do, _ = it.deref(rd(po, pb + fo("_Laik_Partitioner", "data")[0]))
    for t, rs in enumerate(do.ranges):
        for x in rs:
            R = Obj("range")
            setf(R, "_Laik_Range", space=do.sp)
            for d, (f, to) in enumerate(zip(x[0], x[1])):
                R.cells[fo("_Laik_Range", "from")[0] + 8 * d] = (8, f)
                R.cells[fo("_Laik_Range", "to")[0] + 8 * d] = (8, to)
            it.call(M.fn("laik_append_range").name, [r, t, P(R), x[2] if len(x) > 2 else 0, NULL])


def check(rank, got, old, tags, redop=None, opv=None, what=""):
    for x, v in got.items():
        hold = [p for p, rs in enumerate(old) if any(all(a <= c < b for a, b, c in zip(r[0], r[1], x)) for r in rs)]
        if not hold:
            continue
        sfx = "_".join(map(str, x))
        if redop is None:
            ok = isinstance(v, tuple) and v[0] == "val" and v[1] in {tags[p] + sfx for p in hold}
            if not ok:
                raise Cut("process %d: index %s holds %s instead of its value before the switch%s" % (rank, x, show(v), what))
        else:
            want = sorted(tags[p] + sfx for p in hold)
            w = want[0] if len(want) == 1 else red(opv, want)
            if v != ("val", w):
                raise Cut("process %d: index %s holds %s instead of %s%s" % (rank, x, show(v), w, what))


def show(v):
    if v == UNINIT or v == UNDEF:
        return "no value"
    return str(v[1]) if isinstance(v, tuple) and v[0] == "val" else "something else (%s)" % (v,)


VAR = [(("low", 0), None, "all"), (("high", 0), None, "all"), (("rr", 0), None, "first"), (("rr", 0), 7, "last"), (("lcg", 1), None, "all"), (("lcg", 2), 1, "all"), (("lcg", 3), 3, "first")]
TVAR = VAR + [(("lcg", k), c, r) for k in range(4, 14) for c, r in ((None, "all"), (2, "last"))][:16]


def simulate(it0, n, body, var, size=None):
    pol, chunk, ready = var
    net = Net(chunk, ready)
    its = [NInterp(it0.choose) for _ in range(n)]
    for it in its:
        it.covered = it0.covered

    def proc(it, rank):
        body(it, rank)
    Sim(its, proc, net, pol).run()


def f_switch(n, ext, steps, es=8, bins=None, pattern="mixed", vs=None):
    """steps: list of (ranges per process, flow, reduction); values are rewritten after every step"""
    def body(it0):
        vv = vs or (TVAR if THOROUGH else VAR)
        var = vv[it0.choose(len(vv))]

        def proc(it, rank):
            A = App(it, rank, n, bins[rank] if bins else True, pattern)
            it.app = A
            me = A.call("laik_myid", A.world)
            if not isinstance(me, int) or not 0 <= me < n:
                raise Cut("process number %r in a world of %d" % (me, n))
            sp = A.space(ext)
            d = A.container(sp, es)
            prev = None
            for k, (ranges, flow, rop) in enumerate(steps):
                p = A.part(A.world, sp, ranges)
                A.switch(d, p, flow, rop)
                cs = A.cells(d, ranges[me])
                if prev is not None and flow == "Preserve":
                    check(me, A.read(cs), prev, ["S%dP%d:" % (k - 1, q) for q in range(n)], None if rop == "None" else rop, M.enum_const("LAIK_RO_" + rop))
                A.write(cs, "S%dP%d:" % (k, me))
                prev = ranges
        simulate(it0, n, proc, var)
    return body


def f_kvs(n, steps, store="teststore", vs=None, two=False):
    """steps: per process lists of (key, value) set before a sync; value None: removed, bytes: binary data"""
    def body(it0):
        vv = vs or (TVAR if THOROUGH else VAR)
        var = vv[it0.choose(len(vv))]

        def proc(it, rank):
            A = App(it, rank, n)
            it.app = A
            me = A.call("laik_myid", A.world)
            kvs = A.call("laik_kvs_new", A.text(store), A.inst)
            other = A.call("laik_kvs_new", A.text("other"), A.inst) if two else None
            want = {}
            for k, ops in enumerate(steps):
                for q in range(n):
                    for key, v in ops[q]:
                        want[key] = enc(v)
                        if q != me:
                            continue
                        if v is None:
                            A.call("laik_kvs_remove", kvs, A.text(key))
                        elif isinstance(v, bytes):
                            A.call("laik_kvs_set", kvs, A.text(key), len(v), A.text([netsim.signed8(b) for b in v]))
                        else:
                            A.call("laik_kvs_sets", kvs, A.text(key), A.text(v))
                if other is not None:
                    A.call("laik_kvs_sets", other, A.text("k%d" % k), A.text("other"))
                    A.call("laik_kvs_sync", other)
                A.call("laik_kvs_sync", kvs)
                n0 = A.call("laik_kvs_count", kvs)
                got = {}
                for i in range(n0):
                    e = A.call("laik_kvs_getn", kvs, i)
                    key = it.str(A.call("laik_kvs_key", e))
                    if key in got:
                        raise Cut("process %d: entry '%s' exists twice" % (me, key))
                    got[key] = None
                for key, v in want.items():
                    ps = Obj("size", 4)
                    p = A.call("laik_kvs_get", kvs, A.text(key), P(ps))
                    if v is None:
                        if p != NULL and p != 0:
                            raise Cut("process %d: entry '%s' still has a value after its removal was synchronised" % (me, key))
                        continue
                    if p == NULL or p == 0:
                        raise Cut("process %d: entry '%s' has no value after sync %d" % (me, key, k))
                    sz = rd(ps, 0)
                    b = it.bytes(p, sz)
                    if b != v:
                        raise Cut("process %d: entry '%s' has %s after sync %d, expected %s" % (me, key, show8(b), k, show8(v)))
                for key in got:
                    if key not in want:
                        raise Cut("process %d: entry '%s' was never set" % (me, key))
        simulate(it0, n, proc, var)
    return body


def enc(v):
    return None if v is None else [netsim.signed8(b) for b in (v if isinstance(v, bytes) else v.encode() + bytes(1))]


def show8(b):
    return "%d bytes %s" % (len(b), bytes(x & 255 for x in b)[:60]) if all(isinstance(x, int) for x in b) else str(b)[:80]


def blk(n, m, rot=0):
    """blocks of m indexes on n processes"""
    out = [[((k * m // n,), ((k + 1) * m // n,))] if k * m // n < (k + 1) * m // n else [] for k in range(n)]
    return out[rot:] + out[:rot]


def full(n, *ext):
    return [[((0,) * len(ext), tuple(ext))] for _ in range(n)]


def one(n, k, *ext):
    return [[((0,) * len(ext), tuple(ext))] if p == k else [] for p in range(n)]


def some(n, ks, *ext):
    return [[((0,) * len(ext), tuple(ext))] if p in ks else [] for p in range(n)]


def cyc(n, m, rot=0):
    """indexes one by one to processes"""
    return [[((x,), (x + 1,)) for x in range(m) if (x + rot) % n == p] for p in range(n)]


def rows(n, ext, dim, rot=0):
    """blocks of one dimension"""
    out = []
    for p in range(n):
        k = (p + rot) % n
        f, t = [0] * len(ext), list(ext)
        f[dim], t[dim] = k * ext[dim] // n, (k + 1) * ext[dim] // n
        out.append([(tuple(f), tuple(t))] if f[dim] < t[dim] else [])
    return out


def halo(n, m, w=1):
    return [[((max(0, p * m // n - w),), (min(m, (p + 1) * m // n + w),))] for p in range(n)]


ANCHOR = {"exchange": "tcp2_exec", "reduction": "tcp2_exec", "format": "tcp2_exec", "key-value store": "tcp2_sync"}
VSHORT = [VAR[0], VAR[3], VAR[5]]


def families(thorough):
    out = []
    A = lambda rule, name, f: out.append((rule, name, f))
    S = lambda name, n, ext, steps, rule="exchange", **k: A(rule, name, f_switch(n, ext, steps, **k))
    N, Pr = ("None", "None"), ("Preserve", "None")
    Sum, Mx = ("Preserve", "Sum"), ("Preserve", "Max")
    S("blocks to rotated blocks, 2 processes", 2, (5,), [(blk(2, 5), *N), (blk(2, 5, 1), *Pr), (blk(2, 5), *Pr)])
    S("blocks to rotated blocks, 3 processes", 3, (7,), [(blk(3, 7), *N), (blk(3, 7, 1), *Pr), (blk(3, 7, 2), *Pr)])
    S("blocks, 4 processes", 4, (9,), [(blk(4, 9), *N), (blk(4, 9, 2), *Pr), (full(4, 9), *Pr)], vs=VSHORT)
    S("halo of blocks, 3 processes", 3, (7,), [(blk(3, 7), *N), (halo(3, 7), *Pr)])
    S("indexes one by one, 2 processes", 2, (5,), [(cyc(2, 5), *N), (blk(2, 5), *Pr), (cyc(2, 5, 1), *Pr)], vs=VSHORT)
    S("several mappings, 2 processes", 2, (4,), [([[((0,), (1,), 1), ((2,), (3,), 2)], [((1,), (2,), 1), ((3,), (4,), 2)]], *N),
                                                 ([[((1,), (2,), 5), ((3,), (4,), 6)], [((0,), (1,), 5), ((2,), (3,), 6)]], *Pr)])
    S("one to all, 3 processes", 3, (3,), [(one(3, 1, 3), *N), (full(3, 3), *Pr)])
    S("one to another, 3 processes", 3, (3,), [(one(3, 0, 3), *N), (one(3, 2, 3), *Pr), (one(3, 0, 3), *Pr)])
    S("rows to columns, 2 processes", 2, (3, 2), [(rows(2, (3, 2), 1), *N), (rows(2, (3, 2), 0, 1), *Pr), (full(2, 3, 2), *Pr)])
    S("planes, 2 processes", 2, (2, 3, 2), [(rows(2, (2, 3, 2), 2), *N), (rows(2, (2, 3, 2), 1), *Pr), (rows(2, (2, 3, 2), 0), *Pr)], vs=VSHORT)
    S("more processes than indexes", 3, (2,), [(blk(3, 2), *N), (blk(3, 2, 1), *Pr), (full(3, 2), *Pr)], vs=VSHORT)
    S("single process", 1, (3,), [(full(1, 3), *N), (blk(1, 3), *Pr)], vs=VAR[:1])
    R = lambda *a, **k: S(*a, rule="reduction", **k)
    R("sum of all to one, 3 processes", 3, (3,), [(full(3, 3), *N), (one(3, 1, 3), *Sum)])
    R("sum of all to all, 3 processes", 3, (2,), [(full(3, 2), *N), (full(3, 2), *Sum), (full(3, 2), *Mx)])
    R("sum of all to blocks, 3 processes", 3, (4,), [(full(3, 4), *N), (blk(3, 4, 1), *Sum)])
    R("sum of two to the third", 3, (2,), [(some(3, (0, 1), 2), *N), (one(3, 2, 2), *Sum)])
    R("sum of two to others", 4, (2,), [(some(4, (1, 3), 2), *N), (some(4, (0, 1, 2), 2), *Sum)], vs=VSHORT)
    R("sum of halos", 2, (4,), [(halo(2, 4), *N), (blk(2, 4), *Sum), (full(2, 4), *Sum)])
    R("sum of three to the fourth", 4, (2,), [(some(4, (0, 1, 2), 2), *N), (one(4, 3, 2), *Sum)], vs=VSHORT)
    R("sum in two dimensions", 3, (2, 2), [(full(3, 2, 2), *N), (full(3, 2, 2), *Sum), (one(3, 2, 2, 2), *Sum)], vs=VSHORT)
    F = lambda *a, **k: S(*a, rule="format", **k)
    for pat in ("digits", "letters", "mixed"):
        for bins in ((False, False), (True, False), (False, True)):
            F("%s, digits %s" % ("/".join("binary" if b else "text" for b in bins), pat), 2, (3,),
              [(blk(2, 3), *N), (blk(2, 3, 1), *Pr), (full(2, 3), *Sum)], bins=bins, pattern=pat, vs=VSHORT)
    for es in (1, 2, 4, 16, 24):
        for bins in ((True, True), (False, False)):
            F("%s, elements of %d bytes" % ("binary" if bins[0] else "text", es), 2, (3,), [(blk(2, 3), *N), (blk(2, 3, 1), *Pr)], es=es, bins=bins, vs=VSHORT)
    F("text, rows to columns", 2, (3, 2), [(rows(2, (3, 2), 1), *N), (rows(2, (3, 2), 0, 1), *Pr)], bins=(False, False), vs=VSHORT)
    F("text, planes", 2, (2, 2, 2), [(rows(2, (2, 2, 2), 2), *N), (rows(2, (2, 2, 2), 0, 1), *Pr)], bins=(False, False), vs=VSHORT[:1])
    F("binary, more data than one message", 2, (12,), [(blk(2, 12), *N), (blk(2, 12, 1), *Pr)], es=2000, vs=VSHORT[:2])
    F("text, large elements", 2, (3,), [(blk(2, 3), *N), (blk(2, 3, 1), *Pr)], es=500, bins=(False, False), vs=VSHORT[:1])
    F("binary, many small elements", 2, (1100,), [(blk(2, 1100), *N), (blk(2, 1100, 1), *Pr)], es=16, vs=VSHORT[:1])
    K = lambda name, n, steps, **k: A("key-value store", name, f_kvs(n, steps, **k))
    K("one process", 1, [[[("a", "1")]], [[("a", None)]]], vs=VAR[:1])
    K("different entries", 3, [[[("a", "1")], [("b", "2"), ("c", "3")], []], [[], [], [("a", "4")]], [[], [], []]])
    K("same entries", 3, [[[("a", "1")], [("a", "1")], [("b", "1")]], [[("a", "2")], [], [("a", "2")]], [[], [("b", "")], []]])
    K("removal", 3, [[[("a", "1")], [("b", "2")], []], [[], [("a", None)], []], [[("b", None)], [], [("a", "3")]]])
    K("texts", 2, [[[("a", ""), ("b", " two  words "), ("c", "x" * 150)], [("a key", "1"), ("k" * 60, "v"), ("c2", "line\nline")]],
                   [[("c", "quit\nB\x04"), ("a", "B")], [("B", "")]]], vs=VSHORT)
    K("binary values", 2, [[[("a", bytes([1, 0, 0, 0])), ("b", bytes(range(3, 40)))], [("c", bytes([10, 13, 32, 255]))]], [[("c", bytes([0]))], [("a", bytes([0, 2]))]]], vs=VSHORT)
    K("large values", 2, [[[("a", "y" * 2000)], [("b", "z" * 1500)]]], vs=VSHORT[:1])
    K("two stores", 3, [[[("a", "1")], [], [("b", "2")]], [[], [("c", "3")], []]], two=True, vs=VSHORT, store="store" * 8)
    K("many entries", 2, [[[("k%d" % i, "v%d" % i) for i in range(0, 30, 2)], [("k%d" % i, "v%d" % i) for i in range(1, 30, 2)]]], vs=VSHORT[:2])
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, NInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
