"""Storage over repeated work.

Programs repeat rounds of switches, prepared transitions, reservations, and of creating
and freeing containers, partitionings, transitions and action sequences.  Every process
is interpreted completely on its own memory (models as for sequences of container
operations): each allocation is freed at most once and not used afterwards; after every
round the same storage is in use as after the round before; containers hold the values
of the reference although others are freed; numbers given to objects may have any size;
statistics and log messages refer to living objects and do not change what is done."""
from collections import Counter
from .. import model
from ..absint import Abort, Cut, DEFAULT, is_ptr, NULL
from ..model import P
from ..netsim import MInterp, MSim, NInterp, Net, Sim
from . import C12, C16, C17
from .C16 import blk, cyc, full, halo, one, points, rows, some
from .C17 import ENVS, Init, MApp, Max, N, Pr, Sum, run_prog

M = None
THOROUGH = False
ALLOC = ("malloc", "calloc", "realloc", "strdup", "strndup")


def tracked(it):
    """remembers every allocation with the place it was done"""
    it.live = []
    for k in ALLOC:
        f = it.handlers.get(k) or DEFAULT.get(k)
        if f is None:
            continue

        def g(i, a, f=f):
            p = f(i, a)
            if is_ptr(p) and p[1] is not None:
                it.live.append((p[1], it.cur.loc()))
            return p
        it.handlers[k] = g
    return it


def in_use(it):
    it.live = [x for x in it.live if not x[0].freed]
    n, b = Counter(), Counter()
    for o, loc in it.live:
        n[loc] += 1
        b[loc] += o.size if isinstance(o.size, int) else 0
    return n, b


# ---- logging ----------------------------------------------------------------------

def texts(it, a):
    """format and text arguments of a message"""
    if not a or not is_ptr(a[0]) or a[0][1] is None:
        return
    f, k, i = it.str(a[0]), 1, 0
    while i < len(f):
        if f[i] != "%":
            i += 1
            continue
        i += 1
        if f[i:i + 1] == "%":
            i += 1
            continue
        prec = None
        while i < len(f) and f[i] in "-+ #0123456789.*lhzjt":
            if f[i] == "*":
                prec = a[k] if f[i - 1] == "." else prec
                k += 1
            i += 1
        if f[i:i + 1] == "s" and k < len(a) and is_ptr(a[k]) and a[k][1] is not None:
            it.text(a[k], prec if isinstance(prec, int) else None)
        k += 1
        i += 1


def h_log(it, a):
    DEFAULT["laik_log"](it, a)
    texts(it, a[1:])


def logging(it):
    it.handlers["laik_log"] = h_log
    it.handlers["laik_log_append"] = texts
    it.handlers["laik_log_flush"] = texts
    it.handlers["laik_log_begin"] = lambda i, a: 1
    it.handlers["laik_log_PrettyInt"] = lambda i, a: None       # a number in floating point
    it.handlers["laik_log_shown"] = lambda i, a: 1
    return it


# ---- program ----------------------------------------------------------------------

def f_rounds(n, ext, setup, rnd, be, rounds=3, env=None, ids=None, log=False, ty="laik_Double", end=()):
    def body(it0):
        mk = NInterp if be == "tcp2" else MInterp
        its = [tracked(mk(it0.choose)) for _ in range(n)]
        for it in its:
            it.covered = it0.covered
            if log:
                logging(it)

        def proc(it, rank):
            A = type("A", (MApp,), {"ENV": env or {}})(it, rank, n, be, ty, env)
            it.app = A
            me = A.call("laik_myid", A.world)
            if ids is not None:
                for g in M.globals:
                    if g.split(".")[0].endswith("_id") and g.split(".")[0].split("_id")[0] in ("aseq", "data", "res", "partitioning", "space", "trans", "type"):
                        it.storem(("p", ("@", g), 0), 4, ids)
            seen = []

            def mark():
                seen.append(in_use(it))
                if len(seen) < 3:
                    return
                for what, a, b in zip(("allocations", "bytes"), seen[-2], seen[-1]):
                    more = {k: b[k] - a[k] for k in b if b[k] > a[k]}
                    if more and sum(b.values()) > sum(a.values()):
                        k = sorted(more)[0]
                        raise Cut("process %d: %d %s more in use after round %d than after the round before (allocated at %s)"
                                  % (me, more[k], what, len(seen), k))
            A.mark = mark
            prog = list(setup)
            for k in range(rounds):
                prog += list(rnd) + [("mark",)]
            run_prog(A, me, n, ext, prog + list(end))
            A.call("laik_finalize", A.inst)
        if be == "tcp2":
            v = C16.VSHORT[it0.choose(2)]
            Sim(its, proc, Net(*v[1:]), v[0]).run()
        else:
            MSim(its, proc, ("low", 0)).run()
    return body


def programs():
    """(rule, name, n, ext, setup, round)"""
    out = []
    A = lambda rule, name, n, ext, setup, rnd, end=(): out.append((rule, name, n, ext, setup, rnd, end))
    S = lambda c, *ps: [x for p in ps for x in (("switch", c, p[0]) + p[1], ("write", c))]
    for n, m in ((1, 3), (2, 5), (3, 7)):
        pp = [("data", "d"), ("part", "a", blk(n, m)), ("part", "b", blk(n, m, 1)), ("part", "f", full(n, m)), ("part", "o", one(n, n - 1, m)), ("part", "h", halo(n, m))]
        A("switches", "%d processes" % n, n, (m,), pp, S("d", ("a", N), ("b", Pr), ("f", Pr), ("o", Sum), ("a", Pr), ("h", Pr), ("a", Max), ("f", Init), ("b", Sum)))
        A("switches", "to none, %d processes" % n, n, (m,), pp, S("d", ("a", N), ("b", Pr)) + [("switch", "d", None) + N] + S("d", ("a", Init), ("f", Pr)) + [("flow", "d") + Sum])
        A("prepared", "%d processes" % n, n, (m,), pp + S("d", ("a", N)), [("calc", "t", "a", "h") + Pr, ("exec", "d", "t"), ("write", "d"), ("calc", "u", "h", "a") + Sum, ("actions", "x", "d", "u", None, None), ("run", "x"), ("freeas", "x"), ("freet", "t"), ("freet", "u")])
        A("prepared", "kept, %d processes" % n, n, (m,), pp + S("d", ("a", N)) + [("calc", "t", "a", "h") + Pr, ("calc", "u", "h", "a") + Sum, ("actions", "x", "d", "t", None, None), ("actions", "y", "d", "u", None, None)],
          [("run", "x"), ("write", "d"), ("run", "y"), ("write", "d")], [("freeas", "x"), ("freeas", "y"), ("freet", "t"), ("freet", "u"), ("switch", "d", "f") + Pr])
        A("prepared", "without mappings, freed early, %d processes" % n, n, (m,), pp + S("d", ("a", N)), [("calc", "t", "a", "b") + Pr, ("calc", "u", "b", "a") + Pr, ("freet", "t")] + S("d", ("b", Pr)) + [("exec", "d", "u"), ("freet", "u")])
        A("reservations", "kept, %d processes" % n, n, (m,), pp + S("d", ("a", N)) + [("res", "r", "d", ["h", "f", "b"]), ("use", "d", "r")], S("d", ("h", Pr), ("b", Max), ("f", Pr), ("a", Sum)))
        A("reservations", "new in each round, %d processes" % n, n, (m,), pp + S("d", ("a", N)), [("res", "r", "d", ["h", "f"]), ("use", "d", "r")] + S("d", ("h", Pr), ("b", Max)) + [("freeres", "r")] + S("d", ("a", Pr)))
        A("reservations", "replaced, %d processes" % n, n, (m,), pp + S("d", ("a", N)), [("res", "r", "d", ["b"]), ("use", "d", "r")] + S("d", ("b", Pr)) + [("res", "s", "d", ["h"]), ("use", "d", "s")] + S("d", ("h", Pr)) + [("freeres", "r")] + S("d", ("a", Max)) + [("freeres", "s")])
        A("containers", "freed, %d processes" % n, n, (m,), pp + S("d", ("a", N)), [("data", "e")] + S("e", ("b", N), ("f", Pr)) + S("d", ("b", Pr)) + [("freedata", "e")] + S("d", ("a", Pr)))
        A("containers", "freed unused, %d processes" % n, n, (m,), pp + S("d", ("a", N)), [("data", "e"), ("data", "g"), ("freedata", "e")] + S("d", ("b", Pr)) + S("g", ("b", N)) + [("freedata", "g")] + S("d", ("a", Pr)))
        A("containers", "freed after release of the partitioning, %d processes" % n, n, (m,), pp + S("d", ("a", N)), [("data", "e")] + S("e", ("b", N)) + [("switch", "e", None) + N, ("freedata", "e")])
        A("containers", "freed with a reservation, %d processes" % n, n, (m,), pp + S("d", ("a", N)), [("data", "e"), ("res", "r", "e", ["b", "f"]), ("use", "e", "r")] + S("e", ("b", N), ("f", Pr)) + [("switch", "e", None) + N, ("freeres", "r"), ("freedata", "e")])
        A("containers", "freed in use with its reservation, %d processes" % n, n, (m,), pp + S("d", ("a", N)), [("data", "e"), ("res", "r", "e", ["b", "f"]), ("use", "e", "r")] + S("e", ("b", N), ("f", Pr)) + [("freeres", "r", "e"), ("freedata", "e")] + S("d", ("b", Pr), ("a", Pr)))
        A("partitionings", "freed, %d processes" % n, n, (m,), pp + S("d", ("a", N)) + [("partitioner", "Q", cyc(n, m)), ("partitioner", "R", halo(n, m))], [("part", "q", "Q"), ("part", "r", "R")] + S("d", ("q", Pr)) + S("d", ("r", Pr)) + [("free", "q")] + S("d", ("a", Max)) + [("free", "r")])
        A("partitionings", "copies, %d processes" % n, n, (m,), pp + S("d", ("a", N)) + [("partitioner", "Q", blk(n, m, 1))], [("part", "q", "Q"), ("name", "q", "a name which is longer than others"), ("clone", "r", "q"), ("clone", "s", "r")] + S("d", ("q", Pr), ("r", Pr), ("s", Pr)) + [("free", "q"), ("free", "r")] + S("d", ("a", Pr)) + [("free", "s")])
        A("names", "%d processes" % n, n, (m,), pp + [("dname", "d", "x"), ("name", "a", "partitioning a")] + S("d", ("a", N)), [("dname", "d", "a rather long name for a container"), ("name", "b", "some other name")] + S("d", ("b", Pr)) + [("dname", "d", "d"), ("name", "b", "b")] + S("d", ("a", Pr)))
    two = lambda n, e: [("data", "d"), ("part", "r", rows(n, e, 0)), ("part", "c", rows(n, e, 1)), ("part", "f", full(n, *e)), ("part", "o", one(n, 0, *e))]
    A("switches", "two dimensions", 2, (3, 2), two(2, (3, 2)), S("d", ("r", N), ("c", Pr), ("f", Pr), ("o", Sum), ("r", Pr)))
    A("switches", "three dimensions", 2, (2, 2, 3), two(2, (2, 2, 3)), S("d", ("r", N), ("c", Pr), ("f", Pr), ("f", Max)))
    A("reservations", "two dimensions", 2, (3, 3), two(2, (3, 3)) + [("res", "R", "d", ["r", "c"]), ("use", "d", "R")], S("d", ("r", N), ("c", Pr), ("r", Pr)))
    tags = [[((0,), (1,), 1), ((2,), (3,), 2)], [((1,), (2,), 1), ((3,), (5,), 2)]]
    tagt = [[((1,), (3,), 1), ((3,), (4,), 2)], [((0,), (1,), 1), ((4,), (5,), 2)]]
    A("switches", "several mappings", 2, (5,), [("data", "d"), ("part", "a", tags), ("part", "b", tagt), ("part", "f", full(2, 5))], S("d", ("a", N), ("b", Pr), ("f", Pr), ("b", Sum), ("a", Pr)))
    A("reservations", "several mappings", 2, (5,), [("data", "d"), ("part", "a", tags), ("part", "b", tagt), ("part", "f", full(2, 5))] + S("d", ("f", Init)), [("res", "r", "d", ["a", "b"]), ("use", "d", "r")] + S("d", ("a", Sum), ("b", Pr), ("a", Pr)) + [("switch", "d", "f") + Pr, ("freeres", "r")])
    many = lambda k: [[((x,), (x + 1,), x + 1) for x in range(80) if (x + k) % 2 == p] for p in range(2)]
    A("switches", "many mappings", 2, (80,), [("data", "d"), ("part", "a", many(0)), ("part", "b", many(1))], S("d", ("a", N), ("b", Pr), ("a", Pr)))
    A("switches", "empty parts", 3, (2,), [("data", "d"), ("part", "a", blk(3, 2)), ("part", "b", blk(3, 2, 1)), ("part", "o", one(3, 0, 2))], S("d", ("a", N), ("b", Pr), ("o", Pr), ("b", Pr)))
    return out


ANCHOR = {}


def families(thorough):
    out = []

    def F(rule, name, body, anchor):
        ANCHOR[rule] = anchor
        out.append((rule, name, body))
    top = {"switches": "laik_switchto_partitioning", "prepared": "laik_exec_actions", "reservations": "laik_reservation_free", "containers": "laik_free", "partitionings": "laik_free_partitioning", "names": "laik_data_set_name"}
    for k, (rule, name, n, ext, setup, rnd, end) in enumerate(programs()):
        bes = ["mpi", "tcp", "tcp2"] if n > 1 else ["mpi", "single"]
        if not thorough and n > 1:
            bes = ["mpi", "tcp" if k % 3 else "tcp2"]
        for be in bes:
            F(rule, "%s, %s" % (name, be), f_rounds(n, ext, setup, rnd, be, 4 if thorough else 3, end=end, ty=C17.TYPES[k % 3]), top[rule])
        F("messages", name + ": " + rule, f_rounds(n, ext, setup, rnd, "mpi", 1, log=True, end=end, env=ENVS[k % 3]), "laik_log_flush")
        if thorough or n < 3:
            F("numbers", name + ": " + rule, f_rounds(n, ext, setup, rnd, "mpi", 1, ids=2 ** 31 - 200, end=end), top[rule])
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, NInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    C12.M = C16.M = C17.M = M
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
