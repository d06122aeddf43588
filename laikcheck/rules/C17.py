"""Sequences of container operations.

Programs of 1-4 processes which switch containers between partitionings, repeatedly and
with reductions, using reservations, calculated transitions and prepared action
sequences, several containers, layouts and groups, are interpreted completely - from
laik_init to laik_finalize, every process on its own memory - over models of MPI
(synchronous sends), the mini-MPI of the TCP backend, sockets (TCP2 backend), or alone
(single backend).  Elements are opaque; after each operation every index of every
process must hold the value resp. the reduction given by a reference that only knows
the ranges, data flow and written values."""
import random
from .. import model, mpisim, netsim
from ..absint import Abort, Cut, Obj, NULL, UNDEF, UNINIT, is_ptr
from ..build import AnalysisError
from ..model import P, fo, rd, setf
from ..netsim import MInterp, MSim, NInterp, Net, Sim
from . import C12, C16
from .C16 import App, blk, check, cyc, full, halo, one, points, rows, show, some

M = None
THOROUGH = False
SIZE = {"laik_Double": 8, "laik_Float": 4, "laik_Int32": 4, "laik_Int64": 8, "laik_UChar": 1, "laik_Char": 1, "laik_UInt64": 8}


class MApp(App):
    ENV = {}

    def __init__(self, it, rank, size, be, ty, env):
        self.be, self.ty = be, ty
        it.app = self
        it.be = be
        self.it = it
        super().__init__(it, rank, size)

    def call(self, name, *a):
        if name == "laik_init":
            self.it.env.update({"LAIK_BACKEND": self.be}, **self.ENV)
            if self.be in ("mpi", "tcp", "single"):
                self.it.env.pop("LAIK_SIZE")
        return super().call(name, *a)

    def container(self, sp, ty=None):
        it = self.it
        t = it.loadm(("p", ("@", self.ty), 0), 8, "ptr")
        self.call("laik_type_set_init", t, ("p", ("@", "model_init"), 0))
        self.call("laik_type_set_reduce", t, ("p", ("@", "model_reduce"), 0))
        self.es = SIZE[self.ty]
        return self.call("laik_new_data", sp, t)

    # ---- message passing ---------------------------------------------------------
    es = 8

    def red(self, op, vs):
        return C16.red(op, vs)

    def name(self, v):
        return v[1] if isinstance(v, tuple) and v[0] == "val" else "?%s" % (v,)

    def opname(self, op):
        for o in C12.OPS:
            if op == C12.wire_op(self.be, o):
                return M.enum_const("LAIK_RO_" + o)
        raise Cut("unknown operation %r" % (op,))

    def typed(self, ty):
        if ty != C12.wire_type(self.be, self.ty):
            raise Cut("elements of type %s are sent as %r" % (self.ty, ty))


class Ref:
    """reference: value of each index in each process (None: not specified)"""

    def __init__(self, n):
        self.n = n
        self.part = {}
        self.val = {}
        self.cur = {}

    @staticmethod
    def idx(rs):
        return [x for r in rs for x in points(r)]

    def switch(self, c, new, flow, op):
        old = self.val.get(c)
        out = [dict.fromkeys(self.idx(rs)) for rs in new]
        if flow == "Init":
            for d in out:
                for x in d:
                    d[x] = "init%d" % M.enum_const("LAIK_RO_" + op)
        if flow == "Preserve" and old is not None:
            for d in out:
                for x in d:
                    hs = [o[x] for o in old if x in o]
                    if not hs or any(v is None for v in hs):
                        continue
                    if op == "None":
                        d[x] = hs[0] if len(set(hs)) == 1 else None
                    else:
                        d[x] = hs[0] if len(hs) == 1 else C16.red(M.enum_const("LAIK_RO_" + op), hs)
        self.val[c] = out


def verify(me, step, cells, want):
    for x, v in cells.items():
        w = want.get(x)
        if w is not None and v != ("val", w):
            raise Cut("process %d: index %s holds %s instead of %s after step %d (%s)" % (me, x, show(v), w, step[0], step[1]))
    for x in want:
        if x not in cells:
            raise Cut("process %d: no memory for index %s after step %d (%s)" % (me, x, step[0], step[1]))


def f_prog(n, ext, prog, be, ty="laik_Double", env=None, vs=None):
    def body(it0):
        if be == "tcp2":
            var = (vs or C16.VSHORT)[it0.choose(len(vs or C16.VSHORT))]
        else:
            pol = [("low", 0), ("high", 0), ("rr", 0)][: 3 if n > 1 else 1]
            pol = pol[it0.choose(len(pol))]
        mk = NInterp if be == "tcp2" else MInterp
        its = [mk(it0.choose) for _ in range(n)]
        for it in its:
            it.covered = it0.covered

        def proc(it, rank):
            A = type("A", (MApp,), {"ENV": env or {}})(it, rank, n, be, ty, env)
            it.app = A
            me = A.call("laik_myid", A.world)
            if me != rank and be != "tcp2" or not isinstance(me, int) or A.call("laik_size", A.world) != n:
                raise Cut("process number %r in a world of %r" % (me, A.call("laik_size", A.world)))
            run_prog(A, me, n, ext, prog)
            A.call("laik_finalize", A.inst)
        if be == "tcp2":
            Sim(its, proc, Net(*var[1:]), var[0]).run()
        else:
            MSim(its, proc, pol).run()
    return body


def run_prog(A, me, n, ext, prog):
    R = Ref(n)
    sp = A.space(ext)
    D, PT, RES, T, AS, G, PR = {}, {}, {}, {}, {}, {"world": A.world}, {}
    E = M.enum_const
    cur = {}            # container -> partitioning name
    mem = {}            # (container, reservation, partitioning) -> addresses
    for k, op in enumerate(prog):
        o, a = op[0], op[1:]
        moved = None
        if o == "data":
            D[a[0]] = A.container(sp)
            if len(a) > 1:
                A.call("laik_data_set_layout_factory", D[a[0]], ("p", ("@", M.fn("laik_new_layout_" + a[1]).name), 0))
        elif o == "part":
            g = G[a[2]] if len(a) > 2 else A.world
            if isinstance(a[1], str):
                pr, rs = PR[a[1]]
                PT[a[0]] = (A.call("laik_new_partitioning", pr, g, sp, NULL), rs)
            else:
                PT[a[0]] = (A.part(g, sp, a[1]), a[1])
        elif o == "partitioner":
            PR[a[0]] = (A.partitioner(sp, a[1]), a[1])
        elif o == "clone":
            PT[a[0]] = (A.call("laik_clone_empty_partitioning", PT[a[1]][0]), PT[a[1]][1])
            A.call("laik_partitioning_store_allranges", PT[a[0]][0])
        elif o == "name":
            A.call("laik_partitioning_set_name", PT[a[0]][0], A.text(a[1]))
        elif o == "dname":
            A.call("laik_data_set_name", D[a[0]], A.text(a[1]))
        elif o == "group":
            g, parent, gone = a
            L = Obj("list")
            for i, v in enumerate(gone):
                L.cells[4 * i] = (4, v)
            G[g] = A.call("laik_new_shrinked_group", G[parent], len(gone), P(L))
        elif o == "migrate":
            A.call("laik_partitioning_migrate", PT[a[0]][0], G[a[1]])
            PT[a[0]] = (PT[a[0]][0], a[2])
        elif o == "switch":
            c, p, flow, rop = a
            A.switch(D[c], PT[p][0] if p else NULL, flow, rop)
            moved = c, p, flow, rop
        elif o == "flow":
            c, flow, rop = a
            A.call("laik_switchto_flow", D[c], E("LAIK_DF_" + flow), E("LAIK_RO_" + rop))
            moved = c, cur[c], flow, rop
        elif o == "calc":
            t, p, q, flow, rop = a
            T[t] = (A.call("laik_calc_transition", sp, PT[p][0] if p else NULL, PT[q][0], E("LAIK_DF_" + flow), E("LAIK_RO_" + rop)), q, flow, rop)
        elif o == "exec":
            c, t = a
            A.call("laik_exec_transition", D[c], T[t][0])
            moved = (c,) + T[t][1:]
        elif o == "actions":
            s, c, t, fr, to = a
            AS[s] = (A.call("laik_calc_actions", D[c], T[t][0], RES[fr] if fr else NULL, RES[to] if to else NULL), c, t)
        elif o == "run":
            s, c, t = AS[a[0]]
            A.call("laik_exec_actions", s)
            moved = (c,) + T[t][1:]
        elif o == "res":
            r, c, ps = a
            RES[r] = A.call("laik_reservation_new", D[c])
            for p in ps:
                A.call("laik_reservation_add", RES[r], PT[p][0])
            A.call("laik_reservation_alloc", RES[r])
        elif o == "use":
            A.call("laik_data_use_reservation", D[a[0]], RES[a[1]] if a[1] else NULL)
        elif o == "write":
            c, same = a[0], a[1:] == ("same",)
            for q in range(n):
                for x in R.val[c][q]:
                    R.val[c][q][x] = "W%d%s:%s" % (k, "" if same else "P%d" % q, "_".join(map(str, x)))
            if cur[c]:
                cs = A.cells(D[c], PT[cur[c]][1][me])
                for x, p in cs.items():
                    A.it.storem(p, A.es, ("val", R.val[c][me][x]))
        elif o == "free":
            A.call("laik_free_partitioning", PT.pop(a[0])[0])
        elif o == "freet":
            A.call("laik_free_transition", T.pop(a[0])[0])
        elif o == "freeas":
            A.call("laik_aseq_free", AS.pop(a[0])[0])
        elif o == "freedata":
            A.call("laik_free", D.pop(a[0]))
            R.val.pop(a[0], None)
            cur.pop(a[0], None)
        elif o == "freeres":
            A.call("laik_reservation_free", RES.pop(a[0]))
            if len(a) > 1:      # together with the memory its container uses
                cur.pop(a[1])
        elif o == "mark":
            A.mark()
        else:
            raise AnalysisError("operation " + o)
        if moved:
            c, p, flow, rop = moved
            R.switch(c, PT[p][1] if p else [[] for _ in range(n)], flow, rop)
            cur[c] = p
        # all containers keep their values
        for c, p in cur.items():
            if p and (moved or o in ("write", "use", "res", "migrate")):
                verify(me, (k, " ".join(map(str, op[:3] if o in ("part", "migrate") else op))), A.read(A.cells(D[c], PT[p][1][me])), R.val[c][me])


ANCHOR = {}
N, Pr, Sum, Max, Init = ("None", "None"), ("Preserve", "None"), ("Preserve", "Sum"), ("Preserve", "Max"), ("Init", "Sum")


def programs():
    """(rule, name, n, ext, program)"""
    out = []
    A = lambda rule, name, n, ext, prog: out.append((rule, name, n, ext, prog))
    sw = lambda *ps: [x for k, p in enumerate(ps) for x in (("switch", "d", p[0]) + p[1], ("write", "d"))]
    for n, m in ((1, 3), (2, 5), (3, 7)):
        pp = [("data", "d"), ("part", "a", blk(n, m)), ("part", "b", blk(n, m, 1)), ("part", "f", full(n, m)), ("part", "o", one(n, n - 1, m)), ("part", "h", halo(n, m))]
        A("switches", "blocks, all, one of %d" % n, n, (m,), pp + sw(("a", N), ("b", Pr), ("f", Pr), ("o", Sum), ("a", Pr), ("h", Pr), ("a", Max), ("f", Init), ("b", Sum)))
        A("switches", "without partitioning between, %d" % n, n, (m,), pp + sw(("a", N), ("b", Pr)) + [("switch", "d", None) + N] + sw(("a", Init), ("b", Pr)))
        A("switches", "flows, %d" % n, n, (m,), pp + sw(("f", N)) + [("flow", "d") + Sum, ("write", "d"), ("flow", "d") + Max, ("flow", "d") + Init, ("write", "d", "same"), ("switch", "d", "o") + Max])
        A("switches", "overlapping to larger, %d" % n, n, (m,), pp + sw(("h", N), ("f", Sum), ("h", Sum), ("h", Max), ("f", Max), ("a", Sum), ("f", Pr), ("o", Max), ("h", Pr), ("o", Sum)))
        A("reservations", "loop, %d" % n, n, (m,), pp + [("res", "r", "d", ["a", "b", "h"]), ("use", "d", "r")] + sw(("a", N), ("h", Pr), ("a", N), ("h", Pr), ("b", N), ("a", Pr), ("b", Pr)))
        A("prepared", "transitions, %d" % n, n, (m,), pp + [("calc", "s", None, "a") + N, ("calc", "t", "a", "b") + Pr, ("calc", "u", "b", "a") + Pr, ("exec", "d", "s"), ("write", "d"),
          ("exec", "d", "t"), ("exec", "d", "u"), ("write", "d"), ("exec", "d", "t"), ("write", "d"), ("exec", "d", "u")])
        A("prepared", "actions without mappings, %d" % n, n, (m,), pp + [("calc", "t", "a", "h") + Pr, ("calc", "u", "h", "a") + Sum, ("actions", "x", "d", "t", None, None), ("actions", "y", "d", "u", None, None)]
          + sw(("a", N)) + [("run", "x"), ("write", "d"), ("run", "y"), ("write", "d"), ("run", "x"), ("run", "y")])
        A("prepared", "actions with reservation, %d" % n, n, (m,), pp + [("res", "r", "d", ["a", "h"]), ("use", "d", "r"), ("calc", "t", "a", "h") + Pr, ("calc", "u", "h", "a") + Sum,
          ("actions", "x", "d", "t", "r", "r"), ("actions", "y", "d", "u", "r", "r")] + sw(("a", N)) + [("run", "x"), ("write", "d"), ("run", "y"), ("write", "d"), ("run", "x"), ("run", "y")])
        A("containers", "two containers, %d" % n, n, (m,), [("data", "e")] + pp + sw(("a", N)) + [("switch", "e", "b") + Init, ("write", "e"), ("switch", "d", "b") + Pr, ("switch", "e", "f") + Pr, ("write", "e"),
          ("switch", "e", "a") + Sum, ("switch", "d", "f") + Pr, ("switch", "e", "b") + Pr])
        if n > 1:
            sub = lambda rs: rs[:n - 1] + [[]]
            A("groups", "shrink, %d" % n, n, (m,), pp + [("part", "s", sub(blk(n - 1, m) + [[]]))] + sw(("a", N), ("s", Pr)) + [("group", "g", "world", [n - 1]), ("migrate", "s", "g", sub(blk(n - 1, m) + [[]])),
              ("write", "d"), ("part", "k", (full(n - 1, m) + [[]]), "g"), ("switch", "d", "k") + Pr, ("write", "d"), ("switch", "d", "s") + Sum])
    two = lambda n, e: [("data", "d"), ("part", "r", rows(n, e, 0)), ("part", "c", rows(n, e, 1)), ("part", "f", full(n, *e)), ("part", "o", one(n, 0, *e))]
    A("switches", "two dimensions, 2", 2, (3, 2), two(2, (3, 2)) + sw(("r", N), ("c", Pr), ("f", Pr), ("o", Sum), ("r", Pr)))
    A("switches", "two dimensions, 3", 3, (3, 4), two(3, (3, 4)) + sw(("r", N), ("c", Pr), ("o", Pr), ("f", Pr), ("f", Max)))
    A("switches", "three dimensions, 2", 2, (2, 2, 3), [("part", "z", rows(2, (2, 2, 3), 2))] + two(2, (2, 2, 3)) + sw(("z", N), ("c", Pr), ("r", Pr), ("z", Pr), ("f", Pr)))
    A("prepared", "two dimensions", 2, (3, 3), two(2, (3, 3)) + [("res", "R", "d", ["r", "c"]), ("use", "d", "R"), ("calc", "t", "r", "c") + Pr, ("calc", "u", "c", "r") + Pr, ("actions", "x", "d", "t", "R", "R"), ("actions", "y", "d", "u", "R", "R")]
      + sw(("r", N)) + [("run", "x"), ("write", "d"), ("run", "y"), ("write", "d"), ("run", "x")])
    tags = [[((0,), (1,), 1), ((2,), (3,), 2)], [((1,), (2,), 1), ((3,), (5,), 2)]]
    tagt = [[((1,), (3,), 1), ((3,), (4,), 2)], [((0,), (1,), 1), ((4,), (5,), 2)]]
    A("switches", "several mappings", 2, (5,), [("data", "d"), ("part", "a", tags), ("part", "b", tagt), ("part", "f", full(2, 5))] + sw(("a", N), ("b", Pr), ("f", Pr), ("b", Sum), ("a", Pr)))
    A("reservations", "several mappings", 2, (5,), [("data", "d"), ("part", "a", tags), ("part", "b", tagt), ("res", "r", "d", ["a", "b"]), ("use", "d", "r")] + sw(("a", N), ("b", Pr), ("a", Pr), ("b", Pr)))
    A("switches", "indexes one by one", 3, (5,), [("data", "d"), ("part", "a", cyc(3, 5)), ("part", "b", cyc(3, 5, 2)), ("part", "f", full(3, 5))] + sw(("a", N), ("b", Pr), ("f", Pr), ("a", Sum)))
    A("switches", "reduction of some", 4, (3,), [("data", "d"), ("part", "a", some(4, (0, 2, 3), 3)), ("part", "b", some(4, (1, 2), 3)), ("part", "o", one(4, 1, 3)), ("part", "f", full(4, 3))]
      + sw(("a", N), ("b", Sum), ("f", Max), ("o", Sum), ("a", Pr), ("o", Max), ("f", Pr)))
    A("switches", "empty parts", 3, (2,), [("data", "d"), ("part", "a", blk(3, 2)), ("part", "b", blk(3, 2, 1)), ("part", "o", one(3, 0, 2))] + sw(("a", N), ("b", Pr), ("o", Pr), ("b", Pr)))
    for lay in ():
        A("layouts", lay, 2, (6,), [("data", "d", lay), ("part", "a", [[((0,), (2,), 1), ((4,), (5,), 1)], [((2,), (4,), 1), ((5,), (6,), 1)]]), ("part", "b", [[((3,), (6,), 1)], [((0,), (3,), 1)]]), ("part", "f", full(2, 6))]
          + sw(("a", N), ("b", Pr), ("a", Pr), ("f", Pr)))
    return out


def rand_prog(seed):
    r = random.Random(seed)
    n = r.choice((2, 2, 3, 3, 4))
    dims = r.choice((1, 1, 1, 2))
    ext = (r.randint(2, 7),) if dims == 1 else (r.randint(2, 3), r.randint(2, 4))
    kinds = {}

    def ranges(k):
        if dims == 2:
            return rows(n, ext, k % 2, r.randrange(n))
        t = r.randrange(4)
        if t == 0:
            return blk(n, ext[0], r.randrange(n))
        if t == 1:
            cuts = sorted(r.randint(0, ext[0]) for _ in range(n - 1))
            cs = list(zip([0] + cuts, cuts + [ext[0]]))
            r.shuffle(cs)
            return [[((a,), (b,))] if a < b else [] for a, b in cs]
        if t == 2:
            who = [r.randrange(n) for _ in range(ext[0])]
            return [[((x,), (x + 1,), 1) for x in range(ext[0]) if who[x] == p] for p in range(n)]
        return blk(n, ext[0])
    prog = [("data", "d"), ("data", "e")]
    for k in range(3):
        prog.append(("part", "p%d" % k, ranges(k)))
        kinds["p%d" % k] = "one"
    prog.append(("part", "f", full(n, *ext)))
    kinds["f"] = "all"
    # in several dimensions only reductions from all to one or to all processes are offered, and no initialisation
    who = sorted(r.sample(range(n), r.randint(1, n) if dims == 1 else 1))
    prog.append(("part", "s", some(n, who, *ext)))
    kinds["s"] = "one" if len(who) == 1 else "all"
    if dims == 1:
        prog.append(("part", "h", halo(n, ext[0])))
        kinds["h"] = "all"
    if r.random() < 0.4:
        ps = r.sample(["p0", "p1"], 2)
        tags = lambda p: [x for x in prog if x[0] == "part" and x[1] == p][0][2]
        if all(len(rs) <= 1 or all(len(x) > 2 for x in rs) for p in ps for rs in tags(p)) and dims == 1:
            prog += [("res", "r", "d", ps), ("use", "d", "r")]
    cur = {"d": None, "e": None}
    seq = 0
    for k in range(r.randint(5, 8)):
        c = r.choice("dde")
        q = r.choice(sorted(kinds))
        if dims > 1:
            if cur[c] == "f":
                q = r.choice("fs")
            fl = N if cur[c] is None else r.choice((Sum, Max)) if cur[c] == "f" else Pr
        elif cur[c] is None:
            fl = r.choice((N, Init))
        elif kinds[cur[c]] == "one":
            fl = r.choice((Pr, Pr, Sum, Init))
        else:
            fl = r.choice((Sum, Max, ("Preserve", "Min"), ("Preserve", "Prod"), Init))
        if cur[c] and fl[0] == "Preserve" and r.random() < 0.35:
            seq += 1
            prog += [("calc", "t%d" % seq, cur[c], q) + fl]
            if r.random() < 0.5:
                prog += [("exec", c, "t%d" % seq)]
            else:
                prog += [("actions", "x%d" % seq, c, "t%d" % seq, None, None), ("run", "x%d" % seq)]
        else:
            prog += [("switch", c, q) + fl]
        cur[c] = q
        if r.random() < 0.8 or fl[0] != "Preserve":
            prog += [("write", c)]
    return n, ext, prog


TYPES = ["laik_Double", "laik_Int32", "laik_UChar"]
ENVS = [{}, {"LAIK_MPI_ASYNC": "0"}, {"LAIK_MPI_REDUCE": "0"}]
TENVS = [{}, {"LAIK_TCP_REDUCE": "0"}]


def families(thorough):
    out = []
    seen = set()

    def F(rule, name, n, ext, prog, be, ty="laik_Double", env=None, vs=None):
        r = "%s (%s)" % (rule, be)
        ANCHOR[r] = {"mpi": "laik_mpi_exec", "tcp": "laik_tcp_exec", "tcp2": "tcp2_exec", "single": "laik_single_exec"}[be]
        if env:
            name += ", " + " ".join("%s=%s" % e for e in env.items())
        if ty != "laik_Double":
            name += ", " + ty
        out.append((r, name, f_prog(n, ext, prog, be, ty, env, vs)))
    for k, (rule, name, n, ext, prog) in enumerate(programs()):
        F(rule, name, n, ext, prog, "mpi", TYPES[k % 3])
        if n > 1:
            F(rule, name, n, ext, prog, "mpi", TYPES[(k + 1) % 3], ENVS[1 + k % 2])
            F(rule, name, n, ext, prog, "tcp", TYPES[k % 3], TENVS[k % 2])
        else:
            F(rule, name, n, ext, prog, "single")
        if thorough or k % 4 == 0:
            F(rule, name, n, ext, prog, "tcp2", vs=None if thorough else C16.VSHORT[:2])
    for seed in range(500 if thorough else 80):
        n, ext, prog = rand_prog(seed)
        be = ("mpi", "tcp", "tcp2", "mpi", "tcp")[seed % 5]
        F("mixed", "sequence %d, %d processes, %s" % (seed, n, "x".join(map(str, ext))), n, ext, prog, be, TYPES[seed % 2], {"mpi": ENVS[(seed // 5) % 3], "tcp": TENVS[(seed // 5) % 2], "tcp2": {}}[be], None if thorough else C16.VSHORT[:2])
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, NInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    C12.M = C16.M = M
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
