"""Statistics and memory of containers.

Programs as for sequences of container operations are interpreted completely; the
message passing model counts the messages and elements each process really sends,
receives and reduces during every operation, an allocator given by the application
records the element memory.  After each operation the statistics of the container must
equal these counts, memory is only requested from and returned to the allocator of the
container, each block once, and the summary is the field-wise sum."""
import re
from .. import model, mpisim
from ..absint import Abort, Cut, DEFAULT, Obj, NULL, is_ptr
from ..model import P, fo, rd
from ..netsim import MInterp, MSim, NInterp, Net, Sim
from . import C12, C16, C17
from .C16 import blk, full, halo, one, points, rows
from .C17 import Init, MApp, Max, N, Pr, Sum, run_prog

M = None
THOROUGH = False
OPS = ("laik_switchto_partitioning", "laik_switchto_flow", "laik_exec_transition", "laik_exec_actions")
ST = "_Laik_SwitchStat"
FIELDS = ("switches", "switches_noactions", "mallocCount", "freeCount", "mallocedBytes", "freedBytes", "initedBytes", "copiedBytes", "currAllocedBytes", "maxAllocedBytes",
          "transitionCount", "msgSendCount", "msgRecvCount", "msgReduceCount", "msgAsyncSendCount", "msgAsyncRecvCount", "elemSendCount", "elemRecvCount", "elemReduceCount",
          "byteSendCount", "byteRecvCount", "byteReduceCount", "initOpCount", "reduceOpCount", "byteBufCopyCount")
SUMMED = [f for f in FIELDS if f != "currAllocedBytes"]


def ptr_of(p):
    return (id(p[1]), p[2])


def counting(it):
    it.moved = {}
    # callbacks of the element type are set up with the application
    def ops(i):
        for k, key, n in (("model_reduce", "Op", 3), ("model_init", "Init", 1)):
            def g(i, a, f=i.handlers[k], key=key, n=n):
                i.moved[key + "Elem"] = i.moved.get(key + "Elem", 0) + a[n]
                return f(i, a)
            i.handlers[k] = g
    it.count_ops = ops

    def wrap(names, key, n):
        for k in names:
            f = it.handlers.get(k)
            if f is None:
                continue

            def g(i, a, f=f):
                for q in (key, key + "Elem"):
                    i.moved[q] = i.moved.get(q, 0) + (1 if q == key else a[n])
                return f(i, a)
            it.handlers[k] = g
    for pre in ("MPI_", "laik_tcp_minimpi_"):
        for e, key, n in (("Send", "Send", 1), ("Recv", "Recv", 1), ("Isend", "ASend", 1), ("Irecv", "ARecv", 1), ("Reduce", "Red", 2), ("Allreduce", "Red", 2)):
            wrap((pre + e, pre + e.lower()), key, n)
    return it


class SApp(MApp):
    """compares the statistics of a container with what was done, after every operation"""
    def allocator(self, nr):
        it = self.it

        def al(i, a):
            if not isinstance(a[1], int):
                raise Cut("memory of %r bytes requested" % (a[1],))
            o = Obj("element memory", a[1], fresh=True)
            self.blocks[id(o)] = [o, a[1], a[0], False, nr]
            return ("p", o, 0)

        def fr(i, a):
            if a[1] == NULL or a[1] == 0:
                return None
            b = self.blocks.get(id(a[1][1])) if is_ptr(a[1]) else None
            if b is None or a[1][2] != 0 or b[4] != nr:
                raise Cut("an allocator gets back memory it did not provide")
            if b[3]:
                raise Cut("memory is returned twice to the allocator")
            if b[2] != a[0]:
                raise Cut("memory is returned for another container")
            b[3] = b[0].freed = True
            return None
        if not hasattr(self, "blocks"):
            self.blocks, self.asd = {}, {}
            f = it.handlers.get("free") or DEFAULT["free"]

            def libfree(i, a):
                if is_ptr(a[0]) and id(a[0][1]) in self.blocks:
                    raise Cut("element memory of an allocator is released without it")
                return f(i, a)
            it.handlers["free"] = libfree
        it.handlers["model_alloc%d" % nr] = al
        it.handlers["model_free%d" % nr] = fr
        return self.call("laik_new_allocator", ("p", ("@", "model_alloc%d" % nr), 0), ("p", ("@", "model_free%d" % nr), 0), NULL)

    def container(self, sp, ty=None):
        d = super().container(sp, ty)
        if not hasattr(self, "own_alloc"):
            self.own_alloc = self.allocator(0)
        self.call("laik_set_allocator", d, self.own_alloc)
        if self.call("laik_get_allocator", d) != self.own_alloc:
            raise Cut("the allocator set is not used")
        return d

    def stat(self, d):
        o, b = self.it.deref(d)
        s = rd(o, b + fo("_Laik_Data", "stat")[0])
        so, sb = self.it.deref(s)
        return {f: rd(so, sb + fo(ST, f)[0]) for f in FIELDS}

    def live(self, d):
        return sum(b[1] for b in self.blocks.values() if not b[3] and b[2] == d)

    def call(self, name, *a):
        if name not in OPS:
            r = super().call(name, *a)
            if name == "laik_calc_actions":
                self.asd[ptr_of(r)] = a[0]
                self.prep = getattr(self, "prep", 0) + 1
            return r
        d = self.asd[ptr_of(a[0])] if name == "laik_exec_actions" else a[0]
        s0, m0 = self.stat(d), dict(self.it.moved)
        r = super().call(name, *a)
        s1 = self.stat(d)
        D = {f: s1[f] - s0[f] for f in FIELDS}
        G = lambda k: self.it.moved.get(k, 0) - m0.get(k, 0)

        def same(what, got, want):
            if got != want:
                raise Cut("process %d: statistics report %s %s, done were %s (%s)" % (self.rank, got, what, want, name))
        same("switches", D["switches"], 1)
        if not D["switches_noactions"] in (0, 1):
            same("switches without actions", D["switches_noactions"], "0 or 1")
        if D["switches_noactions"]:
            for k in ("Send", "Recv", "ASend", "ARecv", "Red"):
                same("switch without actions", 1, "messages" if G(k) else 1)
        if D["msgReduceCount"] == G("Red"):
            same("elements combined locally", D["reduceOpCount"], G("OpElem"))
            same("elements initialised for combining", D["initOpCount"], G("InitElem") - D["initedBytes"] // self.es)
        # a reduction among some processes may be done by messages between them
        if self.be != "tcp2" and D["msgReduceCount"] == G("Red"):
            same("asynchronous sends", D["msgAsyncSendCount"], G("ASend"))
            same("asynchronous receives", D["msgAsyncRecvCount"], G("ARecv"))
            # receiving may be started for several: the count includes both kinds
            same("messages sent", D["msgSendCount"] + D["msgAsyncSendCount"], G("Send") + G("ASend"))
            same("messages received", D["msgRecvCount"] + D["msgAsyncRecvCount"], G("Recv") + G("ARecv"))
            for w, k in (("Send", "sent"), ("Recv", "received")):
                n = G(w + "Elem") + G("A" + w + "Elem")
                same("elements " + k, D["elem%sCount" % w], n)
                same("bytes " + k, D["byte%sCount" % w], n * self.es)
            same("elements reduced", D["elemReduceCount"], G("RedElem"))
            same("bytes reduced", D["byteReduceCount"], G("RedElem") * self.es)
        elif self.be != "tcp2":
            if D["msgReduceCount"] < G("Red"):
                same("reductions", D["msgReduceCount"], G("Red"))
            if not 0 < D["elemReduceCount"] * self.es == D["byteReduceCount"]:
                same("bytes reduced", D["byteReduceCount"], D["elemReduceCount"] * self.es)
        # memory
        live = self.live(d)
        if not getattr(self, "prep", 0):
            same("bytes in use", s1["currAllocedBytes"], live)
        elif s1["currAllocedBytes"] < live:
            same("bytes in use", s1["currAllocedBytes"], "at least %d" % live)
        same("bytes in use", s1["currAllocedBytes"], s1["mallocedBytes"] - s1["freedBytes"])
        if s1["maxAllocedBytes"] < max(s1["currAllocedBytes"], s0["maxAllocedBytes"]):
            same("bytes at most in use", s1["maxAllocedBytes"], "at least %d" % max(s1["currAllocedBytes"], s0["maxAllocedBytes"]))
        if s1["maxAllocedBytes"] > s1["mallocedBytes"]:
            same("bytes at most in use", s1["maxAllocedBytes"], "at most %d" % s1["mallocedBytes"])
        return r


def simulate(it0, n, be, ty, env, proc):
    if be == "tcp2":
        var = C16.VSHORT[it0.choose(2)]
    else:
        pol = ("low", 0) if n == 1 or it0.choose(2) == 0 else ("rr", 0)
    mk = NInterp if be == "tcp2" else MInterp
    its = [counting(mk(it0.choose)) for _ in range(n)]
    for it in its:
        it.covered = it0.covered
    if be == "tcp2":
        Sim(its, proc, Net(*var[1:]), var[0]).run()
    else:
        MSim(its, proc, pol).run()


def app(it, rank, n, be, ty, env):
    A = type("A", (SApp,), {"ENV": env or {}})(it, rank, n, be, ty, env)
    it.app = A
    it.count_ops(it)
    return A


def f_prog(n, ext, prog, be, ty="laik_Double", env=None):
    def body(it0):
        def proc(it, rank):
            A = app(it, rank, n, be, ty, env)
            run_prog(A, A.call("laik_myid", A.world), n, ext, prog)
            A.call("laik_finalize", A.inst)
        simulate(it0, n, be, ty, env, proc)
    return body


def f_freed(n, ext, a, b, be, ty="laik_Double"):
    """a container no longer used has given back all its memory, and copies and initialisations are those done"""
    def body(it0):
        def proc(it, rank):
            A = app(it, rank, n, be, ty, None)
            me = A.call("laik_myid", A.world)
            sp = A.space(ext)
            d = A.container(sp)
            pa, pb = A.part(A.world, sp, a), A.part(A.world, sp, b)
            over = sum(len(points(r)) for rs in a for r in rs) > len({x for rs in a for r in rs for x in points(r)})
            own = lambda rs: {x for r in rs[me] for x in points(r)}
            A.switch(d, pa, "None", "None")
            A.write(A.cells(d, a[me]), "w")
            c0, s0 = A.cells(d, a[me]), A.stat(d)
            A.switch(d, pb, "Preserve", "Max" if over else "None")
            c1, s1 = A.cells(d, b[me]), A.stat(d)
            want = sum(A.es for x in own(a) & own(b) if c0[x] != c1[x])
            got = s1["copiedBytes"] - s0["copiedBytes"]
            if got != want and not over:
                raise Cut("process %d: statistics report %d copied bytes, done were %d" % (me, got, want))
            if s1["initedBytes"] != s0["initedBytes"]:
                raise Cut("process %d: statistics report initialised bytes although nothing was" % me)
            if len(ext) == 1:
                A.switch(d, pa, "Init", "Sum")
                s2 = A.stat(d)
                if s2["initedBytes"] - s1["initedBytes"] != A.es * len(own(a)):
                    raise Cut("process %d: statistics report %d initialised bytes of %d" % (me, s2["initedBytes"] - s1["initedBytes"], A.es * len(own(a))))
                if s2["copiedBytes"] != s1["copiedBytes"]:
                    raise Cut("process %d: statistics report copied bytes although nothing was" % me)
            A.switch(d, NULL, "None", "None")
            s3 = A.stat(d)
            if A.live(d) or s3["currAllocedBytes"] or s3["mallocCount"] != s3["freeCount"] or s3["mallocedBytes"] != s3["freedBytes"]:
                raise Cut("process %d: %d bytes of the container remain without partitioning (statistics: %d of %d bytes freed)" % (me, A.live(d), s3["freedBytes"], s3["mallocedBytes"]))
            A.call("laik_finalize", A.inst)
        simulate(it0, n, be, ty, None, proc)
    return body


def f_allocators(n, ext, parts, be, ty, every):
    """allocators are changed between switches, up to three containers use them"""
    def body(it0):
        def proc(it, rank):
            A = app(it, rank, n, be, ty, None)
            me = A.call("laik_myid", A.world)
            sp = A.space(ext)
            ds = [A.container(sp) for _ in range(2)]
            al = [A.own_alloc, A.allocator(1), A.allocator(2)]
            pt = [A.part(A.world, sp, p) for p in parts]
            for k, p in enumerate(pt):
                for j, d in enumerate(ds):
                    if (k + j) % every == 0:
                        nr = (k + 2 * j) % 3
                        A.call("laik_set_allocator", d, al[nr])
                    old = set(A.blocks)
                    A.switch(d, p, "Preserve" if k else "None", "None")
                    cs = A.cells(d, parts[k][me])
                    if k == 0:
                        A.write(cs, "w%d" % j)
                    use = A.call("laik_get_allocator", d)
                    for b in set(A.blocks) - old:
                        if al[A.blocks[b][4]] != use or A.blocks[b][2] != d:
                            raise Cut("process %d: memory is requested from another allocator than that of the container" % me)
                    for x, c in cs.items():
                        if id(c[1]) not in A.blocks or A.blocks[id(c[1])][2] != d:
                            raise Cut("process %d: index %s is not in memory of the allocator" % (me, x))
            for d in ds:
                A.switch(d, NULL, "None", "None")
                if A.live(d):
                    raise Cut("process %d: %d bytes were not returned to the allocators" % (me, A.live(d)))
            A.call("laik_finalize", A.inst)
        simulate(it0, n, be, ty, None, proc)
    return body


def f_final(k, shown):
    """summary at the end: every container and, with several, their sum"""
    def body(it0):
        def proc(it, rank):
            A = app(it, rank, 1, "single", "laik_Double", None)
            sp = A.space((5,))
            ds = [A.container(sp) for _ in range(k)]
            p = A.part(A.world, sp, full(1, 5))
            for j, d in enumerate(ds):
                A.call("laik_data_set_name", d, A.text("cont%d" % j))
                for _ in range(j + 1):
                    A.switch(d, p, "Init", "Sum")
                    A.switch(d, NULL, "None", "None")
            it.logged = []
            it.handlers["laik_log_begin"] = lambda i, a: int(shown)
            it.handlers["laik_log_append"] = h_capture
            it.handlers["laik_log_flush"] = lambda i, a: h_capture(i, a) if is_ptr(a[0]) and a[0][1] is not None else None
            it.handlers["laik_log_PrettyInt"] = lambda i, a: i.logged.append("%d " % a[0])
            A.call("laik_finalize", A.inst)
            txt = "".join(it.logged)
            if not shown:
                if txt:
                    raise Cut("text is logged although not selected")
                return
            want = [(2 * (j + 1), j + 1) for j in range(k)]
            if k > 1:
                want.append((sum(w[0] for w in want), sum(w[1] for w in want)))
            got = [(int(a), int(b)) for a, b in re.findall(r"(\d+) switches.*\n.*?alloc: (\d+)x", txt)]
            if got != want:
                raise Cut("(switches, allocations) reported at the end are %r instead of %r" % (got, want))
            names = [x for x in re.findall(r"cont\d+", txt)]
            if names != ["cont%d" % j for j in range(k)]:
                raise Cut("statistics are reported for %r" % (names,))
        simulate(it0, 1, "single", "laik_Double", None, proc)
    return body


def f_sum(f):
    """laik_addSwitchStat: every value is added to the right one"""
    def body(it0):
        it = NInterp(it0.choose)
        it.covered = it0.covered
        a = it.call(M.fn("laik_newSwitchStat").name, [])
        b = it.call(M.fn("laik_newSwitchStat").name, [])
        (ao, ab), (bo, bb) = it.deref(a), it.deref(b)
        big = it.choose(2)
        want = {}
        for k, g in enumerate(FIELDS):
            off, sz = fo(ST, g)[:2]
            if rd(ao, ab + off) != 0:
                raise Cut("%s of new statistics is not 0" % g)
            x, y = 3 + 2 * k, 100 + 7 * k
            if big and sz == 8:
                x += 1 << 40
                y += 3 << 40
            it.storem(("p", ao, ab + off), sz, x)
            it.storem(("p", bo, bb + off), sz, y)
            want[g] = x + y
        it.call(M.fn("laik_addSwitchStat").name, [a, b])
        for g in SUMMED if f is None else [f]:
            v = rd(ao, ab + fo(ST, g)[0])
            if v != want[g]:
                raise Cut("sum of %s is %r instead of %r" % (g, v, want[g]))
    return body


ASEQ = [f for f in FIELDS if f[:3] in ("msg", "ele", "byt") or f in ("transitionCount", "initOpCount", "reduceOpCount")]


def f_aseq(f):
    """laik_switchstat_addASeq: counts of an executed sequence are added to those of the container"""
    def body(it0):
        it = NInterp(it0.choose)
        it.covered = it0.covered
        a = it.call(M.fn("laik_newSwitchStat").name, [])
        ao, ab = it.deref(a)
        s = Obj("sequence", lazy=lambda i, o, off, sz: 0)
        for k, g in enumerate(ASEQ):
            off, sz = fo(ST, g)[:2]
            it.storem(("p", ao, ab + off), sz, 5 + 3 * k)
            off, sz = fo("_Laik_ActionSeq", g)[:2]
            it.storem(("p", s, off), sz, 1000 + 11 * k)
        it.call(M.fn("laik_switchstat_addASeq").name, [a, P(s)])
        for g in FIELDS:
            v = rd(ao, ab + fo(ST, g)[0])
            w = 1005 + 14 * ASEQ.index(g) if g in ASEQ else 0
            if f == g and v != w:
                raise Cut("%s after a sequence is %r instead of %r" % (g, v, w))
    return body


def h_capture(it, a):
    out = it.__dict__.setdefault("logged", [])
    f, k, i, s = it.str(a[0]), 1, 0, ""
    while i < len(f):
        c = f[i]
        i += 1
        if c != "%":
            s += c
            continue
        while i < len(f) and f[i] in "-+ #0123456789.lhzjt":
            i += 1
        cv = f[i]
        i += 1
        if cv == "%":
            s += "%"
            continue
        v = a[k]
        k += 1
        s += it.str(v) if cv == "s" else str(v)
    out.append(s)


def f_log(kind):
    """laik_log_SwitchStat: each number is given with its name"""
    def body(it0):
        it = NInterp(it0.choose)
        it.covered = it0.covered
        it.handlers["laik_log_append"] = h_capture
        it.handlers["laik_log_PrettyInt"] = lambda i, a: i.__dict__.setdefault("logged", []).append("%d " % a[0])
        a = it.call(M.fn("laik_newSwitchStat").name, [])
        ao, ab = it.deref(a)
        v = {g: 0 for g in FIELDS}

        def st(**kw):
            v.update(kw)
        st(switches=11, switches_noactions=3, transitionCount=9)
        if kind in ("memory", "all"):
            st(mallocCount=5, mallocedBytes=1010, maxAllocedBytes=808, freeCount=4, freedBytes=707, initedBytes=606, copiedBytes=505, currAllocedBytes=303)
        if kind in ("messages", "all"):
            st(msgSendCount=20, elemSendCount=220, byteSendCount=23 * 77, msgAsyncSendCount=3, msgRecvCount=30, elemRecvCount=330, byteRecvCount=34 * 88, msgAsyncRecvCount=4)
        if kind in ("reductions", "all"):
            st(msgReduceCount=7, elemReduceCount=440, byteReduceCount=7 * 99, initOpCount=55, reduceOpCount=66, byteBufCopyCount=444)
        if kind == "receive only":
            st(msgRecvCount=30, elemRecvCount=330, byteRecvCount=30 * 88)
        if kind == "asynchronous only":
            st(msgAsyncSendCount=3, elemSendCount=220, byteSendCount=3 * 77, msgAsyncRecvCount=4, elemRecvCount=330, byteRecvCount=4 * 88)
        if kind == "no actions":
            st(switches_noactions=11)
        for g, x in v.items():
            off, sz = fo(ST, g)[:2]
            it.storem(("p", ao, ab + off), sz, x)
        it.call(M.fn("laik_log_SwitchStat").name, [a])
        txt = "".join(getattr(it, "logged", []))
        lines = {}
        for ln in txt.split("\n"):
            for key in ("switches", "alloc", "sent", "recv", "ops", "reduce:"):
                if key in ln:
                    lines.setdefault(key, ln)
                    break
        nums = lambda k: [int(x) for x in re.findall(r"\d+", lines.get(k, ""))]

        def want(key, ns):
            if nums(key) != ns:
                raise Cut("the summary of statistics gives %r for '%s' instead of %r" % (nums(key), key, ns))
        want("switches", [v["switches"], v["switches_noactions"], v["transitionCount"]])
        no = kind == "no actions"
        want("alloc", [v[k] for k in ("mallocCount", "mallocedBytes", "maxAllocedBytes", "freeCount", "freedBytes", "initedBytes", "copiedBytes")] if v["mallocCount"] and not no else [])
        for key, W in (("sent", "Send"), ("recv", "Recv")):
            m = v["msg%sCount" % W] + v["msgAsync%sCount" % W]
            want(key, ([m] + ([v["msgAsync%sCount" % W]] if v["msgAsync%sCount" % W] else []) + [v["elem%sCount" % W], v["byte%sCount" % W], v["byte%sCount" % W] // m]) if m and not no else [])
        m = v["msgReduceCount"]
        want("reduce:", [m, v["elemReduceCount"], v["byteReduceCount"], v["byteReduceCount"] // m] if m else [])
        want("ops", [v["initOpCount"], v["reduceOpCount"], v["byteBufCopyCount"]] if v["initOpCount"] or v["reduceOpCount"] else [])
    return body


ANCHOR = {}
TYPES = ["laik_Double", "laik_Int32", "laik_UChar"]


def families(thorough):
    out = []

    def F(rule, name, f, be=None):
        ANCHOR[rule] = {"mpi": "laik_mpi_prepare", "tcp": "laik_tcp_prepare", "tcp2": "tcp2_exec", "single": "laik_single_exec", None: "laik_log_SwitchStat"}[be]
        out.append((rule, name, f))
    for n, m in ((1, 3), (2, 5), (3, 7)):
        sw = lambda *ps: [x for p in ps for x in (("switch", "d", p[0]) + p[1], ("write", "d"))]
        pp = [("data", "d"), ("part", "a", blk(n, m)), ("part", "b", blk(n, m, 1)), ("part", "f", full(n, m)), ("part", "o", one(n, n - 1, m)), ("part", "h", halo(n, m))]
        red = sw(("f", N), ("f", Sum), ("o", Max), ("f", Init), ("o", Sum), ("f", Pr), ("f", Max))
        for k, (be, env) in enumerate((("mpi", {}), ("mpi", {"LAIK_MPI_ASYNC": "0"}), ("mpi", {"LAIK_MPI_REDUCE": "0"}), ("tcp", {}), ("tcp", {"LAIK_TCP_REDUCE": "0"}), ("single", {}))):
            if (be == "single") != (n == 1):
                continue
            F("reductions counted (%s)" % be, "all to one, all to all, %d%s" % (n, " ".join([""] + [a + "=" + b for a, b in env.items()])), f_prog(n, (m,), pp + red, be, TYPES[k % 3], env), be)
        t = "two containers"
        for be in ("mpi", "tcp") if n > 1 else ("single",):
            F("memory in use (%s)" % be, "switches between partitionings, %d" % n, f_prog(n, (m,), [("data", "e")] + pp + sw(("h", N), ("a", Sum), ("h", Pr)) + [("switch", "e", "f") + Init, ("write", "e"), ("switch", "e", "a") + Sum, ("switch", "d", None) + N, ("switch", "e", None) + N], be), be)
    k = 0
    for rule, name, n, ext, prog in C17.programs():
        bes = [("single", {})] if n == 1 else [("mpi", {}), ("mpi", {"LAIK_MPI_ASYNC": "0"}), ("mpi", {"LAIK_MPI_REDUCE": "0"}), ("tcp", {})] + ([("tcp2", {})] if thorough or k % 5 == 0 else [])
        for j, (be, env) in enumerate(bes):
            F("%s (%s)" % (rule, be), name + " ".join([""] + [a + "=" + b for a, b in env.items()]), f_prog(n, ext, prog, be, TYPES[(k + j) % 3], env), be)
        k += 1
    for n, m in ((1, 4), (2, 5), (3, 7)):
        ps = {"blocks": blk(n, m), "shifted": blk(n, m, 1), "all": full(n, m), "halo": halo(n, m), "last": one(n, n - 1, m)}
        for x in ps:
            for y in ps:
                if thorough or (len(x) + len(y)) % 2 == 0 or n == 2:
                    be = "single" if n == 1 else "mpi" if len(x + y) % 3 else "tcp"
                    F("released (%s)" % be, "%s to %s, %d" % (x, y, n), f_freed(n, (m,), ps[x], ps[y], be, TYPES[len(x + y) % 3]), be)
    for x, y in ((0, 1), (1, 0), (0, 0)):
        F("released (mpi)", "rows %d to %d" % (x, y), f_freed(2, (3, 4), rows(2, (3, 4), x), rows(2, (3, 4), y), "mpi"), "mpi")
        for be in ("mpi", "tcp") if n > 1 else ("single",):
            for e in (1, 2, 3):
                F("allocators (%s)" % be, "changed every %d, %d" % (e, n), f_allocators(n, (m,), [ps["blocks"], ps["shifted"], ps["all"] if e == 2 else ps["last"], ps["last"] if n == 1 or e < 3 else ps["blocks"], ps["blocks"]][:3 if e == 2 else 5], be, TYPES[e % 3], e), be)
    for k in (1, 2, 3):
        F("summary", "%d containers at the end" % k, f_final(k, True))
        F("summary", "%d containers, not selected" % k, f_final(k, False))
    for g in FIELDS:
        F("sum of executed sequences", g, f_aseq(g))
        ANCHOR["sum of executed sequences"] = "laik_switchstat_addASeq"
    for g in SUMMED:
        F("sum over containers", g, f_sum(g))
        ANCHOR["sum over containers"] = "laik_addSwitchStat"
    for kind in ("memory", "messages", "reductions", "all", "receive only", "asynchronous only", "no actions"):
        F("summary", kind, f_log(kind))
    if thorough:
        for seed in range(150):
            n, ext, prog = C17.rand_prog(seed + 1000)
            be = ("mpi", "tcp")[seed % 2]
            F("mixed (%s)" % be, "sequence %d" % seed, f_prog(n, ext, prog, be, TYPES[seed % 3], C17.ENVS[seed % 2] if be == "mpi" else {}), be)
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, NInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    C12.M = C16.M = C17.M = M
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
