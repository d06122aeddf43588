"""C20: measured times, phases and failures are reported as they were.

Programs which enable, reset and write out profiles while switching containers,
executing prepared sequences and synchronising key-value stores are interpreted
(machinery of C17, on the model of MPI or the mini-MPI) with a clock that advances in
the message layer, in partitioners and between the calls of the program.  Oracle:
total and backend time are the sums of what the clock advanced within the calls resp.
within the message layer since profiling was enabled or reset for this instance.
Program state (phase, iteration, arguments) and external agents are checked on the
same interpreter: what was set is reported, agents of any number up to the limit are
asked and informed, their failures are all reported, libraries are closed once."""
import random
from .. import model, netsim
from ..absint import Abort, Cut, Obj, NULL, UNDEF, UNINIT
from ..clib import CH, CInterp, CLib, fl
from ..model import P, fo, rd, setf
from ..netsim import MInterp, MSim
from . import C12, C16, C17
from .C16 import blk, full, halo, one, cyc
from .C17 import MApp, N, Pr, Sum, Max, Init

M = None
THOROUGH = False
REAL = ("laik_close_profiling_file", "laik_free_profiling", "laik_wtime", "laik_realtime", "laik_init_profiling", "laik_profile_printf")


class PInterp(CLib, MInterp):
    REAL = REAL

    def __init__(self, choose):
        super().__init__(choose)
        self.t = 1000.0
        self.ticks = 0.0
        self.clock = lambda: self.t
        for n, h in list(self.handlers.items()):
            if n.startswith(("MPI_", "laik_tcp_minimpi_")) and n.split("_")[-1] in ("Send", "Recv", "Isend", "Irecv", "Wait", "Reduce", "Allreduce", "send", "recv", "reduce", "allreduce", "Bcast", "bcast", "Allgather"):
                self.handlers[n] = self.timed(h, 0.125)
        # the entries exchanged are the subject of C11
        self.handlers["laik_mpi_sync"] = self.handlers["laik_tcp_sync"] = self.timed(lambda i, a: None, 0.25)

    def timed(self, h, dt):
        def f(it, a):
            it.t += dt
            it.ticks += dt
            r = h(it, a)
            it.t += dt
            it.ticks += dt
            return r
        return f


def number(it, v):
    x = fl(v)
    if x is None:
        raise Cut("a time was never set" if v == UNINIT else "unknown time %r" % (v,))
    return x


class Prof:
    """expected times of the instance profiled"""

    def __init__(self, A):
        self.A, self.it = A, A.it
        self.total = self.backend = 0.0
        self.on = False
        self.user = None

    def reset(self):
        self.total = self.backend = 0.0

    def during(self, f):
        t, b = self.it.t, self.it.ticks
        f()
        if self.on:
            self.total += self.it.t - t
            self.backend += self.it.ticks - b

    def verify(self, what):
        for n, x in (("total", self.total), ("backend", self.backend)):
            v = number(self.it, self.A.call("laik_get_%s_time" % n))
            if abs(v - x) > 1e-9:
                raise Cut("%s: %s time %g instead of %g" % (what, n, v, x))


def f_times(seed, n, be, rounds):
    def body(it0):
        its = [PInterp(it0.choose) for _ in range(n)]
        for it in its:
            it.covered = it0.covered

        def proc(it, rank):
            A = type("A", (MApp,), {"ENV": {}})(it, rank, n, be, "laik_Double", {})
            it.app = A
            me = A.call("laik_myid", A.world)
            h = it.handlers["model_part"]

            def parts(i, a):
                i.t += 16.0
                return h(i, a)
            it.handlers["model_part"] = parts
            sp = A.space((5,))
            ps = [A.part(A.world, sp, blk(n, 5)), A.part(A.world, sp, halo(n, 5)), A.part(A.world, sp, full(n, 5)), A.part(A.world, sp, one(n, 0, 5))]
            rs = [blk(n, 5), halo(n, 5), full(n, 5), one(n, 0, 5)]
            d = A.container(sp)
            E = M.enum_const
            R = random.Random(seed)
            p = Prof(A)
            cur = None
            kvs = A.call("laik_kvs_new", A.text("store"), A.inst)
            p.verify("before profiling")
            for k in range(rounds):
                it.t += 32.0
                o = R.choice(["switch", "switch", "switch", "flow", "exec", "run", "sync", "enable", "reset", "user", "new", "file", "write", "disable"])
                # every process draws the same, but measures at times of its own
                own = (k + me) % 3
                if o == "enable":
                    if own and not p.on:
                        A.call("laik_enable_profiling", A.inst)
                        p.on = True
                        p.reset()
                elif o == "disable":
                    if own == 2:
                        A.call("laik_enable_profiling", NULL)
                        p.on = False
                        p.gone = True
                        p.reset()
                elif o == "reset":
                    A.call("laik_reset_profiling", A.inst)
                    if p.on:
                        p.reset()
                elif o == "user":
                    A.call("laik_profile_user_start", A.inst)
                    it.t += 4.0 * own
                    A.call("laik_profile_user_stop", A.inst)
                elif o == "new":
                    i = R.randrange(3)
                    rs.append(cyc(n, 5, 1 + i % 2))
                    ps.append(A.part(A.world, sp, rs[-1]))
                elif o == "file":
                    if not p.on:
                        A.call("laik_enable_profiling_file", A.inst, A.text("times%d.txt" % k))
                        p.on = True
                        p.reset()
                        p.file = it.files.get("times%d.txt" % k)
                        if p.file is None or not p.file.out:
                            raise Cut("no head written to the file of profiles")
                        p.at = len(p.file.out)
                elif o == "write":
                    profile_line(A, p)
                elif o == "sync":
                    A.call("laik_kvs_sets", kvs, A.text("k%d" % (k % 3)), A.text("v%d" % k))
                    p.during(lambda: A.call("laik_kvs_sync", kvs))
                elif o == "switch" or cur is None:
                    q = R.randrange(len(ps))
                    fl_ = N if cur is None else R.choice([N, Pr, Pr, Pr, Init])
                    if cur in (1, 2) and fl_ == Pr:
                        fl_ = Sum if q in (2, 3) else N
                    p.during(lambda: A.switch(d, ps[q], *fl_))
                    cur = q
                elif o == "flow":
                    p.during(lambda: A.call("laik_switchto_flow", d, E("LAIK_DF_None"), E("LAIK_RO_None")))
                else:
                    q = R.randrange(len(ps))
                    t = A.call("laik_calc_transition", sp, ps[cur], ps[q], E("LAIK_DF_Preserve" if cur not in (1, 2) else "LAIK_DF_None"), E("LAIK_RO_None"))
                    if o == "exec":
                        p.during(lambda: A.call("laik_exec_transition", d, t))
                    else:
                        s = A.call("laik_calc_actions", d, t, NULL, NULL)
                        p.during(lambda: A.call("laik_exec_actions", s))
                    cur = q
                p.verify("after step %d (%s)" % (k, o))
            if getattr(p, "file", None) and p.on and p.file.open:
                A.call("laik_close_profiling_file", A.inst)
                if p.file.open:
                    raise Cut("the file of profiles stays open")
                A.call("laik_profile_printf", A.text("after the end\n"))
                A.call("laik_writeout_profile")
            A.call("laik_finalize", A.inst)
        MSim(its, proc).run()
    return body


def profile_line(A, p):
    it = A.it
    A.call("laik_set_phase", A.inst, 7, A.text("compute"), NULL)
    A.call("laik_set_iteration", A.inst, 12)
    f = getattr(p, "file", None)
    A.call("laik_writeout_profile")
    A.call("laik_profile_printf", A.text("note %d\n"), 5)
    if not f or not p.on:
        return
    out, p.at = f.out[p.at:], len(f.out)
    ls = out.split("\n")
    w = [x.strip() for x in ls[0].split(",")]
    if len(ls) < 2 or len(w) != 6:
        raise Cut("record '%s' in the file of profiles" % out)
    if w[1:3] != ["7", "12"] or abs(float(w[3]) - p.total) > 1e-5 or abs(float(w[4]) - p.backend) > 1e-5:
        raise Cut("record '%s' for phase 7, iteration 12, total time %f, backend time %f" % (ls[0], p.total, p.backend))
    if ls[1:] != ["note 5", ""]:
        raise Cut("text '%s' instead of 'note 5'" % ls[1:])


# ---- program state, profiles without container, agents ------------------------------

def instance(it):
    o = Obj("instance")
    prof = it.run(M.fn("laik_init_profiling"), [])
    ctrl = it.run(M.fn("laik_program_control_init"), [])
    setf(o, "_Laik_Instance", profiling=prof, control=ctrl, repart_ctrl=NULL, guid=NULL)
    g = it.new_text("host:1")
    off, size = fo("_Laik_Instance", "guid")
    if size > 8:
        del o.cells[off]
        it.put(("p", o, off), [ord(c) for c in "host:1"] + [0])
    else:
        o.cells[off] = (8, g)
    return P(o)


def f_user(it):
    it.t = 500.0
    it.clock = lambda: it.t
    call = lambda f, *a: it.call(f, list(a))
    i = instance(it)
    j = instance(it)

    def user(x):
        it.files.clear()
        call("laik_enable_profiling", NULL)
        return number(it, rd_prof(it, x, "time_user"))
    call("laik_profile_user_start", i)
    it.t += 5
    call("laik_profile_user_stop", i)
    if number(it, rd_prof(it, i, "time_user")) != 0:
        raise Cut("user time measured without profiling")
    for dt in (0.5, 3.25):
        call("laik_enable_profiling", NULL)
        call("laik_enable_profiling", i)
        it.t += 7
        call("laik_profile_user_start", j)
        call("laik_profile_user_start", i)
        it.t += dt
        call("laik_profile_user_stop", j)
        call("laik_profile_user_stop", i)
        it.t += 9
        call("laik_profile_user_stop", i)
        if number(it, rd_prof(it, i, "time_user")) != dt:
            raise Cut("user time %r instead of %g" % (rd_prof(it, i, "time_user"), dt))
        if number(it, rd_prof(it, j, "time_user")) != 0:
            raise Cut("user time measured for another instance")
        call("laik_reset_profiling", j)
        if number(it, rd_prof(it, i, "time_user")) != dt:
            raise Cut("times reset for another instance")
        call("laik_reset_profiling", i)
        if number(it, rd_prof(it, i, "time_user")) != 0:
            raise Cut("user time not reset")
    # profiling goes to the other instance
    call("laik_enable_profiling", j)
    call("laik_profile_user_start", i)
    it.t += 1
    call("laik_profile_user_stop", i)
    if number(it, rd_prof(it, i, "time_user")) != 0:
        raise Cut("user time measured for an instance that is not profiled")
    it.unopenable = ("no.txt",)
    call("laik_enable_profiling", NULL)
    call("laik_profile_printf", it.new_text("nothing"))
    call("laik_writeout_profile")
    call("laik_enable_profiling_file", i, it.new_text("no.txt"))
    call("laik_writeout_profile")
    call("laik_profile_printf", it.new_text("nothing"))
    call("laik_close_profiling_file", i)


def rd_prof(it, inst, f):
    p = it.loadm(("p", inst[1], fo("_Laik_Instance", "profiling")[0]), 8, "ptr")
    return it.loadm(("p", p[1], fo("_Laik_Profiling_Controller", f)[0]), 8, "double")


def f_state(it):
    it.clock = lambda: 1.0
    call = lambda f, *a: it.call(f, list(a))
    i, j = instance(it), instance(it)
    data = Obj("data")
    for k, (ph, n, itn) in enumerate(((3, "init", 5), (0, "x", 0), (-1, "other", 2 ** 31 - 1))):
        name = it.new_text(n)
        call("laik_set_phase", i, ph, name, P(data) if k else NULL)
        call("laik_set_iteration", i, itn)
        call("laik_set_iteration", j, 77)
        if call("laik_get_iteration", i) != itn:
            raise Cut("iteration %r instead of %d" % (call("laik_get_iteration", i), itn))
        a, b, c = Obj("phase", 4), Obj("name", 8), Obj("data", 8)
        call("laik_get_phase", i, P(a), P(b), P(c))
        if it.loadm(P(a), 4, "i32") != ph or it.str(it.loadm(P(b), 8, "ptr")) != n or it.loadm(P(c), 8, "ptr") != (P(data) if k else NULL):
            raise Cut("phase %d '%s' is not reported" % (ph, n))
    call("laik_iter_reset", i)
    if call("laik_get_iteration", i) != 0 or call("laik_get_iteration", j) != 77:
        raise Cut("iteration not reset, or for another instance")


def f_agents(kinds, fails, maxf):
    """kinds: for each agent 'f' (fault tolerance), 'd' (default), upper case: from a library, 's': without setiter"""
    def body(it):
        call = lambda f, *a: it.call(f, list(a))
        i = instance(it)
        libs, iters, asked = [], {}, []
        T = "tag_laik_ext_ft_agent"

        def mk(k):
            def init(it_, a):
                if a[0] != k or (k and it.str(it.loadm(a[1], 8, "ptr")) != "arg%d" % k):
                    raise Cut("agent %d is not given its arguments" % k)
                o = Obj("agent%d" % k)
                b = fo(T, "base")[0]
                ft = kinds[k].lower() in "fs"
                setf(o, "tag_laik_ext_agent", _base=b, id=k, name=NULL, isAlive=1, isInitialized=1, type=1 if ft else 0, detach=NULL, reset=NULL, data=NULL)
                if ft:
                    setf(o, T, getfail=("p", ("@", "ag_get%d" % k), 0), peekfail=("p", ("@", "ag_peek%d" % k), 0),
                         setiter=NULL if kinds[k].lower() == "s" else ("p", ("@", "ag_iter%d" % k), 0))
                return P(o)

            def get(it_, a):
                for x in range(fails[k]):
                    o, off = it.deref(a[1])
                    it.put(("p", o, off + 64 * x), [ord(c) for c in "node%d.%d" % (k, x)] + [0])
                it.storem(a[0], 4, fails[k])

            def peek(it_, a):
                asked.append(k)
                return fails[k]

            def setit(it_, a):
                iters.setdefault(k, []).append(a[0])
            it.handlers.update({"ag_init%d" % k: init, "ag_get%d" % k: get, "ag_peek%d" % k: peek, "ag_iter%d" % k: setit})

        def dlopen(it_, a):
            o = Obj("library")
            o.k, o.closed = int(it.str(a[0])[3:]), 0
            libs.append(o)
            return P(o)

        def dlsym(it_, a):
            if it.str(a[1]) != "agent_init":
                return NULL
            return ("p", ("@", "ag_init%d" % a[0][1].k), 0)

        def dlclose(it_, a):
            o, _ = it.deref(a[0])
            o.closed += 1
            if o.closed > 1:
                raise Cut("a library is closed twice")
            return 0
        it.handlers.update({"dlopen": dlopen, "dlsym": dlsym, "dlclose": dlclose, "dlerror": lambda i_, a: NULL})
        for k, c in enumerate(kinds):
            mk(k)
            argv = Obj("argv")
            for x in range(k):
                argv.cells[8 * x] = (8, it.new_text("arg%d" % k))
            if c.isupper():
                call("laik_ext_load_agent_from_file", i, it.new_text("lib%d" % k), k, P(argv))
            else:
                call("laik_ext_load_agent_from_function", i, ("p", ("@", "ag_init%d" % k), 0), k, P(argv))
        for n in (4, 9):
            call("laik_set_iteration", i, n)
        ft = [k for k, c in enumerate(kinds) if c.lower() in "fs"]
        want = {k: [4, 9] for k in ft if kinds[k].lower() == "f"}
        if iters != want:
            raise Cut("agents are told of iterations %r instead of %r" % (iters, want))
        num, buf = Obj("num", 4, fresh=True), Obj("uids", 64 * maxf, fresh=True)
        call("laik_get_failed", i, P(num), P(buf), maxf)
        if sorted(asked) != ft:
            raise Cut("agents %r are asked for failures instead of %r" % (asked, ft))
        exp = sorted("node%d.%d" % (k, x) for k in ft for x in range(fails[k]))
        m = it.loadm(P(num), 4, "i32")
        if m != len(exp):
            raise Cut("%r failed nodes are reported instead of %d" % (m, len(exp)))
        got = sorted(it.str(("p", buf, 64 * x)) for x in range(m))
        if got != exp:
            raise Cut("failed nodes %r are reported instead of %r" % (got, exp))
        call("laik_ext_cleanup", i)
        for o in libs:
            if o.closed != 1:
                raise Cut("the library of agent %d is not closed" % o.k)
        call("laik_set_iteration", i, 10)
        if any(x[-1] == 10 for x in iters.values()):
            raise Cut("an agent is used after the clean-up")
    return body


ANCHOR = {}


def families(thorough):
    out = []

    def F(rule, name, body, anchor):
        ANCHOR[rule] = anchor
        out.append((rule, name, body))
    for s in range(120 if thorough else 36):
        n, be = (1, 2, 3)[s % 3], ("mpi", "tcp")[s // 3 % 2]
        F("times of switches and syncs", "sequence %d, %d processes, %s" % (s, n, be), f_times(s, n, be, 36 if thorough else 24), "laik_switchto_partitioning")
    F("user time and instances", "two instances", f_user, "laik_profile_user_stop")
    F("program state", "phases and iterations", f_state, "laik_get_phase")
    for kinds, fails in (("f", [2]), ("F", [1]), ("", []), ("dfF", [0, 2, 1]), ("FdsFf", [1, 0, 3, 0, 2]), ("ff", [0, 0]), ("ffffffffff", [1] * 10), ("FFFFFFFFFF", [0, 2] * 5), ("dDdDdDdDdD", [0] * 10)):
        if kinds:
            F("agents", "%s, failures %s" % (kinds, fails), f_agents(kinds, fails, max(1, sum(fails))), "laik_get_failed")
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, CInterp0)


class CInterp0(CInterp):
    REAL = REAL


def run(c):
    global M, THOROUGH
    M = model.load()
    C12.M = C16.M = C17.M = M
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
