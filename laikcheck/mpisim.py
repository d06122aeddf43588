"""Several processes of one program, each interpreted over the order domain,
connected by a model of the message passing interface (MPI and the mini-MPI of
the TCP backend): sends are synchronous, collectives synchronise, data of a
non-blocking receive is undefined from the start of the matching send until the
wait, buffers of non-blocking sends must not change until the data is received."""
import threading
from . import model
from .absint import Abort, Cut, Obj, UNDEF, NULL, Undecided, is_ptr, sym
from .model import P, add, mul


class Kill(BaseException):
    pass


class Proc(threading.Thread):
    def __init__(self, sim, rank, it, body):
        super().__init__(daemon=True)
        self.sim, self.rank, self.it, self.body = sim, rank, it, body
        self.go = threading.Semaphore(0)
        self.cond = None
        self.what = ""
        self.done = False
        self.err = None

    def run(self):
        self.go.acquire()
        try:
            if not self.sim.dead:
                self.body(self.it, self.rank)
        except Kill:
            pass
        except BaseException as e:
            self.err = e
        self.done = True
        self.sim.back.release()

    def block(self, cond, what):
        if cond():
            return
        self.cond, self.what = cond, what
        self.sim.back.release()
        self.go.acquire()
        self.cond = None
        if self.sim.dead:
            raise Kill()


class Sim:
    """mk(rank) -> interpreter (sharing one refinement)"""

    def __init__(self, its, body):
        self.back = threading.Semaphore(0)
        self.dead = False
        self.chan = {}
        self.coll = {}
        self.comms = {}
        self.procs = [Proc(self, r, it, body) for r, it in enumerate(its)]
        for p in self.procs:
            p.it.sim, p.it.proc = self, p
        self.log = []

    def run(self):
        for p in self.procs:
            p.start()
        err = None
        while True:
            run = [p for p in self.procs if not p.done and (p.cond is None or p.cond())]
            if not run:
                break
            run[0].go.release()
            self.back.acquire()
            if run[0].err is not None:
                err = run[0].err
                break
        left = [p for p in self.procs if not p.done]
        if err is None and left:
            err = Cut("processes wait for each other: " + "; ".join("process %d in %s" % (p.rank, p.what) for p in left))
        self.dead = True
        for p in left:
            if not p.done:
                p.go.release()
                self.back.acquire()
        for p in self.procs:
            p.join()
        if err is not None:
            raise err
        for k, (s, r) in self.chan.items():
            if len(s) != len(r):
                raise Cut("process %d sends %d message(s) to process %d which receives %d" % (k[0], len(s), k[1], len(r)))
            for m in s + r:
                if not m["done"]:
                    raise Cut("communication between process %d and %d is never completed" % k[:2])

    # ---- communicators: world ranks of their members ---------------------------
    def members(self, comm):
        if not is_ptr(comm) or not isinstance(comm[1], (str, tuple)) or comm[1] == "#null":
            raise Cut("communication with an invalid communicator %r" % (comm,))
        return self.comms.get(comm[1]) or list(range(len(self.procs)))

    def rank(self, comm, it):
        ms = self.members(comm)
        if it.proc.rank not in ms:
            raise Cut("process %d uses a communicator it is not part of" % it.proc.rank)
        return ms.index(it.proc.rank)

    # ---- point to point ------------------------------------------------------
    def post(self, kind, src, dst, tag, comm, m):
        if not (isinstance(src, int) and isinstance(dst, int)):
            raise Undecided("rank of a message")
        n = len(self.members(comm))
        if not (0 <= src < n and 0 <= dst < n):
            raise Cut("message to or from process %r that does not exist" % (dst if kind == 0 else src,))
        ch = self.chan.setdefault((src, dst, tag, comm), ([], []))
        m["k"], m["ch"], m["done"] = len(ch[kind]), ch, False
        ch[kind].append(m)
        # from now on data can be written to a buffer posted for receive
        o = self.peer(m, kind)
        if o is not None:
            r = m if kind else o
            if "buf" in r and not r["done"]:
                r["it"].put(r["buf"], r["n"], ("inflight",))

    @staticmethod
    def peer(m, kind):
        o = m["ch"][1 - kind]
        return o[m["k"]] if m["k"] < len(o) else None


# ---- elements in messages: taken when sent, put when received -----------------

def h_send(it, a, tcp=False):
    buf, n, ty, dst, tag, comm = a[:6]
    me = it.proc
    it.typed(ty)
    m = {"val": it.take(buf, n), "n": n, "ty": ty}
    it.sim.post(0, it.sim.rank(comm, it), dst, tag, comm, m)
    me.block(lambda: Sim.peer(m, 0) is not None, "send to process %d" % dst)
    m["done"] = True
    return 0


def deliver(it, m, buf):
    s = Sim.peer(m, 1)
    it.typed(m["ty"])
    if s["ty"] != m["ty"]:
        raise Cut("data type of a message differs at sender and receiver")
    if it.rel("gt", s["n"], m["n"]):
        raise Cut("message of %r elements does not fit into %r received ones" % (s["n"], m["n"]))
    if "buf" in s and not s["done"] and not s["it"].still(s["buf"], s["n"], s["val"]):
        raise Cut("process %d changes the buffer of a non-blocking send before its data is received" % s["it"].proc.rank)
    it.put(buf, s["n"], s["val"])
    m["got"] = s["n"]


def set_status(it, st, n):
    if is_ptr(st) and isinstance(st[1], Obj):
        st[1].status = n


def h_recv(it, a):
    buf, n, ty, src, tag, comm, st = a[:7]
    me = it.proc
    m = {"n": n, "ty": ty}
    it.sim.post(1, src, it.sim.rank(comm, it), tag, comm, m)
    me.block(lambda: Sim.peer(m, 1) is not None, "receive from process %d" % src)
    deliver(it, m, buf)
    m["done"] = True
    set_status(it, st, m["got"])
    return 0


def h_isend(it, a):
    buf, n, ty, dst, tag, comm, rq = a
    it.typed(ty)
    m = {"val": it.take(buf, n), "n": n, "ty": ty, "buf": buf, "kind": 0, "it": it}
    it.sim.post(0, it.sim.rank(comm, it), dst, tag, comm, m)
    it.storem(rq, 8, ("req", id(m), m))
    return 0


def h_irecv(it, a):
    buf, n, ty, src, tag, comm, rq = a
    m = {"n": n, "ty": ty, "buf": buf, "kind": 1, "it": it}
    it.sim.post(1, src, it.sim.rank(comm, it), tag, comm, m)
    it.storem(rq, 8, ("req", id(m), m))
    return 0


def h_wait(it, a):
    rq = it.loadm(a[0], 8, "ptr")
    if not (isinstance(rq, tuple) and rq[0] == "req"):
        raise Cut("wait for a request that was never started")
    m = rq[2]
    if m["done"]:
        raise Cut("wait for a completed request")
    it.proc.block(lambda: Sim.peer(m, m["kind"]) is not None, "wait")
    if m["kind"]:
        m["done"] = True
        deliver(it, m, m["buf"])
        set_status(it, a[1], m["got"])
    else:
        o = Sim.peer(m, 0)
        if not o["done"] and not it.still(m["buf"], m["n"], m["val"]):
            raise Cut("buffer of a non-blocking send is changed before the data is received")
    m["done"] = True
    it.storem(a[0], 8, ("req", 0, {"done": True}))
    return 0


def h_get_count(it, a):
    if not is_ptr(a[0]) or not hasattr(a[0][1], "status"):
        raise Cut("count of a status never set")
    it.storem(a[2], 4, a[0][1].status)
    return 0


def collective(it, comm, kind, args, fin):
    """fin(list of per-process argument tuples) -> result for all, computed once"""
    sim, me = it.sim, it.proc
    members = sim.members(comm)
    rank = sim.rank(comm, it)
    q = sim.coll.setdefault(comm, [])
    k = it.__dict__.setdefault("collpos", {}).get(comm, 0)
    it.collpos[comm] = k + 1
    while len(q) <= k:
        q.append({})
    c = q[k]
    if c and c["kind"] != kind:
        raise Cut("process %d calls %s where others call %s" % (me.rank, kind, c["kind"]))
    c["kind"] = kind
    c.setdefault("args", {})[rank] = args
    me.block(lambda: len(c["args"]) == len(members), kind)
    if "res" not in c:
        c["res"] = fin(c["args"])
    return c["res"]


def same_all(it, args, idx, what):
    first = args[min(args)]
    for r in args.values():
        for i in idx:
            a, b = r[i], first[i]
            ok = it.same(a, b) if isinstance(a, (int, model.Poly)) and isinstance(b, (int, model.Poly)) else a == b
            if not ok:
                raise Cut("%s with different arguments in different processes: %r and %r" % (what, a, b))


def inplace(p, out):
    return p == out and False or p == IN_PLACE or p == NULL


IN_PLACE = ("p", "#1", 0)


def h_allreduce(it, a):
    i, o, n, ty, op, comm = a
    v = it.take(o if inplace(i, o) else i, n)
    if i == o:
        raise Cut("same buffer given for input and result of a reduction")

    def fin(args):
        same_all(it, args, (1, 2, 3), "all-reduce")
        it.typed(args[0][2])
        return ("reduced", it.opname(args[0][3]), [args[r][0] for r in sorted(args)])
    it.put(o, n, collective(it, comm, "allreduce", (v, n, ty, op), fin))
    return 0


def h_reduce(it, a):
    i, o, n, ty, op, root, comm = a
    me = it.sim.rank(comm, it)
    if inplace(i, o) and me != root:
        raise Cut("in-place reduction at a process that is not root")
    if i == o and me == root:
        raise Cut("same buffer given for input and result of a reduction")
    v = it.take(o if inplace(i, o) else i, n)

    def fin(args):
        same_all(it, args, (1, 2, 3, 4), "reduce")
        it.typed(args[0][2])
        return ("reduced", it.opname(args[0][3]), [args[r][0] for r in sorted(args)])
    r = collective(it, comm, "reduce", (v, n, ty, op, root), fin)
    if me == root:
        it.put(o, n, r)
    return 0


def h_dup(it, a):
    it.storem(a[1], 8, ("p", "#comm", 0))
    return 0


def h_split(it, a):
    comm, color, key, out = a
    if not isinstance(color, int) or not isinstance(key, int):
        raise Undecided("colour or key of a communicator")
    me = it.sim.rank(comm, it)
    ms = it.sim.members(comm)

    def fin(args):
        res = {}
        it.sim.serial = getattr(it.sim, "serial", 0) + 1
        for c in {x[0] for x in args.values() if x[0] >= 0}:
            name = "#comm%d.%d" % (it.sim.serial, c)
            rs = sorted((args[r][1], r) for r in args if args[r][0] == c)
            it.sim.comms[name] = [ms[r] for _, r in rs]
            for _, r in rs:
                res[r] = name
        return res
    r = collective(it, comm, "split", (color, key), fin)
    it.storem(out, 8, ("p", r.get(me, "#null"), 0))
    return 0


def h_rank(it, a):
    it.storem(a[1], 4, it.sim.rank(a[0], it))
    return 0


def h_size(it, a):
    it.storem(a[1], 4, len(it.sim.members(a[0])))
    return 0


def h_name(it, a):
    it.storem(a[1], 4, 4)
    return 0


OK = lambda it, a: 0
HANDLERS = {"Send": h_send, "Recv": h_recv, "Isend": h_isend, "Irecv": h_irecv, "Wait": h_wait, "Get_count": h_get_count, "Allreduce": h_allreduce,
            "Reduce": h_reduce, "Comm_dup": h_dup, "Comm_split": h_split, "Comm_rank": h_rank, "Comm_size": h_size, "Get_processor_name": h_name, "Init": OK,
            "Comm_set_errhandler": OK, "Finalize": OK}


def handlers():
    h = {}
    for k, f in HANDLERS.items():
        h["MPI_" + k] = f
        h["laik_tcp_minimpi_" + k.lower()] = f
    return h
