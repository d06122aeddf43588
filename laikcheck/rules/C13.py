"""Mini-MPI of the TCP backend: all tasks of a program are interpreted over the
order domain; the messenger below is a mailbox addressed by task and header.
Values of elements, hints and tags are opaque."""
import itertools
from .. import glib, model, mpisim
from ..absint import Abort, Cut, Obj, UNDEF, NULL, Undecided, is_ptr, sym
from ..build import AnalysisError
from ..model import P, PosInterp, add, chain, fo, mul, rd, setf, ssize

M = None
THOROUGH = False


class NInterp(PosInterp):
    def __init__(self, ch, shared=None):
        super().__init__(ch)
        self.budget = 600000
        if shared is not None:
            self.order = shared.order
            self.lb = shared.__dict__.setdefault("lb", {})
            self._sized = shared.sized
            self.covered = shared.covered
        self.nglobals = {}
        h = self.handlers
        h.update(glib.HANDLERS)
        for n, f in (("socket_new", h_socket), ("messenger_new", h_mnew), ("messenger_free", h_mfree), ("messenger_push", h_push), ("messenger_get", h_get),
                     ("messenger_send", h_send), ("config", h_config), ("config_unref", glib.unref), ("async_new", h_async), ("async_wait", h_await),
                     ("socket_free", glib.unref)):
            h["laik_tcp_" + n] = f
        h["gethostname"] = h_hostname
        h["strnlen"] = lambda i, a: min(h_strlen(i, a), a[1])
        h["strlen"] = h_strlen
        h["getpid"] = lambda i, a: 4711
        h["snprintf"] = h_snprintf

    know = frozenset()


# ---- what is below -----------------------------------------------------------------

def h_config(it, a):
    c = it.__dict__.get("conf")
    if c is None:
        c = it.conf = Obj("config")
        c.rc, c.kind = 1 << 20, "configuration"
        arr = Obj("addresses", 16)
        arr.cells[8] = (4, len(it.sim.procs))
        setf(c, "Laik_Tcp_Config", addresses=P(arr), minimpi_async_split=it.async_split)
    return P(c)


def h_socket(it, a):
    if a[1] != it.proc.rank:
        glib.err_push(it, [a[2]])
        return NULL
    o = Obj("socket")
    o.rc, o.kind = 1, "socket"
    glib.live(it).append(o)
    return P(o)


def h_mnew(it, a):
    glib.struct(a[0], "use of a socket").rc -= 1
    a[0][1].freed = True
    o = Obj("messenger")
    o.kind, o.rc = "messenger", 1
    glib.live(it).append(o)
    return P(o)


def h_mfree(it, a):
    glib.struct(a[0], "release").freed = True
    box = it.sim.__dict__.setdefault("box", {})
    it.closed = True


def put(it, m, peer, hd, body):
    glib.struct(m, "use of the messenger")
    n = len(it.sim.procs)
    if not isinstance(peer, int) or not 0 <= peer < n:
        raise Cut("message to task %r that does not exist" % (peer,))
    if peer == it.proc.rank:
        raise Cut("task %d sends a message to itself" % peer)
    k = (peer, glib.key(it, hd))
    box = it.sim.__dict__.setdefault("box", {})
    if k in box:
        raise Cut("two messages to task %d with the same header: one of them gets lost" % peer)
    b = glib.struct(body, "use of a message")
    x = Obj("message", b.n)
    x.cells = dict(b.data.cells)
    box[k] = {"from": it.proc.rank, "data": x, "n": b.n, "know": it.know, "got": False}


def h_push(it, a):
    put(it, *a[:4])


def inject(it, errs):
    """the chosen receive or acknowledged send of the chosen task fails"""
    if it.__dict__.get("fail_in") is None:
        return False
    it.fail_in -= 1
    if it.fail_in >= 0:
        return False
    it.fail_in, it.failed = None, True
    glib.err_push(it, [errs])
    return True


def h_send(it, a):
    if inject(it, a[4]):
        return None
    put(it, *a[:4])


def h_get(it, a):
    m, peer, hd, errs = a
    glib.struct(m, "use of the messenger")
    if inject(it, errs):
        return NULL
    k = (it.proc.rank, glib.key(it, hd))
    box = it.sim.__dict__.setdefault("box", {})
    if k not in box:
        run_async(it)
    it.proc.block(lambda: k in box, "receive from task %r" % (peer,))
    e = box[k]
    if e["got"]:
        raise Cut("the same message is received twice")
    if e["from"] != peer:
        raise Cut("a message of task %d is requested from task %r" % (e["from"], peer))
    e["got"] = True
    it.know = it.know | e["know"]
    b = glib.new_bytes(it, NULL, e["n"])
    b[1].data.cells = dict(e["data"].cells)
    return b


def h_async(it, a):
    o = Obj("async")
    o.kind, o.rc, o.f, o.inp, o.ran, o.out = "asynchronous call", 1, a[0], a[1], False, NULL
    glib.live(it).append(o)
    it.__dict__.setdefault("pending", []).append(o)
    if it.async_early:
        run_async(it)
    return P(o)


def run_async(it):
    for o in it.__dict__.get("pending", []):
        if not o.ran:
            o.ran = True
            q = glib.q_new(it, [])
            held, it.held = it.__dict__.get("held", {}), {}
            o.out = it.call(o.f[1][1], [o.inp, q])
            it.held = held
            o.errs = q[1].q
            glib.q_free(it, [q])


def h_await(it, a):
    o = glib.struct(a[0], "wait")
    run_async(it)
    it.pending.remove(o)
    o.freed = True
    if o.errs:
        glib.err_push(it, [a[1]])
    return o.out


def h_hostname(it, a):
    o, off = it.deref(a[0])
    need = a[1]
    o.text = 10
    return 0


def h_strlen(it, a):
    o, off = it.deref(a[0])
    if not hasattr(o, "text"):
        raise Cut("length of a text is taken from memory never written")
    return o.text


def h_snprintf(it, a):
    o, off = it.deref(a[0])
    o.text = 18 if a[1] > 18 else 0
    return 18


# ---- program of a task ------------------------------------------------------------

class Task:
    def __init__(self, it):
        self.it = it
        self.rank = it.proc.rank
        self.ok("init", NULL, NULL)
        self.world = it.loadm(("p", ("@", "LAIK_TCP_MINIMPI_COMM_WORLD"), 0), 8, "ptr")
        self.keep = []

    def ok(self, f, *a):
        r = self.it.call(M.fn("laik_tcp_minimpi_" + f).name, list(a))
        if r != 0:
            raise Cut("task %d: %s fails with error code %r" % (self.rank, f, r))
        if self.it.__dict__.get("held"):
            raise Cut("task %d: a lock is still held after %s" % (self.rank, f))

    def broken(self, f, *a):
        """an operation that may meet a failing message: not reported as success"""
        it = self.it
        before = set(glib.leaks(it))
        npend = len(it.__dict__.get("pending", []))
        r = it.call(M.fn("laik_tcp_minimpi_" + f).name, list(a))
        if it.__dict__.get("held"):
            raise Cut("task %d: a lock is still held after %s" % (self.rank, f))
        if not it.__dict__.get("failed"):
            if r != 0:
                raise Cut("task %d: %s fails with error code %r" % (self.rank, f, r))
            return
        if r == 0 or not isinstance(r, int):
            raise Cut("task %d: %s reports success although a message of it failed" % (self.rank, f))
        if len(it.__dict__.get("pending", [])) > npend:
            raise Cut("task %d: %s returns an error while an asynchronous operation using its variables is running" % (self.rank, f))
        left = [o for o in glib.leaks(it) if o not in before and o.kind in ("byte string", "queue", "error", "hash table") and not in_tables(it, o)]
        if left:
            raise Cut("task %d: a %s is never released when %s fails" % (self.rank, left[0].kind, f))
        raise Cut(None)

    def fails(self, f, *a):
        r = self.it.call(M.fn("laik_tcp_minimpi_" + f).name, list(a))
        if r == 0 or not isinstance(r, int):
            raise Cut("task %d: %s reports success for something that cannot be done" % (self.rank, f))

    def buf(self, vals, es=8):
        o = Obj("buffer", len(vals) * es, fresh=True)
        for k, v in enumerate(vals):
            if v is not None:
                o.cells[es * k] = (es, v)
        return o

    def vals(self, o, n, es=8):
        return [o.cells[es * k][1] if es * k in o.cells else None for k in range(n)]

    def want(self, o, vals, what, es=8):
        got = self.vals(o, len(vals), es)
        for g, w in zip(got, vals):
            if g is None or g == UNDEF or not isinstance(g, (int, model.Poly)) or not self.it.same(g, w):
                raise Cut("task %d: %s gives %r instead of %r" % (self.rank, what, g, w))

    def out(self, size):
        o = Obj("out", size, fresh=True)
        return o

    def number(self, f, comm):
        o = self.out(4)
        self.ok(f, comm, P(o))
        return o.cells[0][1]

    def split(self, comm, color, hint):
        o = self.out(8)
        self.ok("comm_split", comm, color, hint, P(o))
        return o.cells[0][1]

    def dup(self, comm):
        o = self.out(8)
        self.ok("comm_dup", comm, P(o))
        return o.cells[0][1]

    def send(self, vals, to, tag, comm, ty="INT64", es=8):
        b = self.buf(vals, es)
        self.ok("send", P(b), len(vals), T(ty), to, tag, comm)
        for k in list(b.cells):
            b.cells[k] = (b.cells[k][0], sym("changed"))

    def recv(self, vals, frm, tag, comm, ty="INT64", es=8, room=None, what="receive"):
        n = len(vals) if room is None else room
        b, st, cnt = self.buf([None] * n, es), self.out(8), self.out(4)
        self.ok("recv", P(b), n, T(ty), frm, tag, comm, P(st))
        self.want(b, vals, what, es)
        if len(b.cells) > len(vals):
            raise Cut("task %d: more elements received than sent" % self.rank)
        self.ok("get_count", P(st), T(ty), P(cnt))
        if cnt.cells[0][1] != len(vals):
            raise Cut("task %d: count of received elements is %r instead of %d" % (self.rank, cnt.cells[0][1], len(vals)))


def T(ty):
    return M.enum_const("LAIK_TCP_MINIMPI_" + ty)


SIZES = {"DOUBLE": 8, "FLOAT": 4, "INT64": 8, "INT32": 4, "INT8": 1, "UINT64": 8, "UINT32": 4, "UINT8": 1}


def program(n, f, final=True):
    """f(task) runs on each task"""
    def body(it0):
        its = [NInterp(it0.choose, it0) for _ in range(n)]
        asy = None
        if getattr(f, "splits", True):
            asy = it0.choose(3)
        shared = {}
        victim = (it0.choose(n), it0.choose(4)) if getattr(f, "inject", False) else None

        def proc(it, rank):
            it.async_split, it.async_early = int(bool(asy)), asy == 2
            it.sh = shared
            t = Task(it)
            before = set(glib.leaks(it))
            if victim and victim[0] == rank:
                it.fail_in = victim[1]
            f(t)
            if it.__dict__.get("pending"):
                raise Cut("task %d: an asynchronous operation is never waited for" % rank)
            left = [o for o in glib.leaks(it) if o not in before and o not in t.keep and o.kind in ("byte string", "queue", "error", "hash table") and not in_tables(it, o)]
            if left:
                raise Cut("task %d: a %s is never released" % (rank, left[0].kind))
            if final:
                it.know = it.know | {("final", rank)}
                t.ok("finalize")
                if not all(("final", r) in it.know for r in range(n)):
                    raise Cut("task %d ends before all others are done" % rank)
                left = [o for o in glib.leaks(it) if o not in t.keep and o.kind in ("byte string", "queue", "error", "hash table", "messenger", "socket")]
                if left:
                    raise Cut("task %d: a %s is not released when finishing" % (rank, left[0].kind))
        S = mpisim.Sim(its, proc)
        S.run()
        for k, e in S.__dict__.get("box", {}).items():
            if not e["got"]:
                raise Cut("a message from task %d to task %d is never received" % (e["from"], k[0]))
    return body


def in_tables(it, o):
    return any(o is k[1] or o is v[1] for t in glib.live(it) if t.kind == "hash table" and not t.freed for k, v in t.tab.values())


E = lambda r, *s: sym("v%d" % r + "".join("_%s" % x for x in s))


def p2p(n):
    def f(t):
        # everybody to everybody, one after the other
        for a in range(n):
            for b in range(n):
                if a == b:
                    continue
                if t.rank == a:
                    t.send([E(a, b, 0), E(a, b, 1)], b, 3, t.world)
                if t.rank == b:
                    t.recv([E(a, b, 0), E(a, b, 1)], a, 3, t.world)
    return f


def p2p_order(t):
    """same tag: in order of sending; other tags: as requested"""
    if t.rank == 0:
        for k, tag in enumerate((1, 2, 1, 1)):
            t.send([E(k)], 1, tag, t.world)
        t.recv([E(9)], 1, 1, t.world)
        t.send([], 1, 1, t.world)
    else:
        t.recv([E(1)], 0, 2, t.world)
        t.recv([E(0)], 0, 1, t.world)
        t.send([E(9)], 0, 1, t.world)
        t.recv([E(2)], 0, 1, t.world, room=2)
        t.recv([E(3)], 0, 1, t.world)
        t.recv([], 0, 1, t.world, room=1)


def p2p_types(t):
    for ty, es in SIZES.items():
        if t.rank == 1:
            t.send([E(1, ty), E(2, ty)], 0, 0, t.world, ty, es)
        else:
            t.recv([E(1, ty), E(2, ty)], 1, 0, t.world, ty, es)


def p2p_large(t):
    if t.rank == 0:
        t.send([E(0), E(1)], 1, 0, t.world)
        t.send([E(2)], 1, 0, t.world)
    else:
        b, st = t.buf([None]), t.out(8)
        t.fails("recv", P(b), 1, T("INT64"), 0, 0, t.world, P(st))
        t.recv([E(2)], 0, 0, t.world)


def bcast(n):
    def f(t):
        for root in range(n):
            for m in (2, 0, 1):
                v = [E(root, m, k) for k in range(m)]
                b = t.buf(v if t.rank == root else [None] * m)
                t.ok("bcast", P(b) if m else P(Obj("b", 0)), m, T("INT64"), root, t.world)
                t.want(b, v, "broadcast")
    return f


def bcast_types(t):
    for ty, es in SIZES.items():
        v = [E(1, ty), E(2, ty)]
        b = t.buf(v if t.rank == 1 else [None] * 2, es)
        t.ok("bcast", P(b), 2, T(ty), 1, t.world)
        t.want(b, v, "broadcast", es)


def total(n, op, *s):
    v = E(0, *s)
    for r in range(1, n):
        v = add(v, E(r, *s)) if op == "SUM" else mul(v, E(r, *s))
    return v


def reduce(n, allr):
    def f(t):
        for rnd, (op, inplace, m) in enumerate((("SUM", 0, 2), ("PROD", 1, 2), ("SUM", 1, 1), ("PROD", 0, 1), ("SUM", 0, 0))):
            for root in range(1 if allr else n):
                v = [E(t.rank, rnd, root, k) for k in range(m)]
                i, o = t.buf(v), t.buf([None] * m)
                ip, op_ = (NULL, P(i)) if inplace else (P(i), P(o))
                if allr:
                    t.ok("allreduce", ip, op_, m, T("INT64"), T(op), t.world)
                else:
                    t.ok("reduce", ip, op_, m, T("INT64"), T(op), root, t.world)
                if allr or t.rank == root:
                    t.want(i if inplace else o, [total(n, op, rnd, root, k) for k in range(m)], "reduction")
                if not inplace:
                    t.want(i, v, "input of a reduction")
    return f


def failing(n, op):
    """one message of the operation fails in one task"""
    def f(t):
        r = t.rank
        if op == "recv":
            if r == 0:
                t.send([E(0)], 1, 0, t.world)
                t.send([E(1)], 1, 0, t.world)
            elif r == 1:
                for k in range(2):
                    b, st = t.buf([None]), t.out(8)
                    t.broken("recv", P(b), 1, T("INT64"), 0, 0, t.world, P(st))
                    t.want(b, [E(k)], "receive")
        elif op == "bcast":
            for root in range(n):
                b = t.buf([E(root)] if r == root else [None])
                t.broken("bcast", P(b), 1, T("INT64"), root, t.world)
                t.want(b, [E(root)], "broadcast")
        elif op in ("reduce", "allreduce"):
            i, o = t.buf([E(r, "x")]), t.buf([None])
            a = [1] if op == "reduce" else []
            t.broken(op, P(i), P(o), 1, T("INT64"), T("SUM"), *a, t.world)
            if r in (a or range(n)):
                t.want(o, [total(n, "SUM", "x")], "reduction")
        elif op == "barrier":
            t.broken("barrier", t.world)
        elif op == "split":
            o = t.out(8)
            t.broken("comm_split", t.world, 0, n - r, P(o))
            t.it.fail_in = None
            members(t, o.cells[0][1], list(range(n - 1, -1, -1)), "s")
        t.it.fail_in = None
    f.inject = True
    f.splits = op == "split"
    return f


def mismatch(op):
    """a broadcast or reduction with differing counts must not overrun buffers or report success"""
    def f(t):
        n = 3 if t.rank == 0 else 2 if t.rank == 1 else 1
        b, o = t.buf([E(t.rank, k) for k in range(n)]), t.buf([None] * n)
        if op == "bcast":
            (t.ok if t.rank == 1 else t.fails)("bcast", P(b), n, T("INT64"), 1, t.world)
        else:
            (t.fails if t.rank == 1 else t.ok)("reduce", P(b), P(o), n, T("INT64"), T("SUM"), 1, t.world)
            if t.rank == 1:
                # the input of the last task stays where it is
                raise Cut(None)
    f.splits = False
    return f


def invalid(t):
    """types and operations that do not exist"""
    b, o, st = t.buf([E(t.rank)]), t.buf([None]), t.out(8)
    peer = 1 - t.rank
    t.fails("bcast", P(b), 1, 77, 0, t.world)
    t.fails("reduce", P(b), P(o), 1, 77, T("SUM"), 0, t.world)
    t.fails("allreduce", P(b), P(o), 1, 77, T("SUM"), t.world)
    t.fails("recv", P(b), 1, 77, peer, 0, t.world, P(st))
    t.fails("send", P(b), 1, 77, peer, 0, t.world)
    t.fails("get_count", P(st), 77, P(t.out(4)))
    for ty, op in (("DOUBLE", "BAND"), ("FLOAT", "BOR"), ("INT32", 77)):
        es = SIZES[ty]
        b, o = t.buf([E(t.rank)], es), t.buf([None], es)
        (t.fails if t.rank == 1 else t.ok)("reduce", P(b), P(o), 1, T(ty), op if op == 77 else T(op), 1, t.world)


invalid.splits = False


def barrier(n):
    def f(t):
        for k in range(2):
            t.it.know = t.it.know | {(k, t.rank)}
            t.ok("barrier", t.world)
            if not all((k, r) in t.it.know for r in range(n)):
                raise Cut("task %d leaves a barrier that not all tasks have reached" % t.rank)
    return f


def dup(t):
    c = t.dup(t.world)
    if t.number("comm_rank", c) != t.rank or t.number("comm_size", c) != len(t.it.sim.procs):
        raise Cut("duplicate of a communicator has other tasks")
    if t.rank == 0:
        t.send([E(0)], 1, 1, t.world)
        t.send([E(1)], 1, 1, c)
    else:
        t.recv([E(1)], 0, 1, c)
        t.recv([E(0)], 0, 1, t.world)
    t.ok("barrier", c)


def members(t, comm, ranks, tag):
    """communication within a communicator: world ranks expected"""
    n = len(ranks)
    me = ranks.index(t.rank)
    r, s = t.number("comm_rank", comm), t.number("comm_size", comm)
    if s != n or r != me:
        raise Cut("task %d is number %r of %r in a communicator instead of %d of %d" % (t.rank, r, s, me, n))
    for a in range(n):
        for b in range(n):
            if a != b and me == a:
                t.send([E(t.rank, tag, b)], b, 1, comm)
            if a != b and me == b:
                t.recv([E(ranks[a], tag, b)], a, 1, comm, what="receive in a communicator")
    b = t.buf([E(ranks[-1], tag, "b")] if me == n - 1 else [None])
    t.ok("bcast", P(b), 1, T("INT64"), n - 1, comm)
    t.want(b, [E(ranks[-1], tag, "b")], "broadcast in a communicator")
    i, o = t.buf([E(t.rank, tag, "r")]), t.buf([None])
    t.ok("allreduce", P(i), P(o), 1, T("INT64"), T("SUM"), comm)
    v = 0
    for x in ranks:
        v = add(v, E(x, tag, "r"))
    t.want(o, [v], "reduction in a communicator")


def order(it, ranks, hints):
    from functools import cmp_to_key
    return sorted(ranks, key=cmp_to_key(lambda a, b: it.cmpv(hints[a], hints[b]) or (a > b) - (a < b)))


def split(n, colors):
    def f(t):
        hints = [sym("hint%d" % r) for r in range(n)]
        c = t.split(t.world, colors[t.rank], hints[t.rank])
        if colors[t.rank] == -1:
            members(t, t.world, list(range(n)), "w")
            return
        ranks = order(t.it, [r for r in range(n) if colors[r] == colors[t.rank]], hints)
        members(t, c, ranks, "s")
        members(t, t.world, list(range(n)), "w")
    return f


def split_order(n):
    """a message in the new communicator cannot be received in the old one"""
    def f(t):
        c = t.split(t.world, 0, t.rank)
        for a, b in itertools.permutations(range(n), 2):
            if t.rank == a:
                t.send([E(a, b, 0)], b, 1, t.world)
                t.send([E(a, b, 1)], b, 1, c)
            elif t.rank == b:
                t.recv([E(a, b, 1)], a, 1, c)
                t.recv([E(a, b, 0)], a, 1, t.world)
    return f


def split_two(n, c1, c2):
    """two communicators made from the same one, with different tasks"""
    def f(t):
        c = t.split(t.world, c1[t.rank], t.rank)
        d = t.split(t.world, c2[t.rank], -t.rank)
        r1 = [r for r in range(n) if c1[r] == c1[t.rank] >= 0]
        r2 = [r for r in range(n - 1, -1, -1) if c2[r] == c2[t.rank] >= 0]
        for k in "ab":
            if r1:
                members(t, c, r1, "c" + k)
            if r2:
                members(t, d, r2, "d" + k)
    return f


def split_twice(n, c1, c2):
    def f(t):
        c = t.split(t.world, c1[t.rank], n - t.rank)
        if c1[t.rank] < 0:
            return
        r1 = [r for r in range(n - 1, -1, -1) if c1[r] == c1[t.rank]]
        members(t, c, r1, "a")
        d = t.split(c, c2[t.rank], t.rank)
        if c2[t.rank] < 0:
            return
        members(t, d, [r for r in range(n) if c1[r] == c1[t.rank] and c2[r] == c2[t.rank]], "b")
        members(t, c, r1, "c") if all(x >= 0 for x in c2) else None
    return f


def names(t):
    fl = t.out(4)
    t.ok("initialized", P(fl))
    if fl.cells[0][1] != 1:
        raise Cut("reported as not initialized")
    nm, ln = Obj("name", 1 << 16, fresh=True), t.out(4)
    t.ok("get_processor_name", P(nm), P(ln))
    if ln.cells[0][1] != 18:
        raise Cut("length of the processor name")


p2p_order.splits = p2p_types.splits = p2p_large.splits = bcast_types.splits = dup.splits = names.splits = False
ANCHOR = {"messages": "laik_tcp_minimpi_recv", "broadcast": "laik_tcp_minimpi_bcast", "reduction": "laik_tcp_minimpi_reduce", "barrier": "laik_tcp_minimpi_barrier",
          "communicators": "laik_tcp_minimpi_comm_split", "failures": "laik_tcp_minimpi_allreduce", "names": "laik_tcp_minimpi_get_processor_name"}


def ns(f):
    f.splits = False
    return f


def families(thorough):
    F = [("messages", "all pairs of 2 tasks", program(2, ns(p2p(2)))), ("messages", "all pairs of 3 tasks", program(3, ns(p2p(3)))),
         ("messages", "order and tags", program(2, p2p_order)), ("messages", "all types", program(2, p2p_types)),
         ("messages", "message too large", program(2, p2p_large)), ("broadcast", "all types", program(2, bcast_types)),
         ("communicators", "duplicate", program(2, dup)), ("names", "processor name", program(1, names))]
    for n in (1, 2, 3, 4):
        F += [("broadcast", "all roots, %d tasks" % n, program(n, ns(bcast(n)))), ("reduction", "all roots, %d tasks" % n, program(n, ns(reduce(n, False)))),
              ("reduction", "all-reduce, %d tasks" % n, program(n, ns(reduce(n, True)))), ("barrier", "%d tasks" % n, program(n, ns(barrier(n))))]
    for n in (2, 3):
        for op in ("recv", "bcast", "reduce", "allreduce", "barrier", "split"):
            F.append(("failures", "%s of %d tasks" % (op, n), program(n, failing(n, op))))
    F += [("failures", "broadcast of different lengths", program(3, mismatch("bcast"))), ("failures", "reduction of different lengths", program(3, mismatch("reduce"))),
          ("failures", "invalid types and operations", program(2, invalid))]
    for n in (2, 3):
        for colors in itertools.product((0, 1, -1), repeat=n):
            if colors[0] == 1 or (0 not in colors and 1 in colors):
                continue
            F.append(("communicators", "split into %s" % (colors,), program(n, split(n, colors))))
    for n in (2, 3):
        F.append(("communicators", "split and order, %d tasks" % n, program(n, ns(split_order(n)))))
    for c, d in (((0, 0, -1), (0, -1, 0)), ((0, 0, 1), (0, 1, 0)), ((0, 0, 0), (-1, 0, 0)), ((0, 0, 1, 1), (0, 1, 1, 0)), ((0, 0, -1, 0), (0, 0, 0, -1)),
                 ((1, 0, 0, 0), (0, 0, 0, 1))):
        F.append(("communicators", "split into %s and into %s" % (c, d), program(len(c), split_two(len(c), c, d))))
    for c in ((0, 1, 0, 1), (0, 0, 1, 1), (1, 0, 0, 1), (0, 1, 0, 0), (0, 0, 0, 0), (0, -1, 0, 0)):
        for d in ((0, 0, 0, 0), (0, 0, 1, 1), (1, 0, 0, 0), (-1, 0, 0, 0)):
            F.append(("communicators", "split into %s, then %s" % (c, d), program(4, split_twice(4, c, d))))
    return F


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, NInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
