"""Message delivery of the TCP backend: messenger, message stores, connection
cache and socket transfer of two tasks are interpreted; network connections may
fail, transfer may be partial, tasks of the thread pool may run at any later
point, waits may time out."""
import itertools
from .. import glib, model, mpisim
from ..absint import Abort, Cut, Obj, UNDEF, NULL, Undecided, is_ptr, sym
from ..build import AnalysisError
from ..model import P, PosInterp, add, chain, fo, mul, rd, setf, ssize

M = None
THOROUGH = False
EAGAIN = 11


class SInterp(PosInterp):
    def __init__(self, ch, shared=None):
        super().__init__(ch)
        self.budget = 600000
        if shared is not None:
            self.order = shared.order
            self.covered = shared.covered
        h = self.handlers
        h.update(glib.HANDLERS)
        h["__errno_location"] = lambda i, a: P(i.__dict__.setdefault("errno", Obj("errno", 4)))
        for n, f in (("laik_tcp_config", h_config), ("laik_tcp_config_unref", lambda i, a: None), ("laik_tcp_socket_new", h_connect),
                     ("laik_tcp_server_new", h_server), ("laik_tcp_server_free", h_server_free), ("laik_tcp_sleep", h_sleep),
                     ("g_thread_pool_new", h_pool), ("g_thread_pool_push", h_pool_push), ("g_thread_pool_free", h_pool_free),
                     ("g_cond_wait", h_cond_wait), ("g_cond_wait_until", h_cond_until), ("g_cond_broadcast", h_broadcast), ("g_cond_signal", h_broadcast),
                     ("g_get_monotonic_time", lambda i, a: 0), ("send", h_send), ("recv", h_recv), ("poll", h_poll), ("close", h_close),
                     ("fcntl", lambda i, a: 2)):
            h[n] = f
        self.gen = 0
        self.waiting = False

    # small structures are passed as one number
    def loadm(self, p, size, ty):
        if size == 8 and is_ptr(p) and isinstance(p[1], Obj) and isinstance(p[2], int):
            o, off = self.deref(p)
            if off in o.cells and o.cells[off][0] < 8:
                return ("pack", packed(o, off, 8))
        return super().loadm(p, size, ty)

    def storem(self, p, size, v):
        if isinstance(v, tuple) and v and v[0] == "pack":
            o, off = self.deref(p)
            self.bounds(o, off, size)
            for k in [k for k, (s, _) in o.cells.items() if k < off + size and off < k + s]:
                del o.cells[k]
            for k, c in v[1].items():
                o.cells[off + k] = c
            return
        super().storem(p, size, v)

    def step(self, fr, I, depth):
        if I.op in ("fmul", "fptosi", "fptoui", "fadd", "fdiv"):
            vs = [self.opval(fr, o) for o in I.ops]
            if vs[0] in (("f", "0"), 0):
                return 0
            if isinstance(vs[0], tuple) and vs[0][0] == "f":
                return sym("time")
            return vs[0]
        return super().step(fr, I, depth)


def h_config(it, a):
    return P(it.conf)


def config(it, **kw):
    c = Obj("config")
    d = dict(inbox_size=100, outbox_size=100, send_attempts=4, receive_attempts=4, send_delay=sym("send delay"), receive_timeout=sym("receive timeout"),
             receive_delay=sym("receive delay"), socket_timeout=sym("socket timeout"), client_connections=2, client_threads=1, server_connections=4, server_threads=1)
    d.update(kw)
    setf(c, "Laik_Tcp_Config", **d)
    it.conf = c


def packed(o, off, size):
    return {k - off: c for k, c in o.cells.items() if off <= k and k + c[0] <= off + size}


# ---- pool of threads: tasks run when the process blocks, or at once ----------------

def h_pool(it, a):
    o = Obj("pool")
    o.kind, o.rc, o.f, o.user, o.tasks = "thread pool", 1, a[0], a[1], []
    glib.live(it).append(o)
    return P(o)


def h_pool_push(it, a):
    o = glib.struct(a[0], "use of a thread pool")
    o.tasks.append(a[1])
    if it.now():
        run_pool(it, o)


def run_pool(it, o):
    while o.tasks:
        t = o.tasks.pop(0)
        held, it.held = it.__dict__.get("held", {}), {}
        it.call(o.f[1][1], [t, o.user])
        if it.held:
            raise Cut("a lock is still held at the end of a task")
        it.held = held
    return None


def run_pools(it):
    r = False
    for o in [o for o in glib.live(it) if o.kind == "thread pool" and not o.freed]:
        if o.tasks:
            run_pool(it, o)
            r = True
    return r


def h_pool_free(it, a):
    o = glib.struct(a[0], "release")
    if o.tasks and not a[1]:
        run_pool(it, o)
    o.freed = True


# ---- waiting ---------------------------------------------------------------------------

def idle(it):
    """nobody else can run"""
    for p in it.sim.procs:
        if p is it.proc or p.done:
            continue
        if p.cond is None or (p.it.wake() if p.it.waiting else p.cond()):
            return False
        # time passes for all: others waiting with a time limit come first if they waited less often
        if p.it.waiting and p.it.timed and p.it.timeouts < it.timeouts:
            return False
    return True


def wait(it, until=None):
    """until something changes (True) or until nothing else can happen (False)"""
    if it.alone:
        if run_pools(it):
            return True
        return False
    g = it.gen
    if run_pools(it) and it.gen != g:
        return True
    it.waiting = True
    it.timed = True
    it.wake = lambda: it.gen != g
    it.proc.block(lambda: it.gen != g or idle(it), until or "wait")
    it.waiting = it.timed = False
    if it.gen == g:
        it.timeouts += 1
    return it.gen != g


def h_cond_wait(it, a):
    glib.unlock(it, [a[1]])
    g = it.gen
    run_pools(it)
    if it.alone and it.gen == g:
        raise Cut("waits although the store is not too full")
    if not it.alone:
        it.waiting = True
        it.wake = lambda: it.gen != g
        it.proc.block(lambda: it.gen != g, "wait for space in a message store")
        it.waiting = False
    glib.lock(it, [a[1]])


def h_cond_until(it, a):
    glib.unlock(it, [a[1]])
    r = 0
    if not (isinstance(a[2], int) and a[2] == 0):
        r = int(wait(it))
    glib.lock(it, [a[1]])
    return r


def h_broadcast(it, a):
    it.gen += 1


def h_sleep(it, a):
    wait(it)


# ---- network -------------------------------------------------------------------------

class Conn:
    def __init__(self):
        self.q = {0: [], 1: []}        # data to side k
        self.closed = [False, False]
        self.server = None


def fd_obj(it, conn, side):
    o = Obj("socket", 4)
    o.kind, o.rc, o.conn, o.side = "memory", 1, conn, side
    n = it.sim.__dict__.setdefault("fds", {})
    fd = 10 + len(n)
    n[fd] = (conn, side)
    o.cells[0] = (4, fd)
    glib.live(it).append(o)
    return o


def h_connect(it, a):
    ty, rank, errs = a
    peer = it.peer(rank)
    if peer is None or it.refuse():
        glib.err_push(it, [errs])
        return NULL
    c = Conn()
    me = fd_obj(it, c, 0)
    c.server = (peer, fd_obj(peer, c, 1))
    it.sim.__dict__.setdefault("conns", []).append((it, rank, c))
    return P(me)


def h_server(it, a):
    o = Obj("server")
    o.kind, o.rc, o.f, o.user = "server", 1, a[1], a[2]
    glib.live(it).append(o)
    it.server = o
    return P(o)


def h_server_free(it, a):
    glib.struct(a[0], "release").freed = True
    it.server = None


def endpoint(it, fd):
    e = it.sim.__dict__.get("fds", {}).get(fd) if isinstance(fd, int) else None
    if e is None:
        raise Cut("use of something that is no connection")
    conn, side = e
    if conn.closed[side]:
        raise Cut("use of a closed connection")
    return e


def err(it, e):
    it.storem(P(it.__dict__.setdefault("errno", Obj("errno", 4))), 4, e)
    return -1


def h_send(it, a):
    fd, p, n, flags = a
    conn, side = endpoint(it, fd)
    if not isinstance(n, int):
        raise Undecided("length of a transfer")
    if conn.closed[1 - side]:
        return err(it, 32)
    k = it.part(n)
    if k == "again":
        return err(it, EAGAIN)
    if k == "error":
        return err(it, 32)
    o, off = it.deref(p)
    it.bounds(o, off, n)
    q = conn.q[1 - side]
    x = Obj("x", k, fresh=True)
    it.memcpy(P(x), p, k)
    for b in range(k):
        q.append(x.cells.get(b))
    it.sent = getattr(it, "sent", 0) + k
    return k


def serve(it, conn):
    """let the server at the other end handle what was sent"""
    peer, so = conn.server
    if conn.closed[1] or peer.server is None:
        return
    held, peer.held = peer.__dict__.get("held", {}), {}
    al, peer.now_ = peer.__dict__.get("now_"), None
    r = peer.call(peer.server.f[1][1], [P(so), peer.server.user])
    if peer.held:
        raise Cut("a lock is still held by the server")
    peer.held = held
    if not (r & 1):
        peer.call(M.fn("laik_tcp_socket_free").name, [P(so)])


def h_recv(it, a):
    fd, p, n, flags = a
    conn, side = endpoint(it, fd)
    q = conn.q[side]
    peek = isinstance(flags, int) and flags & 2
    if peek:
        if not q and conn.closed[1 - side]:
            return 0
        return 1 if q else err(it, EAGAIN)
    if not q and side == 0 and conn.server and conn.q[1]:
        serve(it, conn)
    if not q:
        return 0 if conn.closed[1 - side] else err(it, EAGAIN)
    k = it.part(min(n, len(q)))
    if k == "again":
        return err(it, EAGAIN)
    if k == "error":
        return err(it, 104)
    o, off = it.deref(p)
    it.bounds(o, off, n)
    x = Obj("x", k, fresh=True)
    for b in range(k):
        c = q.pop(0)
        if c is not None:
            x.cells[b] = c
    it.memcpy(p, P(x), k)
    return k


def h_poll(it, a):
    o, off = it.deref(a[0])
    fd = o.cells[off][1]
    conn, side = endpoint(it, fd)
    ev = o.cells.get(off + 4)
    ev = ev[1] if ev else 0
    ready = bool(ev & 4) or bool(ev & 1 and (conn.q[side] or conn.closed[1 - side]))
    if not ready and it.patience:
        it.patience -= 1
        return 1
    return int(ready)


def h_close(it, a):
    conn, side = endpoint(it, a[0])
    conn.closed[side] = True
    return 0


# ---- drivers -------------------------------------------------------------------------

def setup(it, it0, sim=None):
    it.part = lambda n: n
    it.now = lambda: 0
    it.refuse = lambda: 0
    it.patience = 0
    it.alone = it.timed = False
    it.timeouts = 0
    it.peer = lambda r: it.sim.procs[r].it if r < len(it.sim.procs) else None


def single(f):
    """one task without network peers"""
    def body(it):
        class S:
            procs = []
        it.sim = S()
        setup(it, it)
        it.alone = True
        it.peer = lambda r: it
        config(it)
        f(it)
        if it.__dict__.get("held"):
            raise Cut("a lock is still held")
    return body


def C(it, fn, *a):
    return it.call(M.fn("laik_tcp_" + fn).name, list(a))


def by(it, name, n=8):
    o = Obj("x", n)
    for k in range(n // 8):
        o.cells[8 * k] = (8, sym(name + "%d" % k))
    return glib.new_bytes(it, P(o), n)


def same(it, a, b):
    return a != NULL and a != 0 and is_ptr(a) and glib.key(it, a) == glib.key(it, b)


def no_leak(it, keep=()):
    for o in glib.leaks(it, keep):
        if o.kind in ("byte string", "memory", "hash table", "array", "pointer array", "queue", "error"):
            raise Cut("a %s (%r) is never released" % (o.kind, o))


# message store against its definition
def store(ops, limit, sizes):
    def f(it):
        m = C(it, "map_new", limit)
        ks = [by(it, "k%d" % k) for k in range(2)]
        vs = [[by(it, "v%d%d_" % (k, s), sizes[s]) for s in range(2)] for k in range(2)]
        ref, size = {}, 0
        for op, k, s in ops:
            ke, va, n = ks[k], vs[k][s], sizes[s]
            if op == "add":
                C(it, "map_add", m, ke, va)
                if k not in ref:
                    ref[k] = (s, n)
                    size += n
            elif op == "try":
                r = C(it, "map_try", m, ke, va)
                ok = k in ref or size + n <= limit
                if bool(r & 1) != ok:
                    raise Cut("a message %s although the store holds %d of %d bytes" % ("is refused" if ok else "of %d bytes is accepted" % n, size, limit))
                if ok and k not in ref:
                    ref[k] = (s, n)
                    size += n
            elif op == "get":
                r = C(it, "map_get", m, ke, ("f", "0"))
                w = ref.get(k)
                if not w:
                    if r not in (NULL, 0):
                        raise Cut("a message is found that is not in the store")
                elif not same(it, r, vs[k][w[0]]):
                    raise Cut("a stored message is not found or has another content")
                if r not in (NULL, 0):
                    glib.unref(it, [r])
            elif op == "discard":
                C(it, "map_discard", m, ke)
                if ref.get(k):
                    size -= ref[k][1]
                    ref[k] = None
            elif op == "block" and size <= limit:
                C(it, "map_block", m)
        C(it, "map_free", m)
        for x in ks + sum(vs, []):
            glib.unref(it, [x])
        no_leak(it)
    return single(f)


def stores(n, limit, sizes):
    """all sequences of n operations"""
    def body(it0):
        alts = [("add", 0, 0), ("add", 1, 0), ("add", 1, 1), ("try", 0, 0), ("try", 0, 1), ("try", 1, 1), ("get", 0, 0), ("get", 1, 0), ("discard", 0, 0), ("discard", 1, 0), ("block", 0, 0)]
        ops = [alts[it0.choose(len(alts))] for _ in range(n)]
        store(ops, limit, sizes)(it0)
    return body


def blocked(it0):
    """blocking while the store is too full ends when a message is discarded"""
    def main(it, rank):
        setup(it, it0)
        it.conf = its[0].conf
        if rank == 0:
            sh["m"] = C(it, "map_new", 8)
            sh["k"] = [by(it, "k%d" % k) for k in range(3)]
            for k in range(3):
                C(it, "map_add", sh["m"], sh["k"][k], by(it, "v%d" % k))
            sh["ready"] = True
            C(it, "map_block", sh["m"])
            if sh.get("out", 0) != 2:
                raise Cut("a full message store does not block")
        else:
            for k in range(2):
                it.proc.block(lambda: sh.get("ready") and its[0].waiting or its[0].proc.done, "start")
                C(it, "map_get", sh["m"], sh["k"][k], ("f", "0"))
                sh["out"] = k + 1
                its[0].waiting = False
                C(it, "map_discard", sh["m"], sh["k"][k])
                its[0].gen += it.gen
                it.gen = 0
    sh = {}
    its = [SInterp(it0.choose, it0) for _ in range(2)]
    config(its[0])
    mpisim.Sim(its, main).run()


def waiting(it0):
    """waiting for a message ends when it arrives, not when another one arrives"""
    def main(it, rank):
        setup(it, it0)
        it.conf = its[0].conf
        if rank == 0:
            sh["m"] = C(it, "map_new", 100)
            sh["k"] = [by(it, "k%d" % k) for k in range(2)]
            sh["v"] = by(it, "v")
            r = C(it, "map_get", sh["m"], sh["k"][1], sym("timeout"))
            if not same(it, r, sh["v"]):
                raise Cut("a message arriving in time is not found")
        else:
            for k in range(2):
                it.proc.block(lambda: its[0].waiting, "start")
                g = it.gen
                if it.choose(2):
                    C(it, "map_add", sh["m"], sh["k"][k], sh["v"])
                elif not C(it, "map_try", sh["m"], sh["k"][k], sh["v"]) & 1:
                    raise Cut("message refused by an empty store")
                its[0].gen += it.gen - g
                it.proc.block(lambda: its[0].waiting or k == 1 or its[0].proc.done, "next")
    sh = {}
    its = [SInterp(it0.choose, it0) for _ in range(2)]
    config(its[0])
    mpisim.Sim(its, main).run()


# transfer over a socket
def pair(it):
    c = Conn()
    return c, fd_obj(it, c, 0), fd_obj(it, c, 1)


def transfer(n):
    def f(it):
        c, a, b = pair(it)
        left = {"again": 1, "error": 1}

        def part(m):
            alts = list(range(1, m + 1)) + [x for x in left if left[x]]
            k = alts[it.choose(len(alts))]
            if k in left:
                left[k] -= 1
                it.failed |= k == "error"
            return k
        it.failed = False
        it.part = part
        src = Obj("data", n, fresh=True)
        for k in range(n):
            src.cells[k] = (1, sym("b%d" % k))
        r = C(it, "socket_send_data", P(a), P(src), n)
        if bool(r & 1) == it.failed:
            raise Cut("sending %s although the connection %s" % ("succeeds" if r & 1 else "fails", "failed" if it.failed else "works"))
        if it.failed:
            return
        if [x and x[1] for x in c.q[1]] != [sym("b%d" % k) for k in range(n)]:
            raise Cut("bytes %r are sent instead of the %d given ones" % (c.q[1], n))
        c.q[1].append((1, sym("next")))
        dst = Obj("dest", n, fresh=True)
        r = C(it, "socket_receive_data", P(b), P(dst), n)
        if bool(r & 1) == it.failed:
            raise Cut("receiving %s although the connection %s" % ("succeeds" if r & 1 else "fails", "failed" if it.failed else "works"))
        if it.failed:
            return
        if [dst.cells.get(k, (0, None))[1] for k in range(n)] != [sym("b%d" % k) for k in range(n)] or len(c.q[1]) != 1:
            raise Cut("received bytes are not the ones sent")
    return single(f)


def broken(it):
    """the peer closes the connection before everything is received"""
    c, a, b = pair(it)
    for k in range(2):
        c.q[1].append((1, sym("b%d" % k)))
    if it.choose(2):
        C(it, "socket_free", P(a))
    dst = Obj("dest", 3, fresh=True)
    if C(it, "socket_receive_data", P(b), P(dst), 3) & 1:
        raise Cut("incomplete data is reported as received")
    C(it, "socket_free", P(b))
    if not c.closed[1]:
        raise Cut("connection not closed")
    no_leak(it, [a])


def strings(it):
    c, a, b = pair(it)
    xs = [by(it, "x%d" % n, n) for n in (16, 0, 8)]
    for x in xs:
        if not C(it, "socket_send_bytes", P(a), x) & 1:
            raise Cut("sending fails")
        if not C(it, "socket_send_uint64", P(a), 5) & 1:
            raise Cut("sending fails")
    for x in xs:
        r = C(it, "socket_receive_bytes", P(b))
        if not same(it, r, x):
            raise Cut("received message differs from the one sent")
        glib.unref(it, [r])
        o = Obj("n", 8, fresh=True)
        if not C(it, "socket_receive_uint64", P(b), P(o)) & 1 or o.cells[0][1] != 5:
            raise Cut("received number differs from the one sent")
    for x in xs:
        glib.unref(it, [x])
    # nothing more
    C(it, "socket_free", P(a))
    if C(it, "socket_receive_bytes", P(b)) not in (NULL, 0):
        raise Cut("message received from a closed connection")
    C(it, "socket_free", P(b))
    no_leak(it)


# cache of connections
def cache(n, limit, first=()):
    def f(it):
        config(it, client_connections=limit)
        fn = ("p", ("@", M.fn("laik_tcp_messenger_client_proxy").name), 0)
        cl = C(it, "client_new", fn, P(Obj("user")))
        out, stored = [], []
        for k in range(n + len(first)):
            op, adr = first[k] if k < len(first) else (it.choose(3), None)
            if op == 0 or (op == 1 and not out) or (op == 2 and not stored):
                adr = it.choose(2) if adr is None else adr
                s = C(it, "client_connect", cl, adr)
                o = glib.struct(s, "use of a connection")
                if o.conn.closed[0] or o.conn.closed[1]:
                    raise Cut("a closed connection is used again")
                if getattr(o, "adr", adr) != adr:
                    raise Cut("connection to task %d is used for task %d" % (o.adr, adr))
                if any(o is x for x in out):
                    raise Cut("a connection is used twice at the same time")
                o.adr = adr
                out.append(o)
                stored = [x for x in stored if x is not o]
            elif op == 1:
                o = out.pop(0)
                C(it, "client_store", cl, o.adr, P(o))
                stored.append(o)
                stored = [x for x in stored if not x.freed]
                if len(stored) > limit:
                    raise Cut("%d unused connections are kept although the limit is %d" % (len(stored), limit))
            else:
                o = stored[it.choose(len(stored))]
                o.conn.closed[1] = True
        C(it, "client_free", cl)
        for o in out:
            if o.freed:
                raise Cut("a connection in use is closed")
            C(it, "socket_free", P(o))
        for o in [x for x in glib.live(it) if getattr(x, "side", 1) == 0]:
            if not o.freed or not o.conn.closed[0]:
                raise Cut("a connection is never closed")
        no_leak(it, [x for x in glib.live(it) if getattr(x, "side", 0) == 1])
    return single(f)


# ---- server: accepting and polling threads --------------------------------------------

class Listener:
    def __init__(self):
        self.backlog = []
        self.closed = False


class Env:
    """clients of a server; what its threads may do"""

    def __init__(self, limit):
        self.limit, self.clients, self.may_drop, self.down = limit, [], set(), False
        self.accept_fails = self.serve_fails = 0
        self.lost = set()

    def open(self):
        return [c for c in self.clients if c.accepted and not c.closed[1]]

    def dropped(self, c):
        """the server closes a connection"""
        n = len(self.open())
        if n >= self.limit:
            self.may_drop = set(self.open())
        if self.down or c.failed or c.closed[0] and not c.q[1]:
            return
        if c not in self.may_drop:
            if n < self.limit:
                raise Cut("a working connection is closed although there are only %d, limit is %d" % (n, self.limit))
        self.lost.add(c)


def sv_fd(it, conn, side):
    n = it.sim.__dict__.setdefault("fds", {})
    fd = 10 + len(n)
    n[fd] = (conn, side)
    return fd


def sv_endpoint(it, fd, what):
    e = it.sim.__dict__.get("fds", {}).get(fd) if isinstance(fd, int) else None
    if e is None:
        raise Cut("%s of something that is no connection" % what)
    c, side = e
    if c.closed is True or c.closed is not False and c.closed[side]:
        raise Cut("%s of a closed connection" % what)
    return e


def sv_pair(it, a):
    c = Conn()
    c.signal = True
    for k in range(2):
        it.storem(("p", a[3][1], a[3][2] + 4 * k), 4, sv_fd(it, c, k))
    return 0


def sv_accept(it, a):
    ls, _ = sv_endpoint(it, a[0], "accept")
    if not isinstance(ls, Listener):
        raise Cut("accept of something that is no listening socket")
    if not ls.backlog:
        return err(it, EAGAIN)
    c = ls.backlog.pop(0)
    if it.env.accept_fails and it.choose(2):
        it.env.accept_fails -= 1
        c.closed[1] = True
        it.env.lost.add(c)
        return err(it, 103)
    c.accepted = True
    return sv_fd(it, c, 1)


def sv_close(it, a):
    c, side = sv_endpoint(it, a[0], "close")
    if isinstance(c, Listener):
        c.closed = True
        return 0
    if c in it.env.clients:
        it.env.dropped(c)
    c.closed[side] = True
    return 0


def sv_ready(e, ev):
    c, side = e
    if isinstance(c, Listener):
        return 1 if c.backlog else 0
    return (ev & 1 and int(bool(c.q[side]) or c.closed[1 - side])) | (ev & 4)


def sv_poll(it, a):
    p, n, timeout = a
    it.env.may_drop = set()
    if not isinstance(n, int):
        raise Undecided("number of polled connections")
    o, off = it.deref(p)
    es = []
    for k in range(n):
        b = off + 8 * k
        fd, ev = it.loadm(("p", o, b), 4, "i32"), it.loadm(("p", o, b + 4), 2, "i16")
        es.append((b, sv_endpoint(it, fd, "poll"), ev))

    def some():
        return any(sv_ready(e, ev) for _, e, ev in es)
    if not some():
        if timeout == 0:
            return 0
        if it.__dict__.get("held_shared") is None:
            it.held_shared = True
        it.polling = True
        it.proc.block(some, "poll")
        it.polling = False
    r = 0
    for b, e, ev in es:
        x = sv_ready(e, ev)
        if isinstance(x, bool):
            x = int(x)
        it.storem(("p", o, b + 6), 2, x)
        r += bool(x)
    return r


def sv_lock(it, a):
    ls = it.sim.__dict__.setdefault("locks", {})
    k = glib.mkey(a[0])
    if ls.get(k) is it:
        raise Cut("a lock is taken while it is held")
    if k in ls:
        it.proc.block(lambda: k not in ls, "lock")
    ls[k] = it


def sv_unlock(it, a):
    ls = it.sim.__dict__.setdefault("locks", {})
    if ls.pop(glib.mkey(a[0]), None) is not it:
        raise Cut("a lock is released that is not held")


def sv_thread(it, a):
    w = it.sim.free_workers.pop(0)
    w.job = (a[1], a[2])
    o = Obj("thread")
    o.kind, o.rc, o.w = "thread", 1, w
    glib.live(it).append(o)
    return P(o)


def sv_join(it, a):
    o = glib.struct(a[0], "wait for the end of a thread")
    it.proc.block(lambda: o.w.proc.done, "end of a thread")
    o.freed = True
    return NULL


def aq_new(it, a):
    o = Obj("GAsyncQueue")
    o.kind, o.rc, o.q, o.fd = "queue", 1, [], a[0]
    glib.live(it).append(o)
    return P(o)


def aq_unref(it, a):
    o = glib.struct(a[0], "release")
    o.freed = True
    for v in o.q:
        glib.destroy(it, o.fd, v)


def aq_pop(it, a):
    q = glib.struct(a[0], "use of a queue").q
    return q.pop(0) if q else NULL


def sv_serve(it, a):
    """the function of the server: handles one request"""
    o = glib.struct(a[0], "use of a connection")
    if any(v is it for v in it.sim.__dict__.get("locks", {}).values()):
        raise Cut("a request is handled while the other threads of the server are locked out")
    c, side = sv_endpoint(it, o.cells[0][1], "use")
    if not isinstance(c, Conn) or c not in it.env.clients or side != 1:
        raise Cut("the function of the server gets something that is no connection of a client")
    if c.busy:
        raise Cut("a connection is used by two threads at the same time")
    c.busy = True
    if not c.q[1] and not c.closed[0]:
        it.proc.block(lambda: bool(c.q[1]) or c.closed[0] or it.env.down, "request of a client")
    c.busy = False
    if not c.q[1] or it.env.serve_fails and it.choose(2):
        if c.q[1]:
            it.env.serve_fails -= 1
            c.q[1].pop(0)
        c.failed = True
        it.env.lost.add(c)
        return 0
    c.q[1].pop(0)
    c.served += 1
    return 1


def server(workers, limit, n, first=(), fails=0, accept_fails=0):
    def body(it0):
        its = [SInterp(it0.choose, it0) for _ in range(workers + 1)]
        env = Env(limit)
        env.serve_fails, env.accept_fails = fails, accept_fails
        live = []
        for it in its:
            it.glive = live
            it.globals = its[0].globals
            setup(it, it0)
            it.env, it.job = env, None
            it.handlers.update({"socketpair": sv_pair, "accept": sv_accept, "close": sv_close, "poll": sv_poll, "g_mutex_lock": sv_lock, "g_mutex_unlock": sv_unlock,
                                "g_thread_new": sv_thread, "g_thread_join": sv_join, "g_async_queue_new_full": aq_new, "g_async_queue_new": lambda i, a: aq_new(i, [NULL]),
                                "g_async_queue_try_pop": aq_pop, "g_async_queue_push": lambda i, a: glib.struct(a[0], "use of a queue").q.append(a[1]),
                                "g_async_queue_unref": aq_unref, "model_serve": sv_serve,
                                "g_async_queue_length": lambda i, a: len(glib.struct(a[0], "use of a queue").q)})
            for nm in ("laik_tcp_server_new", "laik_tcp_server_free"):
                it.handlers.pop(nm, None)
        config(its[0], server_connections=limit, server_threads=workers)
        for it in its[1:]:
            it.conf = its[0].conf

        def main(it, rank):
            if rank:
                it.proc.block(lambda: it.job or its[0].proc.done, "start")
                if it.job:
                    it.call(it.job[0][1][1], [it.job[1]])
                if any(v is it for v in it.sim.__dict__.get("locks", {}).values()):
                    raise Cut("a thread of the server ends with a lock held")
                return
            ls = Listener()
            so = C(it, "socket_new_from_fd", sv_fd(it, ls, 0))
            sv = C(it, "server_new", so, ("p", ("@", "model_serve"), 0), P(Obj("user")))
            if it.sim.free_workers:
                raise Cut("the server does not start all its threads")

            def quiet():
                it.proc.block(lambda: all(w.proc.done or w.proc.cond is not None and not w.proc.cond() for w in its[1:]), "rest")
            for k in range(n + len(first)):
                what, i = first[k] if k < len(first) else (it.choose(3), None)
                alive = [c for c in env.clients if not c.closed[0]]
                if what == 0 or not alive:
                    c = Conn()
                    c.accepted = c.busy = c.failed = False
                    c.sent = c.served = 0
                    env.clients.append(c)
                    ls.backlog.append(c)
                else:
                    c = alive[it.choose(len(alive)) if i is None else i]
                    if what == 1:
                        if not c.closed[1]:
                            c.q[1].append((1, 1))
                            c.sent += 1
                    else:
                        c.closed[0] = True
                if k < len(first) or it.choose(2):
                    quiet()
            if it.choose(2):
                for c in env.clients:      # clients waiting for their turn do not occupy the threads
                    if not c.closed[0] and not c.closed[1] and c.sent == c.served and it.choose(2):
                        c.q[1].append((1, 1))
                        c.sent += 1
                quiet()
                check(env, ls, its)
            # a function waiting for its client ends by its own timeout
            env.down = True
            C(it, "server_free", sv)
            for w in its[1:]:
                if w.job and not w.proc.done:
                    raise Cut("a thread of the server is still running")
            if not ls.closed:
                raise Cut("the listening socket is never closed")
            for c, side in it.sim.fds.values():
                if isinstance(c, Conn) and (side == 1 or getattr(c, "signal", False)) and not c.closed[side]:
                    raise Cut("a connection is never closed")
            if it.sim.__dict__.get("locks"):
                raise Cut("a lock is still held")
            for o in live:
                if not o.freed and o.kind != "error":
                    raise Cut("a %s is never released by the server" % o.kind)
        S = mpisim.Sim(its, main)
        S.free_workers = its[1:]
        S.run()
    return body


def check(env, ls, its):
    """nothing can happen any more without the clients"""
    busy = [c for c in env.clients if c.busy]
    if len(busy) == len(its) - 1:
        return          # all threads wait for their clients
    if ls.backlog:
        raise Cut("a connection is never accepted")
    for c in env.clients:
        if c.closed[0] and not c.closed[1]:
            raise Cut("a connection closed by the client is never closed by the server")
        if c not in env.lost and not c.closed[0] and c.served != c.sent:
            raise Cut("%d of %d requests of a connection are handled" % (c.served, c.sent))
    n = len(env.open()) - len(busy)
    if n > env.limit:
        raise Cut("%d connections are kept although the limit is %d" % (n, env.limit))


# messenger
def messages(n, f, fails=0, timing=True, **conf):
    def body(it0):
        its = [SInterp(it0.choose, it0) for _ in range(n)]
        left = [fails]
        sh = {"done": set()}

        def refuse():
            if left[0] and it0.choose(2):
                left[0] -= 1
                return True
            return False

        def proc(it, rank):
            t = Node(it, rank, sh)
            f(t)
            run_pools(it)
            if f is not sc_never:
                t.all_done()
            sh["done"].add(rank)
            it.proc.block(lambda: all(r in sh["done"] for r in range(n)), "end")
            C(it, "messenger_free", t.m)
            sh["done"].add(("free", rank))
            it.proc.block(lambda: all(("free", r) in sh["done"] for r in range(n)), "end")
            t.finish()
        for r, it in enumerate(its):
            setup(it, it0)
            config(it, **{k: (v[r] if isinstance(v, tuple) else v) for k, v in conf.items()})
            it.limits = {k: (v[r] if isinstance(v, tuple) else v) for k, v in conf.items()}
            it.limits.setdefault("outbox_size", 1 << 60)
            it.limits.setdefault("inbox_size", 1 << 60)
            it.refuse = refuse
            it.now = (lambda: it0.choose(2)) if timing else (lambda: 0)
        S = mpisim.Sim(its, proc)
        for p in S.procs:
            s = Obj("listener")
            p.it.listener = s
        S.started = 0
        S.run()
    return body


class Node:
    def __init__(self, it, rank, sh):
        self.it, self.rank, self.sh = it, rank, sh
        self.m = C(it, "messenger_new", P(it.listener))
        sh["done"].add(("up", rank))
        it.proc.block(lambda: all(("up", r) in sh["done"] for r in range(len(it.sim.procs))), "start")
        self.own, self.heads = [], []

    def bytes(self, name, n=8):
        b = by(self.it, name, n)
        self.own.append(b)
        return b

    def q(self):
        e = glib.q_new(self.it, [])
        self.own.append(e)
        return e

    def held(self, box):
        """bytes of the messages in the stores: sent by us or by others"""
        own = {glib.key(self.it, o) for o in self.heads}
        n = 0
        for t in glib.live(self.it):
            if t.kind == "hash table" and not t.freed:
                n += sum(v[1].n for k, (_, v) in t.tab.items() if v not in (NULL, 0) and (k in own) == (box == "outbox"))
        return n

    def head(self, name):
        h = self.bytes("h" + name)
        self.heads.append(h)
        return h

    def limits(self):
        c = self.it.limits
        if self.held("outbox") > c["outbox_size"]:
            raise Cut("task %d goes on sending although %d bytes wait for being sent, limit is %d" % (self.rank, self.held("outbox"), c["outbox_size"]))

    def push(self, to, name, n=8):
        C(self.it, "messenger_push", self.m, to, self.head(name), self.bytes("b" + name, n))
        self.limits()

    def send(self, to, name, ok=True, n=8):
        e = self.q()
        C(self.it, "messenger_send", self.m, to, self.head(name), self.bytes("b" + name, n), e)
        if bool(e[1].q) == ok:
            raise Cut("sending a message %s" % ("fails" if ok else "to a task that cannot be reached succeeds"))

    def get(self, frm, name, ok=True, n=8):
        e = self.q()
        r = C(self.it, "messenger_get", self.m, frm, self.bytes("h" + name), e)
        if not ok:
            if r not in (NULL, 0) or not e[1].q:
                raise Cut("a message never sent is received")
            return
        if r in (NULL, 0) or e[1].q:
            raise Cut("task %d does not get a message sent to it" % self.rank)
        if not same(self.it, r, self.bytes("b" + name, n)):
            raise Cut("task %d gets a message with other content" % self.rank)
        glib.unref(self.it, [r])

    def all_done(self):
        self.sh["done"].add(("all", self.rank))
        self.it.proc.block(lambda: all(("all", r) in self.sh["done"] for r in range(len(self.it.sim.procs))), "end")
        for b in ("inbox", "outbox"):
            if self.held(b):
                raise Cut("task %d: a message stays in the %s although it was received" % (self.rank, b))

    def finish(self):
        it = self.it
        for o in self.own:
            if o[1].kind == "queue":
                C(it, "errors_free", o)
            else:
                glib.unref(it, [o])
        for o in glib.live(it):
            if getattr(o, "side", None) == 0 and not o.conn.closed[0]:
                raise Cut("task %d: a connection is never closed" % self.rank)
        no_leak(it, [x for x in glib.live(it) if getattr(x, "side", 0) == 1])


def sc_push(t):
    if t.rank == 0:
        t.push(1, "1")
        t.push(1, "2", 16)
    else:
        t.get(0, "1")
        t.get(0, "2", n=16)


def sc_reverse(t):
    if t.rank == 0:
        t.push(1, "1")
        t.push(1, "2")
        t.push(1, "3")
    else:
        t.get(0, "3")
        t.get(0, "1")
        t.get(0, "2")


def sc_exchange(t):
    o = 1 - t.rank
    t.push(o, "to%d" % o)
    t.get(o, "to%d" % t.rank)
    t.push(o, "again%d" % o)
    t.get(o, "again%d" % t.rank)


def sc_send(t):
    if t.rank == 0:
        t.send(1, "1")
        t.push(1, "2")
        t.send(1, "3")
    else:
        t.get(0, "1")
        t.get(0, "2")
        t.get(0, "3")


def sc_send_first(t):
    """a synchronous send does not need a receiver waiting"""
    if t.rank == 0:
        t.send(1, "1")
        t.sh["sent"] = True
    else:
        t.it.proc.block(lambda: t.sh.get("sent"), "start")
        t.get(0, "1")


def sc_flood(t):
    """messages nobody asked for"""
    if t.rank == 0:
        for k in range(4):
            t.push(1, str(k))
        run_pools(t.it)
        t.sh["sent"] = True
    else:
        t.it.proc.block(lambda: t.sh.get("sent"), "start")
        if t.held("inbox") > t.it.limits["inbox_size"]:
            raise Cut("task 1 stores %d bytes of messages not requested, limit is %d" % (t.held("inbox"), t.it.limits["inbox_size"]))
        for k in (2, 0, 3, 1):
            t.get(0, str(k))


def sc_never(t):
    if t.rank == 1:
        t.get(0, "1", ok=False)
        t.send(7, "2", ok=False)


def sc_ring(t):
    a, b = (t.rank + 1) % 3, (t.rank + 2) % 3
    t.push(a, "f%d" % t.rank)
    t.push(b, "b%d" % t.rank)
    t.get(b, "f%d" % b)
    t.get(a, "b%d" % a)


ANCHOR = {"message store": "laik_tcp_map_try", "socket transfer": "laik_tcp_socket_receive_data", "connection cache": "laik_tcp_client_connect",
          "server": "laik_tcp_server_new", "delivery": "laik_tcp_messenger_get"}


def families(thorough):
    F = [("message store", "3 operations, limit %d, sizes %s" % (l, s), stores(3, l, s)) for l, s in ((16, (8, 16)), (8, (8, 16)), (0, (0, 8)), (24, (8, 16)))]
    F += [("message store", "4 operations, limit %d" % l, stores(4, l, (8, 16))) for l in ((16, 24) if thorough else (16,))]
    F += [("message store", "blocking", blocked), ("message store", "waiting", waiting)]
    F += [("socket transfer", "%d bytes, partial transfers and errors" % n, transfer(n)) for n in (0, 1, 2, 3)]
    F += [("socket transfer", "connection ends early", single(broken)), ("socket transfer", "messages and numbers", single(strings))]
    F += [("connection cache", "sequences of uses, limit %d" % l, cache(6 if thorough else 5, l)) for l in (1, 2)]
    for l in (1, 2, 3):
        F.append(("connection cache", "two connections kept, limit %d" % l, cache(5 if thorough else 4, l, ((0, 0), (0, 1), (1, None), (1, None)))))
    F.append(("connection cache", "three connections kept", cache(5 if thorough else 4, 3, ((0, 0), (0, 1), (0, 0), (1, None), (1, None), (1, None)))))
    n = 4 if thorough else 3
    F += [("server", "one thread", server(1, 4, n)), ("server", "one thread, two clients", server(1, 4, n, ((0, None), (1, 0), (0, None), (1, 1)))),
          ("server", "two threads", server(2, 4, n)), ("server", "two threads, two clients", server(2, 4, n, ((0, None), (1, 0), (0, None), (1, 1)))),
          ("server", "one thread, at most one connection", server(1, 1, n)), ("server", "one thread, at most two connections", server(1, 2, n, ((0, None), (1, 0), (0, None), (1, 1)))),
          ("server", "failing requests", server(1, 4, n - 1, ((0, None), (1, 0)), 1)), ("server", "failing connections", server(1, 4, n, (), 0, 1))]
    sc = [("two messages", 2, sc_push), ("three messages in other order", 2, sc_reverse), ("exchange", 2, sc_exchange), ("synchronous", 2, sc_send),
          ("synchronous before receive", 2, sc_send_first), ("three tasks", 3, sc_ring)]
    for nm, n, f in sc:
        for i, o in ((100, 100), (0, 100), (8, 100), (8, 8), (0, 0), (100, 0)):
            if f in (sc_exchange, sc_ring, sc_reverse) and o == 0 and i == 0:
                continue        # both wait for space first: allowed
            F.append(("delivery", "%s, inbox %d, outbox %d" % (nm, i, o), messages(n, f, timing=n < 3 or i > 0, inbox_size=i, outbox_size=o)))
        F.append(("delivery", nm + ", connections fail", messages(n, f, fails=2, timing=False, inbox_size=8, outbox_size=100)))
        F.append(("delivery", nm + ", few connections", messages(n, f, timing=False, client_connections=0)))
    for i in (0, 8, 16, 24, 100):
        F.append(("delivery", "messages not requested, inbox %d" % i, messages(2, sc_flood, inbox_size=i, outbox_size=100)))
    F.append(("delivery", "message never sent", messages(2, sc_never, timing=False)))
    return F


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, SInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
