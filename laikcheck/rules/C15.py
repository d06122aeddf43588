"""TCP2 backend: processes joining and leaving.

Programs whose world changes are interpreted completely, every process on its own
memory, connected by byte streams: start of 1-4 processes, joins of up to two further
processes, removals requested by an external client, several changes after another.
After every change all processes must agree on the members of the world, own numbers,
mappings to and from the previous world, epoch and phase; container values written
before the change are found unchanged by their new owners; nothing blocks."""
from .. import model, netsim
from ..absint import Abort, Cut, Obj, NULL, UNDEF, UNINIT, is_ptr
from ..build import AnalysisError
from ..model import P, fo, rd, setf
from ..netsim import NInterp, Net, Sim
from . import C16
from .C16 import App, blk, check, full

M = None
THOROUGH = False


class World:
    """what one process sees of its world"""

    def __init__(self, A, k):
        call, it = A.call, A.it
        w = call("laik_world", A.inst)
        self.w, self.k = w, k
        self.size = call("laik_size", w)
        self.me = call("laik_myid", w)
        if not isinstance(self.size, int) or not 1 <= self.size <= 8:
            raise Cut("world of %r processes" % (self.size,))
        self.lids = [call("laik_group_locationid", w, i) for i in range(self.size)]
        self.lid = call("laik_mylocationid", A.inst)
        self.phase = call("laik_phase", A.inst)
        self.epoch = call("laik_epoch", A.inst)
        p = call("laik_group_parent", w)
        self.parent = None
        if p != NULL and p != 0:
            n = call("laik_size", p)
            self.parent = p
            self.plids = [call("laik_group_locationid", p, i) for i in range(n)]
            self.pme = call("laik_myid", p)
            o, b = it.deref(w)

            def arr(f, n):
                q = rd(o, b + fo("_Laik_Group", f)[0])
                return [it.loadm(("p", q[1], q[2] + 4 * i), 4, "i32") for i in range(n)]
            self.to = arr("toParent", self.size)
            self.fro = arr("fromParent", n)


class Hist:
    """shared by the processes of a simulation"""

    def __init__(self, n):
        self.n = n
        self.views = {}          # change -> {location id: view}
        self.start = 0           # joining processes allowed to start
        self.locs = []           # (process, location id, text) seen


def see(H, A, k):
    v = World(A, k)
    d = H.views.setdefault(k, {})
    if v.lid in d:
        raise Cut("two processes with location id %r after change %d" % (v.lid, k))
    d[v.lid] = v
    v.loc = A.it.str(A.call("laik_mylocation", A.inst))
    return v


def verify(H, k, want, removed, joined, ep):
    """views of all processes involved in change k"""
    vs = H.views.get(k, {})
    first = None
    for lid, v in sorted(vs.items()):
        w = "process with location id %r after change %d: " % (lid, k)
        if set(v.lids) != want:
            raise Cut(w + "the world has the location ids %s, expected %s" % (v.lids, sorted(want)))
        if len(set(v.lids)) != v.size:
            raise Cut(w + "a location id appears twice: %s" % (v.lids,))
        first = first or v
        if v.lids != first.lids:
            raise Cut(w + "numbering of processes differs: %s and %s" % (v.lids, first.lids))
        me = v.lids.index(lid) if lid in v.lids else -1
        if v.me != me:
            raise Cut(w + "own number is %r, expected %d" % (v.me, me))
        if v.phase != k:
            raise Cut(w + "phase is %r, expected %d" % (v.phase, k))
        if v.epoch != ep:
            raise Cut(w + "epoch is %r, expected %d" % (v.epoch, ep))
        if k and (removed or joined):
            if v.parent is None:
                raise Cut(w + "the world has no parent group")
            if sorted(v.plids) != sorted((want | removed) - joined):
                raise Cut(w + "the previous world is %s, expected %s" % (v.plids, sorted((want | removed) - joined)))
            if v.plids != next(iter(H.views[k].values())).plids:
                raise Cut(w + "numbering of the previous world differs")
            pme = v.plids.index(lid) if lid in v.plids else -1
            if v.pme != pme:
                raise Cut(w + "own number in the previous world is %r, expected %d" % (v.pme, pme))
            to = [v.plids.index(l) if l in v.plids else -1 for l in v.lids]
            fro = [v.lids.index(l) if l in v.lids else -1 for l in v.plids]
            if v.to != to:
                raise Cut(w + "numbers in the previous world are %s, expected %s" % (v.to, to))
            if v.fro != fro:
                raise Cut(w + "numbers of previous processes are %s, expected %s" % (v.fro, fro))
    if set(vs) != want | removed:
        raise Cut("after change %d processes %s are running, expected %s" % (k, sorted(vs), sorted(want | removed)))
    if len({v.loc for v in vs.values()}) != len(vs):
        raise Cut("location strings are not unique: %s" % sorted(v.loc for v in vs.values()))


def client(it, text):
    """an external program connects to the first process (@: another one), sends text and stays connected"""
    port = 7777
    if text.startswith("@"):
        text, port = text[1:], max([p for p in it.net.ports if isinstance(p, int)], default=None)
    l = it.net.ports.get(port)
    if l is None:
        raise Cut("the first process does not listen any more")
    x, y = netsim.link()
    y.inbuf += [ord(c) for c in text]
    l.pending.append(y)
    return x


def blocked(H, sim, n):
    """the n first joining processes have asked to join, or are members"""
    def cond():
        for p in sim.procs[H.n:H.n + n]:
            if p.err is not None:
                return True
            if not (p.done or p.joined or p.cond is not None and p.what == "select"):
                return False
        return True
    return cond


def f_world(n, changes, m=7, values=True, finish=True, vs=None, bins=None, sync=False, early=None, es=8, ext=None, startup=None, anytime=False, mid=None):
    """n processes at start; changes: list of (number of joining processes, location ids to remove[, opts])"""
    total = n + sum(c[0] for c in changes)
    K = len(changes)

    def body(it0):
        vv = vs or (C16.TVAR if THOROUGH else C16.VAR)
        pol, chunk, ready = vv[it0.choose(len(vv))]
        net = Net(chunk, ready)
        H = Hist(n)
        H.socks = []
        if anytime:
            H.start = total - n
        its = [NInterp(it0.choose) for _ in range(total)]
        for it in its:
            it.covered = it0.covered

        def proc(it, idx):
            it.proc.joined = idx < n
            j = idx - n
            if j >= 0:
                it.wait(lambda: H.start > j and 0 in H.views.get(0, ()), "start of the harness")
            if startup and idx:
                # clients connect to the first process while it starts
                it.wait(lambda: 7777 in net.ports, "listen")
                if idx == 1:
                    for t in startup:
                        c = client(it, t.rstrip("!"))
                        c.closed = t.endswith("!")
                        H.socks.append(c)
            A = App(it, idx, n, bins[idx] if bins else True)
            A.hist = H
            it.proc.joined = True
            it.app = A
            k = A.call("laik_phase", A.inst)
            if not isinstance(k, int) or not 0 <= k <= K or (k == 0) != (j < 0):
                raise Cut("process %d starts in phase %r" % (idx, k))
            v = see(H, A, k)
            if early and k == 0 and v.lid == 0:
                H.socks.append(client(it, early))
            sp = A.space((m,))
            d = A.container(sp, es) if values else None
            mine = None

            def enter(k, v, old):
                """container values after change k"""
                if not values:
                    return
                rs = blk(v.size, m, k)
                p = A.part(v.w, sp, rs)
                pl = v.plids if v.parent is not None else None
                flow = "None" if old is None else "Preserve"
                A.switch(d, p, flow, "None")
                cs = A.cells(d, rs[v.me]) if v.me >= 0 else {}
                if old is not None:
                    check(v.lid, A.read(cs), old[0], ["K%dL%d:" % (k - 1, l) for l in old[1]], what=" (after change %d)" % k)
                A.write(cs, "K%dL%d:" % (k, v.lid))
                return rs, v.lids
            if k == 0:
                mine = enter(0, v, None)
            else:
                prs = blk(len(v.plids), m, k - 1)
                if values:
                    pp = A.part(v.parent, sp, prs)
                    A.call("laik_set_initial_partitioning", d, pp)
                mine = enter(k, v, (prs, v.plids))
                if sync:
                    locations(A, v)
                if finish:
                    A.call("laik_finish_world_resize", A.inst)
            if k == 0 and sync:
                locations(A, v)
            while k < K:
                k += 1
                if v.lid == 0:
                    if anytime:
                        if k == K:
                            it.wait(blocked(H, it.sim, H.start), "joining processes")
                    else:
                        H.start += changes[k - 1][0]
                        it.wait(blocked(H, it.sim, H.start), "joining processes")
                    for l in [] if startup and k == 1 else changes[k - 1][1]:
                        H.socks.append(client(it, "cutoff ^L%d:\n" % l))
                    for t in (ext or {}).get(k, []):
                        c = client(it, t.rstrip("!"))
                        c.closed = t.endswith("!")     # closes the connection
                        H.socks.append(c)
                old = v
                w = A.call("laik_allow_world_resize", A.inst, k)
                if w != A.call("laik_world", A.inst):
                    raise Cut("the returned group is not the world")
                v = see(H, A, k)
                if v.lid == 0:
                    for t in (mid or {}).get(k, []):
                        c = client(it, t.rstrip("!"))
                        c.closed = t.endswith("!")
                        H.socks.append(c)
                if not anytime and (w == old.w) != (not changes[k - 1][0] and not changes[k - 1][1]):
                    raise Cut("location id %d: change %d %s" % (v.lid, k, "not seen" if w == old.w else "without a request"))
                mine = enter(k, v, mine)
                if sync and v.me >= 0:
                    locations(A, v)
                if finish:
                    A.call("laik_finish_world_resize", A.inst)
                if v.me < 0:
                    break
            A.call("laik_finalize", A.inst)
        Sim(its, proc, net, pol).run()
        own = {l: v.loc for d in H.views.values() for l, v in d.items()}
        for a, b, t in H.locs:
            if own.get(b) != t:
                raise Cut("location id %d sees location '%s' of %d, which is '%s'" % (a, t, b, own.get(b)))
        lids = set(range(n))
        verify(H, 0, lids, set(), set(), 0)
        ep, nxt = 0, n
        for k, c in enumerate(changes, 1):
            j = c[0]
            if anytime:
                # joining processes are accepted when they asked before the change, all at the last one
                v = H.views.get(k, {}).get(0)
                j = len([l for l in v.lids if l >= nxt]) if v else 0
                if k == K:
                    j = total - nxt
            joined = set(range(nxt, nxt + j))
            nxt += j
            removed = set(c[1])
            lids = (lids | joined) - removed
            ep += bool(joined or removed)
            verify(H, k, lids, removed, joined, ep)
    return body


def locations(A, v):
    A.call("laik_sync_location", A.inst)
    for i, l in enumerate(v.lids):
        p = A.call("laik_group_location", v.w, i)
        if p == NULL or p == 0:
            raise Cut("location id %d does not know the location of %d after the synchronisation" % (v.lid, l))
        A.hist.locs.append((v.lid, l, A.it.str(p)))


ANCHOR = {"start": "laik_init_tcp2", "join": "tcp2_resize", "leave": "tcp2_resize", "join and leave": "tcp2_resize", "locations": "laik_sync_location", "requests": "got_cmd", "join at any time": "tcp2_resize"}


ANY = [(("lcg", s), None, "all") for s in range(1, 7)] + [(("rr", 0), None, "all"), (("high", 0), None, "all")]


def families(thorough):
    out = []

    def W(rule, n, changes, **k):
        name = "%d process%s" % (n, "" if n == 1 else "es")
        for c in changes:
            name += ", " + (" ".join(["+%d" % c[0]] * bool(c[0]) + ["-L%d" % l for l in c[1]]) or "no change")
        for a, b in k.items():
            if a in ("bins", "finish", "sync", "values", "early", "ext", "startup", "anytime", "mid"):
                name += ", %s=%s" % (a, short(b))
        out.append((rule, name, f_world(n, changes, **k)))
    for n in (1, 2, 3, 4):
        W("start", n, [])
    W("start", 2, [(0, [])])
    W("join", 1, [(1, [])])
    W("join", 2, [(1, [])])
    W("join", 1, [(2, [])])
    W("join", 2, [(1, []), (1, [])])
    W("leave", 2, [(0, [1])])
    W("leave", 3, [(0, [1])])
    W("leave", 3, [(0, [2]), (0, [1])])
    W("leave", 3, [(0, [1, 2])])
    W("join and leave", 2, [(1, [1])])
    W("join and leave", 4, [(1, [1, 2, 3])])
    W("join and leave", 2, [(1, []), (0, [1]), (1, [])])
    W("join and leave", 3, [(1, [2]), (1, [3, 1])], vs=C16.VSHORT)
    W("join", 2, [(1, []), (1, [])], finish=False, vs=C16.VSHORT)
    W("leave", 3, [(0, [1]), (0, [2])], finish=False, vs=C16.VSHORT)
    W("join", 2, [(0, []), (1, []), (0, [])], vs=C16.VSHORT)
    W("leave", 2, [(0, [1]), (0, [])], vs=C16.VSHORT)
    W("join and leave", 2, [(1, [1])], bins=(True, False, False), vs=C16.VSHORT)
    W("leave", 2, [(0, [1])], early="cutoff ^L1:\n", vs=C16.VSHORT)
    W("requests", 3, [(0, [1])], ext={1: ["cutoff ^L1:\n!", "cutoff ^L[01]:\n"]}, vs=C16.VSHORT)
    W("requests", 2, [(0, []), (1, []), (0, [])], ext={1: ["register other otherhost 1234\n!"]}, vs=C16.VSHORT)
    W("requests", 2, [(1, [])], ext={1: ["register other otherhost 1234\n!", "status\nhelp\nquit\n"]}, vs=C16.VSHORT)
    W("requests", 2, [(0, [1]), (0, [])], ext={1: ["status", "quit\n!", "status\n\x04"], 2: ["quit!", "cutoff [\n", "cutoff\n", "register\n", "x\n"]}, vs=C16.VSHORT)
    W("requests", 3, [(0, [1]), (0, [])], startup=["cutoff ^L1:\ncutoff ^L1:\n"], vs=C16.VSHORT)
    W("requests", 3, [(0, [2]), (0, [])], startup=["help\n", "status\n!", "cutoff ^L2:\n"], vs=C16.VSHORT)
    W("requests", 2, [(1, []), (0, [])], ext={1: ["register a b 12\nregister a b 12\n!", "cutoff x\ncutoff y\nquit\n"]}, vs=C16.VSHORT)
    W("requests", 2, [(1, []), (0, [])], ext={1: ["myid 55\n", "myid -3\n!", "myid 0\n"], 2: ["myid\n", "myid x\n", "ok\nkvs\n"]}, vs=C16.VSHORT)
    W("requests", 2, [(1, []), (0, [])], ext={1: ["B\x02\0ab", "B\x20\0ab!", "B"], 2: ["\n\n \n", "B\0\0status\n"]}, vs=C16.VSHORT)
    W("requests", 2, [(1, []), (0, [])], ext={1: ["x" * 9000]}, vs=[v for v in C16.VAR if v[1] is None][:3])
    W("requests", 3, [(1, [1]), (0, [])], ext={1: ["@status\ncutoff ^L2:\n", "@register a b 12\n!", "@myid 7\nmyid 2\n", "@B\x02\0ab"], 2: ["@help\nquit\n"]}, vs=C16.VSHORT)
    W("requests", 3, [(0, []), (0, [])], startup=["help\nquit\n", "myid 1\n!", "B\x02\0ab!", "phase 3\nid 1 a b 3\n"], vs=C16.VSHORT)
    W("requests", 2, [(1, []), (0, [])], ext={1: ["register " + "x" * 80 + " " + "y" * 80 + " 99999\n!"]}, vs=C16.VSHORT)
    W("requests", 3, [(0, [1]), (0, [2])], mid={1: ["cutoff ^L1:\n!", "status\n"]}, vs=C16.VSHORT)
    W("requests", 2, [(1, [1]), (0, [])], mid={1: ["cutoff ^L1:\n"]}, vs=C16.VSHORT)
    for c in ([(1, []), (0, [])], [(2, []), (0, [1]), (0, [])], [(1, [1]), (1, [2])]):
        W("join at any time", 2 if len(c[0][1]) == 0 else 3, c, anytime=True, vs=ANY)
    W("locations", 3, [], sync=True)
    W("locations", 2, [(1, [])], sync=True)
    W("locations", 3, [(0, [1])], sync=True)
    W("locations", 2, [(1, [1]), (1, [])], sync=True, vs=C16.VSHORT)
    return out


def short(b):
    t = str(b)
    return t if len(t) < 120 else t[:50] + "..." + t[-10:]


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, NInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    C16.M = M
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
