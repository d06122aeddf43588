"""Process groups: shrinking, unions, moving partitionings between groups, and
containers switched across groups.

Creation of groups is interpreted with opaque location ids in every order; all
chains of shrinking steps with every subset of removed processes (also named
twice) and unions of the results are enumerated, from the view of every process:
size, own process number, location of every number, parent.  Partitionings moved
to a parent, child or union group and back keep every range with its process.
Containers are switched between a group and groups shrunk from it by all processes
over the message passing model (MPI and TCP backend): values as without groups."""
import itertools
from .. import model, mpisim
from ..absint import Abort, Cut, Obj, NULL, is_ptr, sym
from ..model import P, add, chain, fo, rd, setf
from . import C06, C08, C12
from .C06 import R, fix
from .C12 import INITS, MInterp, MWorld, alls, blocks, overlap, rblocks, single, verify

M = None
THOROUGH = False


class G:
    """a group: object and its members (indexes of processes) by definition"""

    def __init__(self, ptr, members):
        self.ptr, self.members = ptr, members


class GWorld:
    def __init__(self, it, n, me, perm):
        """perm: order of the location ids of the processes"""
        self.it, self.n, self.me = it, n, me
        names = ["l%d" % p for p in perm]
        it.order.add(-1, -1, names[0])
        chain(it, *names)
        self.lid = [sym("l%d" % i) for i in range(n)]
        self.inst = Obj("inst")
        be = Obj("backend")
        setf(be, "_Laik_Backend", updateGroup=NULL, name=P(Obj("n")))
        setf(self.inst, "_Laik_Instance", backend=P(be), group_count=0, mylocationid=self.lid[me], world=NULL, epoch=0)
        g = it.call(M.fn("laik_create_group").name, [P(self.inst), n])
        o, b = it.deref(g)
        setf(o, "_Laik_Group", b, size=n, myid=me)
        loc = rd(o, b + fo("_Laik_Group", "locationid")[0])
        for i in range(n):
            it.storem(("p", loc[1], loc[2] + 4 * i), 4, self.lid[i])
        self.world = G(g, list(range(n)))
        self.check(self.world, "world")

    def shrink(self, g, removed):
        lst = Obj("list")
        for i, r in enumerate(removed):
            lst.cells[4 * i] = (4, r)
        p = self.it.call(M.fn("laik_new_shrinked_group").name, [g.ptr, len(removed), P(lst)])
        h = G(p, [m for i, m in enumerate(g.members) if i not in removed])
        if h.ptr == g.ptr:
            raise Cut("a shrinked group is the group itself")
        self.check(g, "group after it is shrinked")
        self.check(h, "shrinked group", g)
        return h

    def union(self, g, h):
        p = self.it.call(M.fn("laik_new_union_group").name, [g.ptr, h.ptr])
        ms = sorted(set(g.members) | set(h.members), key=lambda m: self.lidpos(m))
        u = None
        for x in (g, h):
            if p == x.ptr:
                u = G(p, x.members)
                if set(ms) != set(x.members):
                    raise Cut("the union of two groups is one of them, but processes are missing")
        if u is None:
            u = G(p, ms)
        self.check(g, "first group of a union")
        self.check(h, "second group of a union")
        self.check(u, "union group")
        return u

    def lidpos(self, m):
        return sum(1 for i in range(self.n) if i != m and self.it.rel("lt", self.lid[i], self.lid[m]))

    def check(self, g, what, parent=None):
        it = self.it
        n = it.call(M.fn("laik_size").name, [g.ptr])
        if n != len(g.members):
            raise Cut("%s has %r instead of %d processes" % (what, n, len(g.members)))
        me = it.call(M.fn("laik_myid").name, [g.ptr])
        want = g.members.index(self.me) if self.me in g.members else -1
        if me != want:
            raise Cut("%s: own process number is %r instead of %d" % (what, me, want))
        for i, m in enumerate(g.members):
            l = it.call(M.fn("laik_group_locationid").name, [g.ptr, i])
            if not it.same(l, self.lid[m]):
                raise Cut("%s: process %d is at location %r instead of %r" % (what, i, l, self.lid[m]))
        if it.call(M.fn("laik_inst").name, [g.ptr]) != P(self.inst):
            raise Cut("%s belongs to another instance" % what)
        if parent is not None and it.call(M.fn("laik_group_parent").name, [g.ptr]) != parent.ptr:
            raise Cut("%s: wrong parent" % what)

    # ---- partitionings -------------------------------------------------------
    def part(self, g, per_member):
        """per_member: process -> list of (lo, hi, mapNo)"""
        it = self.it
        S = self.S = model.Setup(it, 1, len(g.members), ((sym("s0"),), (sym("e0"),)))
        o, b = it.deref(g.ptr)
        p = S.partitioning("part", o, [per_member.get(m, []) for m in g.members])
        setf(p, "_Laik_Partitioning", group=g.ptr)
        # arrays as allocated by the code: exact size
        e = rd(p, fo("_Laik_Partitioning", "rangeList")[0])
        rl = rd(e[1], fo("_RangeList_Entry", "ranges")[0])
        off = rd(rl[1], fo("_Laik_RangeList", "off")[0])
        off[1].size = 4 * (len(g.members) + 1)
        return p

    def own_only(self, g, per_member):
        """a partitioning of which only the ranges of the own process are known"""
        p = self.part(g, {m: r for m, r in per_member.items() if m == self.me})
        e = rd(p, fo("_Laik_Partitioning", "rangeList")[0])
        setf(e[1], "_RangeList_Entry", e[2], info=M.enum_const("LAIK_RI_SINGLETASK"), filter_tid=g.members.index(self.me))
        return p

    def migrate(self, p, g):
        self.it.call(M.fn("laik_partitioning_migrate").name, [P(p), g.ptr])

    def ranges(self, p, g, per_member, what, own=False):
        """every process of the group has exactly its own ranges"""
        it = self.it
        if rd(p, fo("_Laik_Partitioning", "group")[0]) != g.ptr:
            raise Cut("%s: partitioning is not defined for the group it was moved to" % what)
        o, b = it.deref(g.ptr)
        me = rd(o, b + fo("_Laik_Group", "myid")[0])
        for i, m in enumerate(g.members):
            if own and m != self.me:
                continue
            setf(o, "_Laik_Group", b, myid=i)
            want = per_member.get(m, [])
            n = it.call(M.fn("laik_my_rangecount").name, [P(p)])
            if n != len(want):
                raise Cut("%s: process %d has %r instead of %d ranges" % (what, i, n, len(want)))
            got = []
            for k in range(n):
                r = it.call(M.fn("laik_my_range").name, [P(p), k])
                q = it.call(M.fn("laik_taskrange_get_range").name, [r])
                lo = it.loadm(("p", q[1], q[2] + fo("_Laik_Range", "from")[0]), 8, "i64")
                hi = it.loadm(("p", q[1], q[2] + fo("_Laik_Range", "to")[0]), 8, "i64")
                got.append((lo, hi, it.call(M.fn("laik_taskrange_get_mapNo").name, [r])))
            for lo, hi, mp in want:
                if not any(it.same(lo[0], a) and it.same(hi[0], c) and mp == k for a, c, k in got):
                    raise Cut("%s: process %d has the ranges %s instead of %s" % (what, i, got, want))
        setf(o, "_Laik_Group", b, myid=me)


def subsets(xs):
    for k in range(len(xs) + 1):
        yield from itertools.combinations(xs, k)


def lists(n):
    """what can be removed from n processes (not all): every subset, also in another order and named twice"""
    out = []
    for s in subsets(range(n)):
        if len(s) < n:
            out.append(s)
            if len(s) > 1:
                out.append(s[::-1])
            if s:
                out.append(s + s[:1])
    return out


def perms(n):
    return list(itertools.permutations(range(n)))


def layout(g, keep):
    """ranges of the members to keep: one or two in 1-d, in an order not that of the processes"""
    out = {}
    ms = [m for m in g.members if m in keep]
    k = 0
    for j, m in enumerate(ms):
        rs = []
        for mp in range(1 + (j % 2)):
            rs.append(((sym("b%d" % k),), (sym("b%d" % (k + 1)),), mp))
            k += 1
        out[m] = rs
    return out, k


def order_syms(it, k):
    chain(it, *(["s0"] + ["b%d" % i for i in range(k + 1)] + ["e0"]))


def there_and_back(W, a, b, what):
    """partitionings owned by processes in both groups, moved from a to b and back"""
    both = [m for m in a.members if m in b.members]
    for keep in ([both] if len(both) < 2 else [both, both[:1], both[1:]]):
        per, k = layout(a, keep)
        order_syms(W.it, k)
        p = W.part(a, per)
        W.ranges(p, a, per, "before it is moved")
        W.migrate(p, b)
        W.ranges(p, b, per, "moved to %s" % what)
        W.migrate(p, a)
        W.ranges(p, a, per, "moved to %s and back" % what)
        if W.me in both:
            p = W.own_only(a, per)
            W.migrate(p, b)
            W.ranges(p, b, per, "own ranges moved to %s" % what, True)
            W.migrate(p, a)
            W.ranges(p, a, per, "own ranges moved to %s and back" % what, True)


def f_shrink(n, me, steps, move):
    def body(it):
        W = GWorld(it, n, me, range(n))
        g = W.world
        hist = []
        for k in range(steps):
            if len(g.members) < 2 and k:
                break
            ls = lists(len(g.members)) if k == 0 or THOROUGH else [s for s in lists(len(g.members)) if len(s) <= 2]
            s = ls[it.choose(len(ls))]
            hist.append(s)
            h = W.shrink(g, s)
            if move:
                there_and_back(W, g, h, "the shrinked group")
                there_and_back(W, h, g, "the parent group")
            for x in [W.world] + [W.world, g, h]:
                W.check(x, "group")
            g = h
    return body


def f_union(n, me, move, order):
    def body(it):
        ps = perms(n) if order else [tuple(range(n))]
        W = GWorld(it, n, me, ps[it.choose(len(ps))])
        ls = [s for s in subsets(range(n)) if len(s) < n]
        a = W.shrink(W.world, ls[it.choose(len(ls))])
        b = W.shrink(W.world, ls[it.choose(len(ls))])
        u = W.union(a, b)
        if move:
            for x, nm in ((a, "first"), (b, "second")):
                if x.ptr != u.ptr:
                    o, off = it.deref(u.ptr)
                    if u.ptr in (a.ptr, b.ptr):
                        continue        # siblings are not related
                    there_and_back(W, x, u, "the union group")
                    there_and_back(W, u, x, "the %s group of the union" % nm)
        else:
            # unions with the world
            for x, y in ((W.world, a), (a, W.world), (a, a)):
                v = W.union(x, y)
                if v.ptr not in (W.world.ptr, a.ptr):
                    raise Cut("a new group is created for a union that exists")
    return body


# ---- containers switched across groups ------------------------------------------

class CWorld(MWorld):
    def __init__(self, *a):
        super().__init__(*a)
        self.set(stat=NULL)     # the peak of allocated bytes is not an order comparison

    def shrink(self, g, removed):
        lst = Obj("list")
        for i, r in enumerate(removed):
            lst.cells[4 * i] = (4, r)
        p = self.it.call(M.fn("laik_new_shrinked_group").name, [g.ptr, len(removed), P(lst)])
        h = G(p, [m for i, m in enumerate(g.members) if i not in removed])
        me = self.it.call(M.fn("laik_myid").name, [p])
        if me != (h.members.index(self.myid) if self.myid in h.members else -1):
            raise Cut("process %d has number %r in the shrinked group" % (self.myid, me))
        return h

    def gpart(self, g, ranges):
        """ranges: list per member of g, in the order of the group"""
        self.n += 1
        o, b = self.it.deref(g.ptr)
        p = self.S.partitioning("p%d" % self.n, o, ranges)
        setf(p, "_Laik_Partitioning", group=g.ptr)
        for q in (p,):
            e = rd(q, fo("_Laik_Partitioning", "rangeList")[0])
            rl = rd(e[1], fo("_RangeList_Entry", "ranges")[0])
            off = rd(rl[1], fo("_Laik_RangeList", "off")[0])
            off[1].size = 4 * (len(ranges) + 1)
        p.own = ranges[g.members.index(self.myid)] if self.myid in g.members else []
        p.all = [ranges[g.members.index(m)] if m in g.members else [] for m in range(len(self.it.sim.procs))]
        return p

    def gmaps(self, p):
        if not p.own:
            ms = self.maps()
            if ms:
                raise Cut("process %d has mappings for a group without ranges for it" % self.myid)
            return []
        return self.check_maps(p)


def f_groups(be, n, groups, steps, leave=False):
    """groups: list of (parent index, removed); index 0 is the world.
    steps: (group index, ranges of the members, flow, reduction) - all processes
    call; the application writes own indexes after every step
    leave: processes not in the group of a step do not take part any more"""
    def body(it0):
        conf = {}
        for k, m in ((("ASYNC", 2), ("REDUCE", 2)) if be == "mpi" else (("REDUCE", 2),)):
            conf[k] = it0.choose(m)
        rs, cnt = [], []
        for _, f, _, _ in steps:
            r = f(it0)
            rs += r
            cnt.append(len(r))
        rs, env = fix(it0, rs)
        lists_ = []
        for c in cnt:
            lists_.append(rs[:c])
            rs = rs[c:]
        its = [MInterp(it0.choose, it0) for _ in range(n)]

        def proc(it, rank):
            it.be, it.want_type = be, "laik_Double"
            W = CWorld(it, rank, n, 1, env, INITS[be], conf)
            it0.covered.update(it.covered)
            it.covered = it0.covered
            gs = [G(it.call(M.fn("laik_world").name, [W.inst]), list(range(n)))]
            for par, rem in groups:
                gs.append(W.shrink(gs[par], rem))
            prev = None
            for k, (gi, _, flow, red) in enumerate(steps):
                g = gs[gi]
                if leave and rank not in g.members and (prev is None or not prev.own):
                    return
                p = W.gpart(g, lists_[k])
                if prev is None:
                    flow, red = "None", "None"
                W.switch(p, flow, red)
                W.cur = p
                for q, gq in ((p, g), (prev, prev and prev.g)):
                    if q is not None and rd(q, fo("_Laik_Partitioning", "group")[0]) != gq.ptr:
                        raise Cut("process %d: a partitioning belongs to another group after the switch" % rank)
                p.g = g
                ms = W.gmaps(p)
                if prev is not None and flow == "Preserve":
                    tags = ["%d/P%d" % (k - 1, q) if red != "None" or prev.uniq else "%d" % (k - 1) for q in range(n)]
                    verify(W, ms, prev.all, p.all, tags, None if red == "None" else red, M.enum_const("LAIK_RO_" + red))
                nextred = steps[k + 1][3] if k + 1 < len(steps) else "None"
                p.uniq = nextred != "None"
                W.write(ms, p, "%d/P%d" % (k, rank) if p.uniq else "%d" % k)
                prev = p
        mpisim.Sim(its, proc).run()
    return body


ANCHOR = {"shrinked groups": "laik_new_shrinked_group", "union groups": "laik_new_union_group", "partitionings moved between groups": "laik_partitioning_migrate",
          "containers across groups (mpi)": "laik_switchto_partitioning", "containers across groups (tcp)": "laik_switchto_partitioning"}


def families(thorough):
    out = []
    for me in range(3):
        out.append(("shrinked groups", "three processes, three steps, view of process %d" % me, f_shrink(3, me, 3, False)))
        out.append(("partitionings moved between groups", "three processes shrinked twice, view of process %d" % me, f_shrink(3, me, 2, True)))
        out.append(("union groups", "of groups shrinked from three processes, view of process %d" % me, f_union(3, me, False, True)))
        out.append(("partitionings moved between groups", "unions of groups of three processes, view of process %d" % me, f_union(3, me, True, True)))
    for me in range(4):
        out.append(("shrinked groups", "four processes, two steps, view of process %d" % me, f_shrink(4, me, 2, False)))
        out.append(("union groups", "of groups shrinked from four processes, view of process %d" % me, f_union(4, me, False, thorough)))
        out.append(("partitionings moved between groups", "unions of groups of four processes, view of process %d" % me, f_union(4, me, True, False)))
    if thorough:
        for me in range(5):
            out.append(("shrinked groups", "five processes, two steps, view of process %d" % me, f_shrink(5, me, 2, False)))
            out.append(("partitionings moved between groups", "five processes shrinked, view of process %d" % me, f_shrink(5, me, 1, True)))
    for be in INITS:
        A = lambda name, *a, **k: out.append(("containers across groups (%s)" % be, name, f_groups(be, *a, **k)))
        P_, N_ = "Preserve", "None"
        for rem in ((0,), (1,), (2,)):
            A("three processes without process %d, and back" % rem[0], 3, [(0, rem)],
              [(0, blocks(3, "b"), N_, N_), (1, blocks(2, "c"), P_, N_), (0, blocks(3, "b"), P_, N_)])
        A("three to two processes and on with two", 3, [(0, (0,))], [(0, blocks(3, "b"), N_, N_), (1, blocks(2, "b"), P_, N_), (1, rblocks(2, "b"), P_, N_)], leave=True)
        A("three to one process and on", 3, [(0, (0, 2))], [(0, blocks(3, "b"), N_, N_), (1, alls(1), P_, N_), (1, alls(1), P_, N_), (0, alls(3), P_, N_)])
        A("two steps of shrinking, switch at each", 3, [(0, (1,)), (1, (0,))], [(0, blocks(3, "b"), N_, N_), (1, blocks(2, "c"), P_, N_), (2, alls(1), P_, N_)], leave=True)
        A("two steps of shrinking and back", 3, [(0, (1,)), (1, (0,))], [(0, blocks(3, "b"), N_, N_), (1, rblocks(2, "b"), P_, N_), (2, alls(1), P_, N_), (1, blocks(2, "b"), P_, N_), (0, rblocks(3, "b"), P_, N_)])
        A("sum over a smaller group", 3, [(0, (0,))], [(0, blocks(3, "b"), N_, N_), (1, alls(2), P_, N_), (1, alls(2), P_, "Sum")])
        A("sum of a smaller group for all", 3, [(0, (1,))], [(1, alls(2), N_, N_), (0, alls(3), P_, "Sum")])
        A("sum of all for a smaller group", 3, [(0, (1,))], [(0, alls(3), N_, N_), (1, blocks(2, "b"), P_, "Sum"), (1, alls(2), P_, N_)])
        A("sum of all at one process of a smaller group", 4, [(0, (1,))], [(0, alls(4), N_, N_), (1, single(3, 1), P_, "Sum"), (0, alls(4), P_, N_)])
        A("sums of overlapping blocks in a smaller group", 4, [(0, (0, 2))], [(0, blocks(4, "b"), N_, N_), (1, overlap("b"), P_, N_), (1, overlap("b"), P_, "Sum")])
        A("two groups with common processes, over the world", 3, [(0, (0,)), (0, (2,))], [(1, blocks(2, "b"), N_, N_), (0, blocks(3, "b"), P_, N_), (2, blocks(2, "b"), P_, N_)])
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, MInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    C06.M = C08.M = C12.M = M
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
