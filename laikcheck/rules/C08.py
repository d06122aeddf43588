"""Transitions between partitionings: every process derives matching operations.

The transition calculation is interpreted over the order domain once per
process of a small group, for families of partitionings whose borders are
opaque symbols (every relative order of the borders is a partition, refined on
demand).  In each partition the operation lists of all processes are compared
with each other and with the definition: what one process sends another one
receives - same ranges, same order -, data already local is copied locally, an
index with several inputs goes through one reduction that exactly the involved
processes take part in, nothing else is transferred, and every operation names
the mapping holding its range.  The index filter used to shorten the range lists
is decided the same way: it keeps exactly the ranges that intersect own ranges."""
from concurrent.futures import ProcessPoolExecutor
from .. import model
from ..absint import Abort, Undecided, explore, sym, is_ptr, NULL, UNDEF, Cut, Obj
from ..build import AnalysisError
from ..model import P, V, Setup, TInterp, chain, fo, ordering, ranks, rd, ssize
from ..norm import Poly

THOROUGH = False
M = None


def read_ops(it, t, kind, sname, dims, fields):
    cnt = rd(t[0], t[1] + fo("_Laik_Transition", kind + "Count")[0])
    ptr = rd(t[0], t[1] + fo("_Laik_Transition", kind)[0])
    out = []
    sz = ssize(sname)
    for i in range(cnt):
        o, off = ptr[1], ptr[2] + i * sz
        lo = tuple(rd(o, off + fo("_Laik_Range", "from")[0] + 8 * d) for d in range(dims))
        hi = tuple(rd(o, off + fo("_Laik_Range", "to")[0] + 8 * d) for d in range(dims))
        d = {"lo": lo, "hi": hi, "space": rd(o, off + fo("_Laik_Range", "space")[0])}
        for f in fields:
            d[f] = rd(o, off + fo(sname, f)[0])
        out.append(d)
    return out


def transition(it, S, myid, frm, to, flow, redop):
    g = S.group(myid)
    f = S.partitioning("from", g, frm) if frm is not None else None
    t = S.partitioning("to", g, to) if to is not None else None
    fn = M.fn("laik_calc_transition")
    # every process has its own library state; a second calculation must not depend on the first
    it.globals = {}
    it.call(fn.name, [P(S.space), P(f), P(t), flow, redop])
    r = it.call(fn.name, [P(S.space), P(f), P(t), flow, redop])
    if not is_ptr(r) or r[1] is None:
        raise Abort("no transition returned")
    T = (r[1], r[2])
    d = S.dims
    res = {"local": read_ops(it, T, "local", "localTOp", d, ("fromMapNo", "toMapNo")),
           "init": read_ops(it, T, "init", "initTOp", d, ("mapNo", "redOp")),
           "send": read_ops(it, T, "send", "sendTOp", d, ("mapNo", "toTask")),
           "recv": read_ops(it, T, "recv", "recvTOp", d, ("mapNo", "fromTask")),
           "red": read_ops(it, T, "red", "redTOp", d, ("redOp", "inputGroup", "outputGroup", "myInputMapNo", "myOutputMapNo"))}
    n = sum(len(v) for v in res.values())
    if rd(T[0], T[1] + fo("_Laik_Transition", "actionCount")[0]) != n:
        raise Cut("operation count of the transition is wrong")
    for f_, v in (("flow", flow), ("redOp", redop), ("dims", d)):
        if rd(T[0], T[1] + fo("_Laik_Transition", f_)[0]) != v:
            raise Cut("field %s of the transition is wrong" % f_)
    for o in res["red"]:
        for k in ("inputGroup", "outputGroup"):
            sg = o[k]
            n = it.call(M.fn("laik_trans_groupCount").name, [r, sg])
            mem = [it.call(M.fn("laik_trans_taskInGroup").name, [r, sg, i]) for i in range(n)]
            for p in range(S.size):
                if bool(it.call(M.fn("laik_trans_isInGroup").name, [r, sg, p])) != (p in mem):
                    raise Cut("membership test and member list of a reduction group differ")
            if sorted(mem) != mem or len(set(mem)) != len(mem):
                raise Cut("reduction group members are not a sorted set: %s" % mem)
            o[k] = tuple(mem)
    return res


class Family:
    def __init__(self, name, dims, size, build, flow="Preserve", red="None", reduction_ok=False):
        self.name, self.dims, self.size, self.build, self.flow, self.red = name, dims, size, build, flow, red


def families(thorough):
    F = []

    def add(name, dims, size, build, **kw):
        F.append(Family(name, dims, size, build, **kw))

    def tile2(it):
        chain(it, "s", "p", "e")
        return [[(V("s"), V("p"), 0)], [(V("p"), V("e"), 0)]]

    def within(it, a, b, lo="s", hi="e"):
        """a<b inside [lo,hi]"""
        it.order.add(a, -1, b)
        if it.cmpv(sym(a), sym(lo)) < 0 or it.cmpv(sym(b), sym(hi)) > 0:
            raise Cut(None)

    def b1(it):
        f = tile2(it)
        within(it, "a", "b")
        within(it, "c", "d")
        return (V("s"), V("e")), f, [[(V("a"), V("b"), 0)], [(V("c"), V("d"), 0)]]
    add("1-d, 2 processes: blocks to any two ranges", 1, 2, b1)

    def b2(it):
        chain(it, "s", "e")
        within(it, "a", "b")
        within(it, "c", "d")
        return (V("s"), V("e")), [[(V("a"), V("b"), 0)], [(V("c"), V("d"), 0)]], [[(V("s"), V("e"), 0)]] * 2
    add("1-d, 2 processes: sum of any two ranges to all", 1, 2, b2, red="Sum")

    def b3(it):
        chain(it, "s", "e")
        within(it, "a", "b")
        within(it, "c", "d")
        return (V("s"), V("e")), [[(V("s"), V("e"), 0)]] * 2, [[(V("a"), V("b"), 0)], [(V("c"), V("d"), 0)]]
    add("1-d, 2 processes: sum of all to any two ranges", 1, 2, b3, red="Sum")

    def b4(it):
        chain(it, "s", "p", "q", "e")
        it.order.add("u", -1, "v")
        if it.cmpv(sym("u"), sym("s")) <= 0 or it.cmpv(sym("v"), sym("e")) >= 0:
            raise Cut(None)
        return (V("s"), V("e")), [[(V("s"), V("p"), 0)], [(V("p"), V("q"), 0)], [(V("q"), V("e"), 0)]], \
            [[(V("s"), V("u"), 0)], [(V("u"), V("v"), 0)], [(V("v"), V("e"), 0)]]
    add("1-d, 3 processes: blocks to shifted blocks", 1, 3, b4)

    def b5(it):
        chain(it, "s", "p", "q", "e")
        chain(it, "s", "u", "e")
        return (V("s"), V("e")), [[(V("s"), V("p"), 0), (V("q"), V("e"), 1)], [(V("p"), V("q"), 0)]], \
            [[(V("u"), V("e"), 0)], [(V("s"), V("u"), 0)]]
    add("1-d, 2 processes: several mappings to swapped blocks", 1, 2, b5)

    def b5r(it):
        box, f, t = b5(it)
        return box, t, f
    add("1-d, 2 processes: blocks to several mappings", 1, 2, b5r)

    def b6(it):
        chain(it, "s", "e")
        return (V("s"), V("e")), [[(V("s"), V("e"), 0)], []], [[], [(V("s"), V("e"), 0)]]
    add("1-d, 2 processes: master to other process", 1, 2, b6)

    def b7(it):
        chain(it, "s", "e")
        return (V("s"), V("e")), [[(V("s"), V("e"), 0)]] * 3, [[(V("s"), V("e"), 0)], [], []]
    add("1-d, 3 processes: sum of all to one", 1, 3, b7, red="Sum")

    def b8(it):
        # halo sum: overlapping inputs, blocks as output
        chain(it, "s", "x0", "x1", "e")
        chain(it, "s", "u", "e")
        return (V("s"), V("e")), [[(V("s"), V("x1"), 0)], [(V("x0"), V("e"), 0)]], [[(V("s"), V("u"), 0)], [(V("u"), V("e"), 0)]]
    add("1-d, 2 processes: sum of overlapping ranges to blocks", 1, 2, b8, red="Sum")

    def b9(it):
        chain(it, "s", "p", "e")
        chain(it, "s", "x0", "x1", "e")
        return (V("s"), V("e")), [[(V("s"), V("p"), 0)], [(V("p"), V("e"), 0)]], [[(V("s"), V("x1"), 0)], [(V("x0"), V("e"), 0)]]
    add("1-d, 2 processes: blocks to overlapping ranges", 1, 2, b9)

    def b10(it):
        chain(it, "s", "e")
        it.order.add("a", -1, "b")
        within(it, "c", "d", "s", "e")
        if it.cmpv(sym("a"), sym("s")) < 0 or it.cmpv(sym("b"), sym("e")) > 0:
            raise Cut(None)
        return (V("s"), V("e")), [[(V("a"), V("b"), 0)], [], [(V("c"), V("d"), 0)]], [[], [(V("s"), V("e"), 0)], []]
    add("1-d, 3 processes: max of any two ranges to a third process", 1, 3, b10, red="Max")

    def b11(it):
        chain(it, "s", "e")
        return (V("s"), V("e")), [[(V("s"), V("e"), 0)]], [[(V("s"), V("e"), 0)]]
    add("1-d, 1 process", 1, 1, b11, red="Sum")

    # initialisation
    def i1(it):
        chain(it, "s", "p", "e")
        return (V("s"), V("e")), None, [[(V("s"), V("p"), 0), (V("p"), V("p"), 0)], [(V("p"), V("e"), 0)]]
    add("1-d, 2 processes: initialisation", 1, 2, i1, flow="Init", red="Sum")

    def i2(it):
        chain(it, "s", "p", "e")
        return (V("s"), V("e")), [[(V("s"), V("e"), 0)]] * 2, [[(V("s"), V("p"), 0)], [(V("p"), V("e"), 0)]]
    add("1-d, 2 processes: initialisation, leaving all", 1, 2, i2, flow="Init", red="Min")
    add("1-d, 2 processes: no data flow", 1, 2, i2, flow="None", red="None")

    def i3(it):
        chain(it, "s", "p", "q", "e")
        return (V("s"), V("e")), [[(V("s"), V("p"), 0), (V("p"), V("q"), 1)], [(V("q"), V("e"), 0)]], [[(V("q"), V("e"), 0)], [(V("s"), V("p"), 1), (V("p"), V("q"), 0)]]
    add("1-d, 2 processes: adjacent own ranges", 1, 2, i3)

    def i4(it):
        chain(it, "s", "p", "e")
        return (V("s"), V("e")), [[(V("s"), V("e"), 0)], [(V("s"), V("p"), 0)], [(V("p"), V("e"), 0)]], [[(V("s"), V("e"), 0)]] * 3
    add("1-d, 3 processes: sum of different pairs to all", 1, 3, i4, red="Sum")

    def i5(it):
        b, f, t = i4(it)
        return b, t, [[(V("p"), V("e"), 0)], [(V("s"), V("p"), 0)], [(V("s"), V("e"), 0)]]
    add("1-d, 3 processes: max of all to different pairs", 1, 3, i5, red="Max")

    def i8(it):
        chain(it, "s", "a", "b", "c", "d", "e")
        return (V("s"), V("e")), None, [[(V("s"), V("a"), 0), (V("b"), V("c"), 0), (V("c"), V("d"), 1)], [(V("a"), V("b"), 0), (V("d"), V("e"), 0)]]
    add("1-d, 2 processes: initialisation of shared mappings", 1, 2, i8, flow="Init", red="Max")

    def i9(it):
        b, f, t = i8(it)
        return b, t, [[(V("a"), V("b"), 0), (V("d"), V("e"), 1)], [(V("s"), V("a"), 0), (V("b"), V("c"), 0), (V("c"), V("d"), 1)]]
    add("1-d, 2 processes: exchange between shared mappings", 1, 2, i9)

    def i6(it):
        chain(it, "s", "p", "e")
        return (V("s"), V("e")), [[(V("s"), V("e"), 0)], [(V("s"), V("p"), 0)], [(V("p"), V("e"), 0)], [(V("s"), V("e"), 0)]], [[(V("s"), V("e"), 0)]] * 4
    add("1-d, 4 processes: sum of different triples to all", 1, 4, i6, red="Sum")

    def i7(it):
        b, f, t = i6(it)
        return b, t, f
    add("1-d, 4 processes: sum of all to different triples", 1, 4, i7, red="Sum")

    # several dimensions: first dimension cut, second dimension cut
    def box2():
        return (V("s", "S"), V("e", "E"))

    for dims in (2, 3):
        ext = ("Z0",) if dims == 3 else ()
        ext1 = ("Z1",) if dims == 3 else ()
        D = "%d-d" % dims

        def r2(x0, x1, y0, y1, m=0, ext=ext, ext1=ext1):
            return (V(x0, y0, *ext), V(x1, y1, *ext1), m)

        def ini(it, dims=dims):
            chain(it, "s", "p", "e")
            chain(it, "S", "P", "E")
            if dims == 3:
                chain(it, "Z0", "Z1")

        def bx(ext=ext, ext1=ext1):
            return (V("s", "S", *ext), V("e", "E", *ext1))

        def c1(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            return bx(), [[r2("s", "p", "S", "E")], [r2("p", "e", "S", "E")]], [[r2("s", "e", "S", "P")], [r2("s", "e", "P", "E")]]
        add(D + ", 2 processes: row blocks to column blocks", dims, 2, c1)

        def c2(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            return bx(), [[r2("s", "e", "S", "E")]] * 2, [[r2("s", "p", "S", "E")], [r2("p", "e", "S", "E")]]
        add(D + ", 2 processes: all to blocks", dims, 2, c2)

        def c3(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            return bx(), [[r2("s", "p", "S", "E")], [r2("p", "e", "S", "E")]], [[r2("s", "e", "S", "E")]] * 2
        add(D + ", 2 processes: blocks to all", dims, 2, c3)

        def c4(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            chain(it, "p", "q", "r", "e")
            return bx(), [[r2("s", "p", "S", "E", 0), r2("q", "r", "S", "E", 1)], [r2("p", "q", "S", "E", 0), r2("r", "e", "S", "E", 1)]], \
                [[r2("s", "e", "S", "P", 0)], [r2("s", "e", "P", "E", 0)]]
        add(D + ", 2 processes: cyclic rows to column blocks", dims, 2, c4)

        def c5(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            chain(it, "p", "q", "r", "e")
            chain(it, "P", "Q", "R", "E")
            return bx(), [[r2("s", "p", "S", "E", 0), r2("q", "r", "S", "E", 1)], [r2("p", "q", "S", "E", 0), r2("r", "e", "S", "E", 1)]], \
                [[r2("s", "e", "S", "P", 0), r2("s", "e", "Q", "R", 1)], [r2("s", "e", "P", "Q", 0), r2("s", "e", "R", "E", 1)]]
        add(D + ", 2 processes: cyclic rows to cyclic columns", dims, 2, c5)

        def c6(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            chain(it, "s", "x0", "x1", "e")
            h = [[r2("s", "x1", "S", "E")], [r2("x0", "e", "S", "E")]]
            return bx(), h, h
        add(D + ", 2 processes: overlapping ranges kept", dims, 2, c6)

        def c7(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            chain(it, "s", "x0", "x1", "e")
            return bx(), [[r2("s", "p", "S", "E")], [r2("p", "e", "S", "E")]], [[r2("s", "x1", "S", "E")], [r2("x0", "e", "S", "E")]]
        add(D + ", 2 processes: blocks to overlapping ranges", dims, 2, c7)

        def c8(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            chain(it, "s", "x0", "x1", "e")
            return bx(), [[r2("s", "x1", "S", "E")], [r2("x0", "e", "S", "E")]], [[r2("s", "e", "S", "P")], [r2("s", "e", "P", "E")]]
        add(D + ", 2 processes: overlapping rows to column blocks", dims, 2, c8)

        def c9(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            return bx(), [[r2("s", "e", "S", "E")]] * 3, [[r2("s", "e", "S", "E")]] * 3
        add(D + ", 3 processes: sum of all to all", dims, 3, c9, red="Sum")

        def c10(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            return bx(), [[r2("s", "e", "S", "E")]] * 3, [[], [r2("s", "e", "S", "E")], []]
        add(D + ", 3 processes: sum of all to one", dims, 3, c10, red="Sum")

        def c11(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            chain(it, "p", "q", "e")
            return bx(), [[r2("s", "p", "S", "E")], [r2("p", "q", "S", "E")], [r2("q", "e", "S", "E")]], \
                [[r2("s", "e", "S", "P")], [r2("s", "e", "P", "E")], []]
        add(D + ", 3 processes: row blocks to two column blocks", dims, 3, c11)

        def c12(it, ini=ini, r2=r2, bx=bx):
            ini(it)
            return bx(), None, [[r2("s", "p", "S", "E")], [r2("p", "e", "S", "E")]]
        add(D + ", 2 processes: initialisation", dims, 2, c12, flow="Init", red="Sum")
    if thorough:
        def t1(it):
            chain(it, "s", "p", "q", "e")
            within(it, "a", "b")
            within(it, "c", "d")
            return (V("s"), V("e")), [[(V("s"), V("p"), 0), (V("q"), V("e"), 0)], [(V("p"), V("q"), 0)]], [[(V("a"), V("b"), 0)], [(V("c"), V("d"), 0)]]
        add("1-d, 2 processes: split blocks to any two ranges", 1, 2, t1)

        def t2(it):
            chain(it, "s", "e")
            for a, b in ("ab", "cd"):
                within(it, a, b)
            chain(it, "s", "u", "e")
            return (V("s"), V("e")), [[(V("a"), V("b"), 0)], [(V("c"), V("d"), 0)]], [[(V("s"), V("u"), 0)], [(V("u"), V("e"), 0)]]
        add("1-d, 2 processes: sum of any two ranges to blocks", 1, 2, t2, red="Sum")

        def t3(it):
            chain(it, "s", "p", "q", "e")
            for a, b in ("ab", "cd"):
                within(it, a, b)
            return (V("s"), V("e")), [[(V("s"), V("p"), 0)], [(V("p"), V("q"), 0)], [(V("q"), V("e"), 0)]], [[(V("a"), V("b"), 0)], [], [(V("c"), V("d"), 0)]]
        add("1-d, 3 processes: blocks to two ranges", 1, 3, t3)

        def t4(it):
            chain(it, "s", "p", "e")
            chain(it, "S", "P", "E")
            chain(it, "s", "u", "v", "e")
            R = lambda x0, x1, y0, y1: (V(x0, y0), V(x1, y1), 0)
            return box2(), [[R("s", "p", "S", "E")], [R("p", "e", "S", "P")], [R("p", "e", "P", "E")]], \
                [[R("s", "u", "S", "E")], [R("u", "v", "S", "E")], [R("v", "e", "S", "E")]]
        add("2-d, 3 processes: bisection to row blocks", 2, 3, t4)
    return F


def verify(it, fam, box, frm, to, ops):
    dims, size = fam.dims, fam.size
    # elementary cells of all borders
    pos = []
    for d in range(dims):
        cs = [box[0][d], box[1][d]]
        for part in (frm, to):
            for rs in part or []:
                for lo, hi, m in rs:
                    cs += [lo[d], hi[d]]
        seen = []
        for x in cs:
            if x not in seen:
                seen.append(x)
        pos.append(ranks(it, seen))

    def idx(d, v, what):
        for i, cl in enumerate(pos[d]):
            if any(v == x for x in cl):
                return i
        if isinstance(v, (Poly, int)):
            for i, cl in enumerate(pos[d]):
                if it.cmpv(v, cl[0]) == 0:
                    return i
        raise Cut("%s has a border that is none of the given borders (%r)" % (what, v))

    def cells(lo, hi, what):
        rr = [range(idx(d, lo[d], what), idx(d, hi[d], what)) for d in range(dims)]
        out = [()]
        for r in rr:
            out = [x + (i,) for x in out for i in r]
        return out

    def own(part, p):
        s = {}
        for lo, hi, m in part[p]:
            for c in cells(lo, hi, "range"):
                s.setdefault(c, set()).add(m)
        return s
    kinds = {"send": "send", "recv": "receive", "local": "local copy", "init": "initialisation", "red": "reduction"}
    for p in range(size):
        for k in ops[p]:
            for o in ops[p][k]:
                if o["space"] == NULL or o["space"] == UNDEF:
                    return "process %d: %s without space" % (p, kinds[k])
                if not cells(o["lo"], o["hi"], kinds[k]):
                    return "process %d: %s of an empty range" % (p, kinds[k])
                o["cells"] = cells(o["lo"], o["hi"], kinds[k])
    redv = M.enum_const("LAIK_RO_" + fam.red)
    TO = [own(to, p) for p in range(size)] if to is not None else [{} for _ in range(size)]
    FR = [own(frm, p) for p in range(size)] if frm is not None else [{} for _ in range(size)]
    # initialisation
    for p in range(size):
        ini = {}
        for o in ops[p]["init"]:
            if o["redOp"] != redv:
                return "process %d: initialisation for another operation" % p
            for c in o["cells"]:
                if c in ini and False:
                    return "process %d: index initialised twice" % p
                if o["mapNo"] not in TO[p].get(c, ()):
                    return "process %d: initialisation outside of the named mapping" % p
                ini[c] = 1
        want = set(TO[p]) if fam.flow == "Init" else set()
        if set(ini) != want:
            return "process %d: initialised indexes differ from the own target ranges" % p
    preserve = fam.flow == "Preserve" and frm is not None and to is not None
    if not preserve:
        for p in range(size):
            for k in ("local", "send", "recv", "red"):
                if ops[p][k]:
                    return "process %d: %s although no data is to be preserved" % (p, kinds[k])
        return None
    # messages: mirrored, in order
    for s in range(size):
        for r in range(size):
            snd = [o for o in ops[s]["send"] if o["toTask"] == r]
            rcv = [o for o in ops[r]["recv"] if o["fromTask"] == s]
            if s == r and (snd or rcv):
                return "process %d: message to itself" % s
            if len(snd) != len(rcv):
                return "process %d sends %d messages to process %d which expects %d" % (s, len(snd), r, len(rcv))
            for i, (a, b) in enumerate(zip(snd, rcv)):
                if a["cells"] != b["cells"]:
                    return "message %d from process %d to process %d: sent and received range differ" % (i, s, r)
    for p in range(size):
        for o in ops[p]["send"]:
            if not isinstance(o["toTask"], int) or not 0 <= o["toTask"] < size:
                return "process %d: send to unknown process" % p
            for c in o["cells"]:
                if o["mapNo"] not in FR[p].get(c, ()):
                    return "process %d: send of indexes outside of the named own source mapping" % p
        for o in ops[p]["recv"]:
            if not isinstance(o["fromTask"], int) or not 0 <= o["fromTask"] < size:
                return "process %d: receive from unknown process" % p
            for c in o["cells"]:
                if o["mapNo"] not in TO[p].get(c, ()):
                    return "process %d: receive of indexes outside of the named own target mapping" % p
        for o in ops[p]["local"]:
            for c in o["cells"]:
                if o["fromMapNo"] not in FR[p].get(c, ()) or o["toMapNo"] not in TO[p].get(c, ()):
                    return "process %d: local copy outside of the named mappings" % p
    # reductions: the same sequence of operations at all members
    reds = {}
    for p in range(size):
        for o in ops[p]["red"]:
            if o["redOp"] != redv:
                return "process %d: reduction with another operation" % p
            key = (tuple(o["cells"]), o["inputGroup"], o["outputGroup"])
            if p not in o["inputGroup"] and p not in o["outputGroup"]:
                return "process %d takes part in a reduction it is not a member of" % p
            reds.setdefault(key, []).append(p)
            for c in o["cells"]:
                if p in o["inputGroup"] and o["myInputMapNo"] not in FR[p].get(c, ()):
                    return "process %d: reduction input outside of the named mapping" % p
                if p in o["outputGroup"] and o["myOutputMapNo"] not in TO[p].get(c, ()):
                    return "process %d: reduction output outside of the named mapping" % p
    for (cs, i, u), ps in reds.items():
        if ps != sorted(set(i) | set(u)):
            return "reduction with inputs %s and outputs %s is executed by processes %s" % (list(i), list(u), ps)
        for c in cs:
            if i != tuple(p for p in range(size) if c in FR[p]):
                return "reduction inputs %s are not the processes holding the index" % (list(i),)
            if u != tuple(p for p in range(size) if c in TO[p]):
                return "reduction outputs %s are not the processes wanting the index" % (list(u),)
    # coverage: where the value of every wanted index comes from
    allcells = set()
    for p in range(size):
        allcells |= set(TO[p])
    isred = fam.red != "None"
    for p in range(size):
        loc, rec, red = {}, {}, {}
        for k, dct in (("local", loc), ("recv", rec), ("red", red)):
            for o in ops[p][k]:
                for c in o["cells"]:
                    dct[c] = dct.get(c, 0) + 1
        for c in TO[p]:
            owners = [q for q in range(size) if c in FR[q]]
            how = (loc.get(c, 0), rec.get(c, 0), red.get(c, 0))
            if isred and len(owners) != 1:
                if red.get(c, 0) != 1:
                    return "process %d: index with %d inputs is reduced %d times" % (p, len(owners), red.get(c, 0))
                if rec.get(c, 0):
                    return "process %d: index is reduced and received" % p
            elif p in owners:
                if not loc.get(c) and not red.get(c):
                    return "process %d: own index is not kept (%d local, %d received, %d reduced)" % ((p,) + how)
            elif owners:
                if not rec.get(c) and not red.get(c):
                    return "process %d: index held only elsewhere is neither received nor reduced" % p
                if len(owners) == 1 and rec.get(c, 0) + red.get(c, 0) != 1:
                    return "process %d: index is received %d times" % (p, rec.get(c, 0))
    return None


def run_family(i):
    fam = families(THOROUGH)[i]
    flow, red = M.enum_const("LAIK_DF_" + fam.flow), M.enum_const("LAIK_RO_" + fam.red)
    n = 0
    cov = set()

    def body(ch):
        it = TInterp(ch)
        try:
            box, frm, to = fam.build(it)
        except Cut:
            return None
        try:
            S = Setup(it, fam.dims, fam.size, box)
            ops = [transition(it, S, p, frm, to, flow, red) for p in range(fam.size)]
            e = verify(it, fam, box, frm, to, ops)
        except Cut as x:
            e = str(x)
        except Abort as x:
            e = "fails: %s" % x
        except Undecided as x:
            return "?%s" % x
        cov.update(it.covered)
        return e and "%s (%s)" % (e, ordering(it))
    for e in explore(body, 200000):
        n += 1
        if e:
            return i, n, e, cov
    return i, n, None, cov


def filter_rule(c):
    """index filter: keeps a range iff it intersects own ranges"""
    fn = M.fn("laik_rangefilter_add_idxfilter")
    new = M.fn("laik_rangefilter_new")
    cases = [("no own ranges", []), ("one own range", [("a0", "a1")]), ("two own ranges, any order", [("a0", "a1"), ("b0", "b1")]),
             ("three ordered own ranges", [("a0", "a1"), ("b0", "b1"), ("c0", "c1")])]
    for twice in (False, True):
        for name, rs in cases:
            if twice and len(rs) != 1:
                continue
            err = None
            n = 0

            def body(ch):
                it = TInterp(ch)
                chain(it, "x", "y")
                for a, b in rs:
                    chain(it, a, b)
                if len(rs) == 3:
                    chain(it, "a1", "b0") if ch(2) else it.order.add("a1", 0, "b0")
                    chain(it, "b1", "c0") if ch(2) else it.order.add("b1", 0, "c0")
                S = Setup(it, 1, 2, (V("s"), V("e")))
                mine = [(V(a), V(b), 0) for a, b in rs]
                L = S.rangelist([[(V("x"), V("y"), 0)], mine])
                sf = it.call(new.name, [])
                own = list(rs)
                try:
                    it.call(fn.name, [sf, P(L), 1])
                    if twice:
                        chain(it, "b0", "b1")
                        own.append(("b0", "b1"))
                        it.call(fn.name, [sf, P(S.rangelist([[], [(V("b0"), V("b1"), 0)]])), 1])
                    o, off = it.deref(sf)
                    f = rd(o, off + fo("_Laik_RangeFilter", "filter_func")[0])
                    if not is_ptr(f) or f[1] is None:
                        return "no filter function is set: the call through it crashes"
                    q = Obj("query")
                    S.rng_at(q, 0, (V("x"), V("y")))
                    r = it.call(f[1][1], [sf, 0, P(q)])
                    want = any(it.cmpv(sym("x"), sym(b)) < 0 and it.cmpv(sym(a), sym("y")) < 0 for a, b in own)
                    if not isinstance(r, int) or bool(r & 1) != want:
                        return "range %s although it %s own ranges (%s)" % ("dropped" if want else "kept", "intersects" if want else "does not intersect", ordering(it))
                except Abort as x:
                    return "fails: %s" % x
                except Undecided as x:
                    raise AnalysisError("%s is not decided by the order of the borders: %s" % (fn.src, x))
                return None
            for e in explore(body, 100000):
                n += 1
                if e:
                    err = e
                    break
            c.count("order partitions examined", n)
            c.check(err is None, "index-filter-exact", name + (", two lists" if twice else ""), fn.loc(), err or "")




def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    F = families(THOROUGH)
    anchor = M.fn("laik_calc_transition")
    cov = set()
    with ProcessPoolExecutor(8) as ex:
        for i, n, e, cv in ex.map(run_family, range(len(F))):
            cov |= cv
            c.count("order partitions examined", n)
            if e and e[0] == "?":
                raise AnalysisError("%s: not decided by the order of the borders: %s" % (F[i].name, e[1:]))
            c.check(e is None, "matching-transition", F[i].name, anchor.loc(), e or "")
    filter_rule(c)
    c.count("functions interpreted", len(cov))
    c.samples += sorted(cov)
    if not c.violations:
        # self-test of the comparison: a dropped receive must be noticed
        it = TInterp(lambda k: 0)
        fam = [f for f in F if f.name.startswith("1-d, 2 processes: master to other")][0]
        box, frm, to = fam.build(it)
        S = Setup(it, 1, 2, box)
        ops = [transition(it, S, p, frm, to, M.enum_const("LAIK_DF_Preserve"), M.enum_const("LAIK_RO_None")) for p in range(2)]
        ops[1]["recv"] = []
        c.selftest(verify(it, fam, box, frm, to, ops) is not None, "dropped receive")
    c.assumptions += ["groups of 1 to 3 processes with at most 3 ranges each stand for larger ones (the calculation treats every pair of processes alike)",
                      "partitioners give every process the same range list"]
    return __doc__
