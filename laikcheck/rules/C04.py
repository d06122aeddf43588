"""Sort orders are consistent and are the documented ones.

Every comparison callback handed to a sort routine is discovered at its call
site and interpreted over the order domain for two and for three elements whose
keys are opaque symbols (all orderings, refined on demand).  Its sign must be
antisymmetric and transitive, must not depend on a 64-bit difference cut to 32
bit, and - where the consumer relies on a key sequence - must be the
lexicographic order of that sequence; comparators of communication actions must
keep the program order of equal keys and put receives/sends into the phases
that rule out cyclic waiting."""
import re
from .. import core, ir
from ..absint import Interp, Obj, Abort, Undecided, explore, sym, is_ptr, NULL, UNDEF
from ..build import AnalysisError
from ..norm import Poly

SORTS = {"qsort": 3, "g_array_sort": 1, "g_ptr_array_sort": 1, "qsort_r": 3}


class CmpInterp(Interp):
    """signs of differences: 32-bit key differences and buffer offsets are exact, a cut 64-bit difference is not"""

    def opaque(self, op, vs, I):
        if op in ("sdiv", "ashr") and isinstance(vs[0], Poly) and isinstance(vs[1], int) and vs[1] > 0 and self.is_pos(vs[0]):
            return vs[0]
        if op == "and" and isinstance(vs[0], Poly) and isinstance(vs[1], int) and vs[1] > 0 and vs[1] & (vs[1] - 1) == 0:
            a = list(vs[0].t)
            if len(a) == 1 and len(a[0]) == 1 and vs[0].t[a[0]] == 1:      # one flag of a bit field
                return vs[1] * self.boolean(sym("%s&%d" % (a[0][0], vs[1])))
        return UNDEF

    def ucmp(self, I, a, b):
        """unsigned comparison of unsigned fields"""
        ats = [str(x) for v in (a, b) if isinstance(v, Poly) for k in v.t for x in k]
        if all(isinstance(v, int) and v >= 0 or isinstance(v, Poly) and len(v.t) == 1 and list(v.t.values()) == [1] for v in (a, b)) and \
                all(re.search(r"\+(\d+)$", x) and int(x.rsplit("+", 1)[1]) in self.unsigned for x in ats):
            return int(self.rel(I.raw["p"][1:], a, b))
        return super().ucmp(I, a, b)

    unsigned = ()

    def is_pos(self, p):
        return all(len(k) == 1 and str(k[0]).startswith("pos") for k in p.t)

    def truncate(self, v, I):
        if self.is_pos(v):
            return v
        if all(len(k) == 1 and str(k[0]).startswith("w32:") for k in v.t if k) and len(v.t) <= 2:
            return v
        raise Undecided("sign of a 64-bit difference is lost by cutting it to 32 bit at " + I.loc())


def sign(it, v):
    if v == UNDEF or v is None or is_ptr(v):
        raise Undecided("comparison result %r" % (v,))
    return it.cmpv(v, 0)


def lex(it, keys):
    """keys: list of (a, b) -> sign of the first difference"""
    for a, b in keys:
        k = it.cmpv(a, b)
        if k:
            return k
    return 0


def struct_of(m, F):
    """structs whose fields the comparator reads (with the loaded field paths)"""
    out = {}
    for I in F.instrs():
        if I.op == "load":
            a = ir.access_field(F, I.ops[0])
            if a:
                out.setdefault(a[0], []).append(a[1])
    return out


def run(c):
    m = core.load()
    comps = {}
    nsites = 0
    for f in m.defined():
        for I in f.calls(lambda n: n in SORTS):
            nsites += 1
            a = I.args[SORTS[ir.strip_suffix(I.callee)]]
            a = ir.strip_casts(f, a)
            if a[0] != "g" or a[1] not in m.functions:
                c.count("sort sites with a comparator passed as parameter")
                continue
            comps.setdefault(a[1], []).append(I)
    c.need("sort call sites", nsites, 5)
    callers = m.callers()
    E = {}

    def off(s, path):
        """byte offset of a nested field path in struct s"""
        o = 0
        for p in path:
            if isinstance(p, int):
                o += 8 * p
                continue
            if p.startswith("bit"):
                continue
            st = m.structs.get(s)
            if st is None:
                raise AnalysisError("no struct " + s)
            for k in range(len(st["el"])):
                if m.field(s, k) == p:
                    o += st["el"][k][0]
                    ty = st["el"][k][1]
                    s = ir.strip_suffix(ty.lstrip("%"))
                    break
            else:
                raise AnalysisError("no field %s in %s" % (p, s))
        return o

    TR, S1, AC = "struct._Laik_TaskRange_Gen", "struct._Laik_TaskRange_Single1d", "struct._Laik_Action"
    RB = "struct._RangeBorder"
    # documented key sequences of the consumers
    KEYS = {
        "trgen_cmp": ("ranges of one process and one tag are adjacent, ordered by start", TR, [("task",), ("tag",), ("range", "from", 0)]),
        "trgen_cmpfrom": ("ranges ordered by start", TR, [("range", "from", 0)]),
        "tss1d_cmp": ("single indexes of one process are adjacent, ascending", S1, [("task",), ("idx",)]),
        "rb_cmp": ("borders ascending, at equal position closing borders first", None, [("b",), ("isStart", "bit0")]),
        "lididx_cmp": ("members ordered by location", None, [("lid",)]),
        "mygroup_cmp": ("groups ordered by tag", None, [("tag",)]),
        "laik_tcp_split_compare": ("members ordered by key, then by old rank", None, [("hint",), ("rank",)]),
    }
    anchors = 0
    for name in sorted(comps):
        F = m.functions[name]
        src = F.src
        used = [I for I in comps[name] if I.fn.name in callers or m.address_taken(I.fn.name) and any(True for _ in m.address_taken(I.fn.name))
                or not I.fn.internal and not I.fn.src.startswith("laik_aseq_sort")]
        if not used:
            c.count("comparators of sort functions without any caller (skipped)")
            continue
        fields = struct_of(m, F)
        calls = [ir.strip_suffix(I.callee) for I in F.calls() if I.callee]
        if AC in fields or any(x.startswith("laik_action") for x in calls):
            anchors += 1
            actions(c, m, F, off)
            continue
        if "strcmp" in calls or "strncmp" in calls or "memcmp" in calls:
            anchors += 1
            strings(c, m, F)
            continue
        generic(c, m, F, fields, KEYS.get(src), off)
        anchors += 1
    c.need("comparators analysed", anchors, 5)
    # self-test
    n = sum(1 for _ in explore(lambda ch: lex(CmpInterp(m, ch), [(sym("a"), sym("b")), (sym("c"), sym("d"))])))
    c.selftest(n == 5, "lexicographic refinement")
    c.assumptions += ["32-bit sort keys (process ids, tags) are far enough from the 32-bit limits that their difference does not overflow",
                      "an action sequence is smaller than 2 GB"]
    return __doc__


def elem(m, F, fields, name):
    """symbolic element: cells for every field the comparator may read"""
    o = Obj(name)
    return o


def lazy_elem(name):
    def lazy(it, o, off, size):
        return sym("%s%s+%s" % ("w32:" if size <= 4 else "", name, off))
    return lazy


def generic(c, m, F, fields, keys, off):
    inst = F.src
    P = lambda o: ("p", o, 0)

    def obj(n):
        return Obj(n, lazy=lazy_elem(n))
    if keys and keys[1] is None:
        s = sorted(fields)
        keys = (keys[0], s[0], keys[2]) if len(s) == 1 else None
    uns = set()
    for st in fields:
        for f in (m.di.get(st.split(".", 1)[-1]) or {}).get("m", ()):
            if re.match(r"(const )?(unsigned|uint|size_t|__uint)", f[3]) and f[1] % 8 == 0 and f[2] % 8 == 0:
                uns.add(f[1] // 8)
    err = kerr = None
    np = 0
    # two elements: antisymmetry + key order
    sizes = {}

    def body(ch):
        it = CmpInterp(m, ch)
        it.unsigned = uns
        x, y = obj("x"), obj("y")
        try:
            s = sign(it, it.call(F.name, [P(x), P(y)]))
            r = sign(it, it.call(F.name, [P(y), P(x)]))
            e = None if s == -r else "cmp(x,y)=%d but cmp(y,x)=%d" % (s, r)
            ke = None
            if keys:
                kk = []
                for path in keys[2]:
                    o = off(keys[1], path)
                    w = x.cells.get(o) or y.cells.get(o) or sizes.get(o)
                    if w is not None:
                        sizes[o] = w
                    if w is None:
                        w = (8,)
                    pre = "w32:" if w[0] <= 4 else ""
                    if path[-1] == "bit0":
                        kk.append(tuple(it.boolean(sym("%s%s+%d&1" % (pre, n, o))) for n in "xy"))
                        continue
                    kk.append((sym("%sx+%d" % (pre, o)), sym("%sy+%d" % (pre, o))))
                w = lex(it, kk)
                if w != s:
                    ke = "result %d, key order (%s) gives %d" % (s, ", ".join(".".join(map(str, p)) for p in keys[2]), w)
            return e, ke
        except Undecided as e:
            return str(e), None
        except Abort as e:
            return "fails: %s" % e, None
    # run once to learn the cell sizes
    for k in range(2):
        err = kerr = None
        for e, ke in explore(body):
            np += 1
            err = err or e
            kerr = kerr or ke
    c.check(err is None, "antisymmetric", inst, F.loc(), err or "")
    if keys:
        c.check(kerr is None and err is None, "documented-key-order", inst + ": " + keys[0], F.loc(), kerr or err or "")
    if err is None:
        terr = None

        def body3(ch):
            it = CmpInterp(m, ch)
            it.unsigned = uns
            x, y, z = obj("x"), obj("y"), obj("z")
            try:
                a = sign(it, it.call(F.name, [P(x), P(y)]))
                b = sign(it, it.call(F.name, [P(y), P(z)]))
                if a <= 0 and b <= 0:
                    r = sign(it, it.call(F.name, [P(x), P(z)]))
                    if (a < 0 or b < 0) and r >= 0 or r > 0:
                        return "x<=y<=z but cmp(x,z)=%d" % r
                return None
            except (Undecided, Abort) as e:
                return str(e)
        n3 = 0
        for e in explore(body3):
            n3 += 1
            terr = terr or e
        c.check(terr is None, "transitive", inst, F.loc(), terr or "")
        np += n3
    c.count("order partitions examined", np)


def strings(c, m, F):
    """keys compared as strings: result must be the comparison of the two keys in argument order"""
    P = lambda o: ("p", o, 0)
    err = None
    res = []

    def cmpfn(it, args):
        for a in args[:2]:
            if not is_ptr(a) or a[1] is None:
                raise Undecided("string comparison of %r" % (a,))
        if len(args) > 2:
            raise Undecided("comparison of a bounded prefix only")
        return sym("str:" + a_name(args[0])) - sym("str:" + a_name(args[1]))

    def a_name(p):
        return p[1].name

    def body(ch):
        it = CmpInterp(m, ch, handlers={"strcmp": cmpfn, "strncmp": cmpfn, "memcmp": cmpfn})

        def mk(n):
            def lazy(it, o, off, size):
                if size == 8:
                    return ("p", Obj("%s+%d" % (n, off)), 0)
                return sym("w32:%s+%d" % (n, off))
            return Obj(n, lazy=lazy)
        x, y = mk("x"), mk("y")
        try:
            s = sign(it, it.call(F.name, [P(x), P(y)]))
            kx = [v[1][1].name for v in x.cells.values() if is_ptr(v[1])]
            ky = [v[1][1].name for v in y.cells.values() if is_ptr(v[1])]
            if len(kx) != 1 or [k[1:] for k in kx] != [k[1:] for k in ky]:
                return "compares different members of the two entries"
            w = it.cmpv(sym("str:" + kx[0]), sym("str:" + ky[0]))
            return None if w == s else "sorts by %d where the key order is %d" % (s, w)
        except (Undecided, Abort) as e:
            return str(e)
    for e in explore(body):
        err = err or e
    c.check(err is None, "documented-key-order", F.src + ": entries ordered by key string", F.loc(), err or "")


SEND = ["MapSend", "BufSend", "RBufSend", "MapPackAndSend", "PackAndSend"]
RECV = ["MapRecv", "BufRecv", "RBufRecv", "MapRecvAndUnpack", "RecvAndUnpack"]


def actions(c, m, F, off):
    """comparators over action records in a buffer (program order = buffer position)"""
    AC = "struct._Laik_Action"
    o_type, o_round = off(AC, ("type",)), off(AC, ("round",))
    kinds = {}
    for k in SEND + RECV + ["BufInit", "Pack", "Copy"]:
        v = m.enum_const("LAIK_AT_" + k)
        if v is not None:
            kinds[k] = v
    if not any(k in kinds for k in SEND) or not any(k in kinds for k in RECV):
        raise AnalysisError("no send/receive action kinds")
    # struct + field holding the peer rank of each kind
    peer = {}
    for k in kinds:
        if k in SEND or k in RECV:
            s = "struct._Laik_A_" + k
            if s not in m.structs:
                s = "struct.Laik_A_" + k
            if s in m.structs:
                st = m.structs[s]
                for i in range(len(st["el"])):
                    if m.field(s, i) in ("to_rank", "from_rank"):
                        peer[k] = st["el"][i][0]
            if k not in peer:
                peer[k] = off("struct._Laik_BackendAction", ("rank",))
    # does the comparator look at peers / a process id at all?
    rd = [I for I in F.instrs() if I.op == "load" and ir.strip_casts(F, I.ops[0])[0] == "g"]
    phased = bool(rd) or any(ir.strip_suffix(I.callee or "").lower().find("peer") >= 0 for I in F.calls())
    err = None
    npart = 0
    ks = list(kinds)
    rep = [k for k in ks if k in SEND][:] + [k for k in ks if k in RECV] + ["BufInit"]
    pairs = [(a, b) for a in rep for b in rep] if phased else [("BufInit", "BufSend"), ("BufSend", "BufSend")]
    for ka, kb in pairs:
        def body(ch):
            def lazy(it, o, offp, size):
                if isinstance(offp, int):
                    return None
                atoms = [k for k in offp.t if k]
                base = atoms[0][0]
                d = offp.t.get((), 0)
                k = ka if base == "pos1" else kb
                if d == o_type and size == 1:
                    return kinds[k]
                if d == o_round and size == 1:
                    return sym("w32:round" + base)
                if k in peer and d == peer[k] and size == 4:
                    return sym("w32:peer" + base)
                raise Undecided("reads byte %s of a %s action" % (d, k))
            buf = Obj("buf", lazy=lazy)
            it = CmpInterp(m, ch)

            def glob(it2, o, offp, size):
                return sym("w32:myid")
            for I in rd:
                g = ir.strip_casts(F, I.ops[0])[1]
                gi = m.globals.get(g)
                if gi is not None and not gi.get("const"):
                    ob = it.global_obj(g)
                    ob.cells[0] = (I.raw["sz"], sym("w32:myid"))
            p = []
            for n in ("pos1", "pos2"):
                q = Obj("ptr" + n)
                q.cells[0] = (8, ("p", buf, sym(n)))
                p.append(("p", q, 0))
            it.order.add("pos1", -1, "pos2")      # first element comes first in program order
            try:
                s = sign(it, it.call(F.name, [p[0], p[1]]))
                r = sign(it, it.call(F.name, [p[1], p[0]]))
            except (Undecided, Abort) as e:
                return str(e)
            if s != -r:
                return "%s/%s: not antisymmetric" % (ka, kb)
            if s == 0:
                return "%s/%s: distinct actions compare equal, their order is lost" % (ka, kb)
            w = it.cmpv(sym("w32:roundpos1"), sym("w32:roundpos2"))
            if w == 0 and phased:
                def phase(k, n):
                    if k not in peer:
                        return 0
                    low = it.cmpv(sym("w32:peer" + n), sym("w32:myid")) < 0
                    if k in RECV:
                        return 1 if low else 4
                    return 3 if low else 2
                a, b = phase(ka, "pos1"), phase(kb, "pos2")
                w = (a > b) - (a < b)
                if w == 0 and a > 0:
                    w = it.cmpv(sym("w32:peerpos1"), sym("w32:peerpos2"))
            if w == 0:
                w = -1
            if w != s:
                return "%s before %s in program order (%s): sorted %s, the documented order is %s" % (
                    ka, kb, "same round" if phased else "rounds", "behind" if s > 0 else "before", "behind" if w > 0 else "before")
            return None
        for e in explore(body):
            npart += 1
            if e and not err:
                err = e
    c.count("order partitions examined", npart)
    c.check(err is None, "action-order", F.src + (": round, communication phase, peer, program order" if phased else ": round, program order"),
            F.loc(), err or "")
