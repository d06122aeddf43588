"""Layouts place every index at its own offset; pack, unpack and copy agree.

The layout interface (offset, section lookup, strides, reuse, pack, unpack,
copy; specialised and generic variants) is interpreted with symbolic origins,
symbolic paddings between the transferred range and the allocated range (hence
symbolic strides), symbolic element size and a second, unrelated section.
Addresses are compared as polynomials with the definition of the
lexicographical order; transferred ranges have small constant extents."""
import itertools
from concurrent.futures import ProcessPoolExecutor
from .. import model
from ..absint import Abort, Undecided, explore, sym, is_ptr, NULL, Cut, Obj
from ..build import AnalysisError
from ..model import P, PosInterp, add, divpoly, fo, mul, ordering, pick_pos, rd, setf, ssize
from ..norm import Poly

M = None
THOROUGH = False
ES = sym("+es")


class LInterp(PosInterp):
    es = ES

    def __init__(self, ch):
        super().__init__(ch)
        self.handlers["getenv"] = lambda i, a: NULL
        self.handlers["laik_log_Range"] = self.handlers["laik_log_Index"] = lambda i, a: None

    def memcpy(self, d, s, n):
        if is_ptr(d) and is_ptr(s) and (getattr(d[1], "data", None) is not None or getattr(s[1], "data", None) is not None):
            w = divpoly(n, self.es)
            a, b = divpoly(d[2], self.es), divpoly(s[2], self.es)
            if w is None or a is None or b is None or not isinstance(w, int):
                raise Cut("copy of %r bytes from offset %r to offset %r moves no whole elements" % (n, s[2], d[2]))
            if w < 0:
                raise Cut("copy of a negative number of elements")
            if getattr(d[1], "data", None) is None or getattr(s[1], "data", None) is None:
                raise Undecided("element copied to or from other memory")
            vals = [s[1].get(add(b, k)) for k in range(w)]
            for k in range(w):
                d[1].data[add(a, k)] = vals[k]
            return
        super().memcpy(d, s, n)


class Mem(Obj):
    def __init__(self, name):
        super().__init__(name)
        self.data = {}

    def get(self, k):
        return self.data.get(k, (self.name, k))


class Case:
    """one layout with two sections; the section under test surrounds a range of small extents"""

    def __init__(self, it, dims, widths, sec, tag="", space=None, pads=True, origin=None):
        self.it, self.dims, self.sec = it, dims, sec
        if space is None:
            space = Obj("space")
            setf(space, "_Laik_Space", dims=dims, name=P(Obj("name")), id=0)
        self.space = space
        o = origin or [sym("x%d" % d) for d in range(dims)]
        if dims == 3 and pads:
            zp, zq = it.choose(2), it.choose(2)
            self.p = [0 if zp else sym("+p%s%d" % (tag, d)) for d in range(dims)]
            q = [0 if zq else sym("+q%s%d" % (tag, d)) for d in range(dims)]
        else:
            self.p = [pick_pos(it, "p%s%d" % (tag, d)) if pads else sym("+p%s%d" % (tag, d)) for d in range(dims)]
            q = [pick_pos(it, "q%s%d" % (tag, d)) if pads else sym("+q%s%d" % (tag, d)) for d in range(dims)]
        self.lo = o
        self.hi = [add(o[d], widths[d]) for d in range(dims)]
        self.elo = [add(o[d], mul(-1, self.p[d])) for d in range(dims)]
        self.ehi = [add(self.hi[d], q[d]) for d in range(dims)]
        one = it.choose(2)
        self.oth = [1 if one else add(1, sym("+n%s%d" % (tag, d))) for d in range(dims)]
        oth = ([sym("y%s%d" % (tag, d)) for d in range(dims)], [add(sym("y%s%d" % (tag, d)), self.oth[d]) for d in range(dims)])
        rs = Obj("ranges")
        R = ssize("_Laik_Range")
        both = [(self.elo, self.ehi), oth]
        if sec == 1:
            both.reverse()
        for i, b in enumerate(both):
            self.rng(rs, i * R, b)
        self.layout = it.call(M.fn("laik_new_layout_lex").name, [2, P(rs)])
        self.width = widths

    def rng(self, o, base, b):
        setf(o, "_Laik_Range", base, space=P(self.space))
        for d in range(self.dims):
            o.cells[base + fo("_Laik_Range", "from")[0] + 8 * d] = (8, b[0][d])
            o.cells[base + fo("_Laik_Range", "to")[0] + 8 * d] = (8, b[1][d])

    def rngobj(self, b):
        o = Obj("range")
        self.rng(o, 0, b)
        return P(o)

    def index(self, v):
        o = Obj("idx")
        for d in range(3):
            o.cells[8 * d] = (8, v[d] if d < len(v) else sym("?%d" % d))
        return o

    def mapping(self, es, req=None):
        m, data, mem = Obj("map"), Obj("data"), Mem("mem" + str(id(self) % 9973))
        setf(data, "_Laik_Data", elemsize=es, space=P(self.space), name=P(Obj("n")))
        setf(m, "_Laik_Mapping", data=P(data), mapNo=self.sec, layout=self.layout, layoutSection=self.sec, start=P(mem),
             base=("p", Mem("base"), 0), count=sym("+count"), reusedFor=-1, baseMapping=NULL)
        for f in ("requiredRange", "allocatedRange"):
            self.rng(m, fo("_Laik_Mapping", f)[0], req or (self.elo, self.ehi))
        self.mem = mem
        return P(m)

    def off(self, idx, strides=None):
        r, s = 0, 1
        for d in range(self.dims):
            r = add(r, mul(add(idx[d], mul(-1, self.elo[d])), s))
            s = mul(s, add(self.ehi[d], mul(-1, self.elo[d])))
        return r

    def indexes(self):
        for c in itertools.product(*[range(w) for w in reversed(self.width)]):
            c = c[::-1]
            yield [add(self.lo[d], c[d]) for d in range(self.dims)]


def slot(C, name):
    o, off = C.it.deref(C.layout)
    p = rd(o, off + fo("_Laik_Layout", name)[0])
    if not is_ptr(p) or p[1] is None:
        raise Cut("layout has no %s function" % name)
    return p[1][1]


def same(a, b):
    return add(a, mul(-1, b)) == 0


def f_offset(dims, widths):
    def body(it):
        C = Case(it, dims, widths, it.choose(2))
        n = 1
        for d in range(dims):
            n = mul(n, add(C.ehi[d], mul(-1, C.elo[d])))
        for i in C.indexes():
            r = it.call("laik_offset", [C.layout, C.sec, P(C.index(i))])
            if not same(r, C.off(i)):
                raise Cut("offset %r of index %r instead of %r" % (r, i, C.off(i)))
        # first and last index of the section
        last = [add(x, -1) for x in C.ehi]
        for i, want in ((C.elo, 0), (last, add(n, -1))):
            r = it.call("laik_offset", [C.layout, C.sec, P(C.index(i))])
            if not same(r, want):
                raise Cut("offset %r of the section's border index instead of %r" % (r, want))
        s = 1
        for d in range(dims):
            r = it.call("laik_layout_lex_stride", [C.layout, C.sec, d])
            if not same(r, s):
                raise Cut("stride %d is %r instead of %r" % (d, r, s))
            s = mul(s, add(C.ehi[d], mul(-1, C.elo[d])))
        o, off = it.deref(C.layout)
        if rd(o, off + fo("_Laik_Layout", "dims")[0]) != dims or rd(o, off + fo("_Laik_Layout", "map_count")[0]) != 2:
            raise Cut("wrong dimension or section count in the layout")
        if it.call(slot(C, "mapno"), [C.layout, C.sec]) != C.sec:
            raise Cut("section belongs to another mapping")
        m = 1
        for d in range(dims):
            m = mul(m, C.oth[d])
        if not same(rd(o, off + fo("_Laik_Layout", "count")[0]), add(n, m)):
            raise Cut("layout covers %r instead of %r indexes" % (rd(o, off + fo("_Laik_Layout", "count")[0]), add(n, m)))
    return body


def f_section(dims):
    """section lookup, index in any position relative to both sections"""
    def body(it):
        sp = Obj("space")
        setf(sp, "_Laik_Space", dims=dims, name=P(Obj("name")), id=0)
        rs = Obj("ranges")
        R = ssize("_Laik_Range")
        boxes = []
        for k in range(2):
            for d in range(dims):
                it.order.add("a%d%d" % (k, d), -1, "b%d%d" % (k, d))
            boxes.append(([sym("a%d%d" % (k, d)) for d in range(dims)], [sym("b%d%d" % (k, d)) for d in range(dims)]))
        for k, b in enumerate(boxes):
            setf(rs, "_Laik_Range", k * R, space=P(sp))
            for d in range(dims):
                rs.cells[k * R + fo("_Laik_Range", "from")[0] + 8 * d] = (8, b[0][d])
                rs.cells[k * R + fo("_Laik_Range", "to")[0] + 8 * d] = (8, b[1][d])
        L = it.call(M.fn("laik_new_layout_lex").name, [2, P(rs)])
        x = Obj("idx")
        xs = [sym("x%d" % d) for d in range(dims)]
        for d in range(dims):
            x.cells[8 * d] = (8, xs[d])
        o, off = it.deref(L)
        f = rd(o, off + fo("_Laik_Layout", "section")[0])
        r = it.call(f[1][1], [L, P(x)])
        want = [k for k, b in enumerate(boxes) if all(it.cmpv(b[0][d], xs[d]) <= 0 and it.cmpv(xs[d], b[1][d]) < 0 for d in range(dims))]
        if (r not in want) if want else r != -1:
            raise Cut("section %s found, the index is in %s" % (r, want or "none"))
    return body


def f_pack(dims, widths, bufn, generic, unpack):
    def body(it):
        es = ES
        rest = 0
        if bufn > 1 and not generic:
            # element size 8 and a buffer that is no multiple of it
            if it.choose(2):
                es, rest = 8, 3
        it.es = es
        C = Case(it, dims, widths, it.choose(2))
        m = C.mapping(es, (C.lo, C.hi) if it.choose(2) else None)
        r = C.rngobj((C.lo, C.hi))
        idx = C.index(C.lo)
        fn = M.fn("laik_layout_%s_gen" % ("unpack" if unpack else "pack")).name if generic else slot(C, "unpack" if unpack else "pack")
        todo = list(C.indexes())
        done = 0
        size = add(mul(bufn, es), rest)
        while done < len(todo):
            B = Mem("buf%d" % done)
            k = min(bufn, len(todo) - done)
            n = it.call(fn, [m, r, P(idx), P(B), size])
            if n != k:
                raise Cut("%s elements transferred instead of %d" % (n, k))
            for j in range(k):
                a = C.off(todo[done + j])
                if unpack:
                    got, want = C.mem.get(a), ("buf%d" % done, j)
                else:
                    got, want = B.get(j), (C.mem.name, a)
                if got != want:
                    raise Cut("element %d of the range: %r instead of %r" % (done + j, got, want))
            if (len(C.mem.data) if unpack else len(B.data)) != (done + k if unpack else k):
                raise Cut("elements outside the range are written")
            done += k
            nxt = todo[done] if done < len(todo) else C.hi
            for d in range(dims):
                if not same(rd(idx, 8 * d), nxt[d]):
                    raise Cut("position after %d elements is %r instead of %r" % (done, [rd(idx, 8 * e) for e in range(dims)], nxt))
        if not unpack and it.call(fn, [m, r, P(idx), P(Mem("buf")), size]) != 0:
            raise Cut("packing continues after the end")
    return body


def f_copy(dims, widths, generic):
    def body(it):
        it.es = ES
        A = Case(it, dims, widths, it.choose(2), "a", pads=dims < 3)
        B = Case(it, dims, widths, it.choose(2), "b", A.space, pads=dims < 3, origin=A.lo)
        ma = A.mapping(ES)
        mb = B.mapping(ES)
        A.mem.name, B.mem.name = "from", "to"
        if generic == 1:
            it.call(M.fn("laik_layout_copy_gen").name, [A.rngobj((A.lo, A.hi)), ma, mb])
        else:
            it.call("laik_data_copy", [A.rngobj((A.lo, A.hi)), ma, mb])
        for i in A.indexes():
            if B.mem.get(B.off(i)) != ("from", A.off(i)):
                raise Cut("index %r holds %r instead of %r" % (i, B.mem.get(B.off(i)), ("from", A.off(i))))
        n = 1
        for w in widths:
            n *= w
        if len(B.mem.data) != n or A.mem.data:
            raise Cut("elements outside the range are written")
    return body


def f_custom(dims, widths, what):
    """a user-defined layout that only provides the mandatory functions"""
    def body(it):
        it.es = ES

        def c_off(i, a):
            o, b = i.deref(a[2])
            return add(*[mul(rd(o, b + 8 * d), sym("c%d" % d)) for d in range(dims)])
        it.handlers["custom_offset"] = c_off
        it.handlers["custom_mapno"] = lambda i, a: a[1]
        A = Case(it, dims, widths, 0, "a", pads=False)
        B = Case(it, dims, widths, it.choose(2), "b", A.space, pads=False, origin=A.lo)
        lay = Obj("custom")
        z = NULL
        it.call(M.fn("laik_init_layout").name, [P(lay), dims, 1, sym("cnt"), z, ("p", ("@", "custom_mapno"), 0), ("p", ("@", "custom_offset"), 0),
                                                z, z, z, z, z])
        A.layout = P(lay)
        A.off = lambda i: add(*[mul(i[d], sym("c%d" % d)) for d in range(dims)])
        for f, v in (("dims", dims), ("map_count", 1), ("count", sym("cnt"))):
            if rd(lay, fo("_Laik_Layout", f)[0]) != v:
                raise Cut("layout initialised with wrong " + f)
        ma, mb = A.mapping(ES), B.mapping(ES)
        A.mem.name, B.mem.name = "custom", "lex"
        if what in ("from", "to"):
            src, dst = (A, B) if what == "from" else (B, A)
            it.call("laik_data_copy", [A.rngobj((A.lo, A.hi)), *((ma, mb) if what == "from" else (mb, ma))])
            for i in A.indexes():
                if dst.mem.get(dst.off(i)) != (src.mem.name, src.off(i)):
                    raise Cut("index %r holds %r after copying" % (i, dst.mem.get(dst.off(i))))
        else:
            it.call(slot(A, "describe"), [A.layout])
            for name in ("pack", "unpack"):
                idx, buf = A.index(A.lo), Mem("buf")
                n = len(list(A.indexes()))
                if it.call(slot(A, name), [ma, A.rngobj((A.lo, A.hi)), P(idx), P(buf), mul(n, ES)]) != n:
                    raise Cut("%s of a layout without own functions transfers nothing" % name)
                for k, i in enumerate(A.indexes()):
                    if name == "pack" and buf.get(k) != ("custom", A.off(i)) or name == "unpack" and A.mem.get(A.off(i)) != ("buf", k):
                        raise Cut("%s of a layout without own functions transfers wrong elements" % name)
            # copying between two mappings of such a layout
            m2 = A.mapping(ES)
            A.mem.name = "second"
            it.call("laik_data_copy", [A.rngobj((A.lo, A.hi)), ma, m2])
            for i in A.indexes():
                if A.mem.get(A.off(i)) == ("second", A.off(i)):
                    raise Cut("copy of a layout without own functions copies nothing")
    return body


def f_reuse(dims):
    def body(it):
        sp = Obj("space")
        setf(sp, "_Laik_Space", dims=dims, name=P(Obj("name")), id=0)
        R = ssize("_Laik_Range")
        Ls, boxes = [], []
        # second section keeps both layouts distinct; section numbers differ
        secs = (it.choose(2), it.choose(2))
        for k in range(2):
            rs = Obj("ranges")
            for d in range(dims):
                it.order.add("a%d%d" % (k, d), -1, "b%d%d" % (k, d))
            b = ([sym("a%d%d" % (k, d)) for d in range(dims)], [sym("b%d%d" % (k, d)) for d in range(dims)])
            c = ([sym("c%d%d" % (k, d)) for d in range(dims)], [add(sym("c%d%d" % (k, d)), sym("+n%d%d" % (k, d))) for d in range(dims)])
            for i, x in enumerate((b, c) if secs[k] == 0 else (c, b)):
                setf(rs, "_Laik_Range", i * R, space=P(sp))
                for d in range(dims):
                    rs.cells[i * R + fo("_Laik_Range", "from")[0] + 8 * d] = (8, x[0][d])
                    rs.cells[i * R + fo("_Laik_Range", "to")[0] + 8 * d] = (8, x[1][d])
            boxes.append(b)
            Ls.append(it.call(M.fn("laik_new_layout_lex").name, [2, P(rs)]))
        o, off = it.deref(Ls[0])
        cnt = rd(o, off + fo("_Laik_Layout", "count")[0])
        f = rd(o, off + fo("_Laik_Layout", "reuse")[0])
        inside = all(it.cmpv(boxes[1][0][d], boxes[0][0][d]) <= 0 and it.cmpv(boxes[0][1][d], boxes[1][1][d]) <= 0 for d in range(dims))
        r = bool(it.call(f[1][1], [Ls[0], secs[0], Ls[1], secs[1]]) & 1)
        if r != inside:
            raise Cut("old memory %s reused although the new range is %s it" % ("is" if r else "is not", "inside" if inside else "not inside"))
        k = 1 if r else 0
        x = Obj("idx")
        s, want = 1, 0
        for d in range(dims):
            x.cells[8 * d] = (8, boxes[0][0][d])
            want = add(want, mul(add(boxes[0][0][d], mul(-1, boxes[k][0][d])), s))
            s = mul(s, add(boxes[k][1][d], mul(-1, boxes[k][0][d])))
        # addresses of the old memory must be kept: strides and origin of the old section
        s = 1
        for d in range(dims):
            g = it.call("laik_layout_lex_stride", [Ls[0], secs[0], d])
            if not same(g, s):
                raise Cut("stride %d after %s is %r instead of %r" % (d, "reuse" if r else "refused reuse", g, s))
            s = mul(s, add(boxes[k][1][d], mul(-1, boxes[k][0][d])))
        if not same(add(rd(o, off + fo("_Laik_Layout", "count")[0]), mul(-1, cnt)),
                    add(mul(*[add(boxes[k][1][d], mul(-1, boxes[k][0][d])) for d in range(dims)]),
                        mul(-1, mul(*[add(boxes[0][1][d], mul(-1, boxes[0][0][d])) for d in range(dims)])))):
            raise Cut("wrong number of covered indexes after reuse")
        if dims == 1:
            g = it.call("laik_offset", [Ls[0], secs[0], P(x)])
            if not same(g, want):
                raise Cut("offset %r of the first index instead of %r" % (g, want))
    return body


def families(thorough):
    out = []
    W = {1: [(1,), (3,)], 2: [(1, 1), (2, 2), (3, 2), (1, 3)], 3: [(1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1)]}
    if thorough:
        W = {1: [(w,) for w in (1, 2, 3, 4)], 2: list(itertools.product((1, 2, 3), repeat=2)), 3: list(itertools.product((1, 2), repeat=3)) + [(3, 2, 2), (2, 3, 2), (2, 2, 3)]}
    for dims in (1, 2, 3):
        out.append(("offset", "%d-d" % dims, f_offset(dims, (2,) * dims)))
        out.append(("section", "%d-d" % dims, f_section(dims)))
        for what in ("from", "to", "pack"):
            out.append(("custom", "%d-d, user-defined layout, %s" % (dims, what), f_custom(dims, (2, 2, 2)[:dims], what)))
        out.append(("reuse", "%d-d" % dims, f_reuse(dims)))
        for w in W[dims]:
            n = 1
            for x in w:
                n *= x
            for g in (False, True):
                for u in (False, True):
                    for bn in sorted({1, 2, 3, n} if dims < 3 or thorough else {1, 3, n}):
                        if bn <= n or bn == 2:
                            out.append(("unpack" if u else "pack", "%s, extents %s, buffer of %d" % ("generic" if g else "lexicographical", w, bn),
                                        f_pack(dims, w, bn, g, u)))
            out.append(("copy", "lexicographical, extents %s" % (w,), f_copy(dims, w, 0)))
            out.append(("copy", "generic, extents %s" % (w,), f_copy(dims, w, 1)))
    return out


ANCHOR = {"custom": "laik_init_layout", "offset": "laik_offset", "section": "laik_new_layout_lex", "reuse": "laik_new_layout_lex", "copy": "laik_data_copy",
          "pack": "laik_layout_pack_gen", "unpack": "laik_layout_unpack_gen"}


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, LInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one)
    c.assumptions += ["transferred ranges of up to 3 indexes per dimension stand for larger ones; strides, paddings, origins and element size are arbitrary"]
    return __doc__
