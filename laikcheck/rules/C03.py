"""Range algebra is exact for every coordinate.

Each public range operation is interpreted over the order domain: coordinates
are opaque symbols, the abstract state is a partition of all weak orderings of
the coordinates (refined whenever the code or the definition compares two of
them), for 1, 2 and 3 dimensions and for valid/invalid operands.  The result in
every partition must be the one the definition of the operation gives in that
partition.  Sizes and index sums are compared as polynomials."""
from .. import core
from ..absint import Interp, Obj, Abort, Undecided, explore, sym, is_ptr, NULL, UNDEF, addv
from ..build import AnalysisError
from ..norm import Poly


class World:
    def __init__(self, m):
        self.m = m
        rs = m.structs["struct._Laik_Range"]
        sp = m.structs["struct._Laik_Space"]

        def off(s, field):
            st = m.structs[s]
            for k in range(len(st["el"])):
                if m.field(s, k) == field:
                    return st["el"][k][0]
            raise AnalysisError("no field %s.%s" % (s, field))
        self.o_space, self.o_from, self.o_to = (off("struct._Laik_Range", x) for x in ("space", "from", "to"))
        self.o_dims = off("struct._Laik_Space", "dims")
        self.o_range = off("struct._Laik_Space", "range")
        self.rsize = rs["size"]

    def space(self, dims, name="sp"):
        o = Obj(name)
        o.cells[self.o_dims] = (4, dims)
        return o

    def range(self, name, space, dims=3):
        o = Obj(name)
        self.put(o, 0, name, space, dims)
        return o

    def put(self, o, base, name, space, dims=3):
        o.cells[base + self.o_space] = (8, ("p", space, 0) if space else NULL)
        for d in range(3):
            # coordinates beyond the dimensionality are garbage: distinct unknown symbols
            o.cells[base + self.o_from + 8 * d] = (8, sym("%s.from%d%s" % (name, d, "" if d < dims else "!")))
            o.cells[base + self.o_to + 8 * d] = (8, sym("%s.to%d%s" % (name, d, "" if d < dims else "!")))

    def coord(self, it, p, which, d):
        o, off = it.deref(p)
        c = o.cells.get(off + (self.o_from if which == "from" else self.o_to) + 8 * d)
        return c[1] if c else UNDEF

    def spaceof(self, it, p):
        o, off = it.deref(p)
        c = o.cells.get(off + self.o_space)
        return c[1] if c else UNDEF


def B(r, d, which="from"):
    return sym("%s.%s%d" % (r, which, d))


class Spec:
    """definitions, evaluated in the same refinement"""

    def __init__(self, it):
        self.it = it

    def lt(self, a, b):
        return self.it.cmpv(a, b) < 0

    def eq(self, a, b):
        return self.it.cmpv(a, b) == 0

    def empty(self, r, dims):
        return any(not self.lt(B(r, d), B(r, d, "to")) for d in range(dims))

    def isect_empty(self, r1, r2, dims):
        return any(not (self.lt(B(r1, d), B(r2, d, "to")) and self.lt(B(r2, d), B(r1, d, "to"))) for d in range(dims))

    def maxv(self, a, b):
        return b if self.lt(a, b) else a

    def minv(self, a, b):
        return a if self.lt(a, b) else b

    def same(self, a, b):
        """equal in this refinement"""
        if not isinstance(a, (Poly, int)) or not isinstance(b, (Poly, int)):
            return False
        return self.it.cmpv(a, b) == 0


def ordering(it):
    """readable description of the current refinement"""
    out = []
    for a, bs in it.order.lt.items():
        for b in bs:
            out.append("%s<%s" % (a, b))
    for b, a in it.order.par.items():
        out.append("%s=%s" % (a, b))
    return ", ".join(sorted(out)) or "any ordering"


def run(c):
    m = core.load()
    W = World(m)
    tot = [0]

    def op(fname, inst, setup, verify, abort_ok=None, cap=40000):
        """setup(it) -> args ; verify(it, spec, ret) -> None or error"""
        F = m.fn(fname)
        err = None
        n = 0

        def body(choose):
            it = Interp(m, choose)
            args = setup(it)
            sp = Spec(it)
            try:
                ret = it.call(F.name, args)
            except Abort as e:
                if abort_ok and abort_ok(it, sp):
                    return None
                return "fails (%s) for %s" % (e, ordering(it))
            except Undecided as e:
                return "cannot be decided by the order of the coordinates: %s" % e
            try:
                r = verify(it, sp, ret)
            except Undecided as e:
                r = "result leaves the order domain: %s" % e
            except Abort as e:
                r = "result unreadable: %s" % e
            return r and "%s for %s" % (r, ordering(it))
        for r in explore(body, cap):
            n += 1
            if r is not None:
                err = r
                break
        tot[0] += n
        c.check(err is None, fname_rule(fname), "%s, %s" % (fname.replace("laik_", ""), inst), F.loc(), err or "")

    def fname_rule(f):
        return "definition-of-" + f.replace("laik_", "").replace("_", "-")

    def truth(ret, want):
        if not isinstance(ret, int):
            return "returns %r" % (ret,)
        return None if bool(ret & 1 if ret in (-1, 1, 0) else ret) == want else "returns %s, definition gives %s" % (bool(ret), want)

    P = lambda o: ("p", o, 0)
    for dims in (1, 2, 3):
        S = {}

        def two(it, dims=dims, null1=False, null2=False):
            s = W.space(dims)
            a = W.range("a", None if null1 else s, dims)
            b = W.range("b", None if null2 else s, dims)
            S["s"], S["a"], S["b"] = s, a, b
            return a, b

        D = "%d-d" % dims
        op("laik_range_isEmpty", D, lambda it: [P(two(it)[0])],
           lambda it, sp, r: truth(r, sp.empty("a", dims)))

        def v_isect(it, sp, r, n1="a", n2="b"):
            want_empty = sp.isect_empty(n1, n2, dims)
            if not is_ptr(r):
                return "returns %r" % (r,)
            if want_empty:
                if r[1] is None:
                    return None
                # empty operands: an explicit empty range is an equally valid answer
                if not sp.empty(n1, dims) and not sp.empty(n2, dims):
                    return "a range is returned although the (non-empty) operands have no common index"
                if W.spaceof(it, r) == NULL or any(not sp.lt(W.coord(it, r, "from", d), W.coord(it, r, "to", d)) for d in range(dims)):
                    return None
                return "non-empty result for disjoint ranges"
            if r[1] is None:
                return "no result although the ranges have common indexes"
            if W.spaceof(it, r) != P(S["s"]):
                return "result not in the space of the operands"
            for d in range(dims):
                if not sp.same(W.coord(it, r, "from", d), sp.maxv(B(n1, d), B(n2, d))):
                    return "lower border in dimension %d is %r" % (d, W.coord(it, r, "from", d))
                if not sp.same(W.coord(it, r, "to", d), sp.minv(B(n1, d, "to"), B(n2, d, "to"))):
                    return "upper border in dimension %d is %r" % (d, W.coord(it, r, "to", d))
            return None
        op("laik_range_intersect", D, lambda it: [P(x) for x in two(it)], v_isect)
        op("laik_range_intersect", D + " range with itself", lambda it: [P(two(it)[0])] * 2, lambda it, sp, r: v_isect(it, sp, r, "a", "a"))

        def v_unchanged(it, sp, o, name):
            for d in range(dims):
                for w in ("from", "to"):
                    if W.coord(it, P(o), w, d) != B(name, d, w):
                        return "operand %s changed" % name
            return None

        def v_expand(it, sp, r):
            for d in range(dims):
                if not sp.same(W.coord(it, P(S["a"]), "from", d), sp.minv(B("a", d), B("b", d))):
                    return "lower border in dimension %d becomes %r" % (d, W.coord(it, P(S["a"]), "from", d))
                if not sp.same(W.coord(it, P(S["a"]), "to", d), sp.maxv(B("a", d, "to"), B("b", d, "to"))):
                    return "upper border in dimension %d becomes %r" % (d, W.coord(it, P(S["a"]), "to", d))
            if W.spaceof(it, P(S["a"])) != P(S["s"]):
                return "space of the range changed"
            return v_unchanged(it, sp, S["b"], "b")
        op("laik_range_expand", D, lambda it: [P(x) for x in two(it)], v_expand)

        def v_within(it, sp, r):
            if sp.empty("a", dims):
                return None if isinstance(r, int) else "returns %r" % (r,)
            want = all(not sp.lt(B("a", d), B("b", d)) and not sp.lt(B("b", d, "to"), B("a", d, "to")) for d in range(dims))
            return truth(r, want)
        op("laik_range_within_range", D, lambda it: [P(x) for x in two(it)], v_within)

        def in_space(it):
            s = W.space(dims)
            W.put(s, W.o_range, "b", s, dims)
            return [P(W.range("a", s, dims)), P(s)]
        op("laik_range_within_space", D, in_space, v_within)

        def v_eq(it, sp, r):
            want = all(sp.eq(B("a", d, w), B("b", d, w)) for d in range(dims) for w in ("from", "to"))
            return truth(r, want)
        op("laik_range_isEqual", D, lambda it: [P(x) for x in two(it)], v_eq)

        def two_spaces(it):
            a, b = two(it)
            b2 = W.range("b", W.space(dims, "other"), dims)
            return [P(a), P(b2)]
        op("laik_range_isEqual", D + " different spaces", two_spaces, lambda it, sp, r: truth(r, False))

        def idx2(it):
            o = []
            for n in "ab":
                x = Obj(n)
                for d in range(3):
                    x.cells[8 * d] = (8, sym("%s.from%d%s" % (n, d, "" if d < dims else "!")))
                o.append(x)
            return [dims, P(o[0]), P(o[1])]
        op("laik_index_isEqual", D, idx2, lambda it, sp, r: truth(r, all(sp.eq(B("a", d), B("b", d)) for d in range(dims))))

        def v_size(it, sp, r):
            want = Poly.const(1)
            for d in range(dims):
                want = want * (B("a", d, "to") - B("a", d))
            if sp.empty("a", dims):
                # empty extents make the product 0
                for d in range(dims):
                    if sp.eq(B("a", d), B("a", d, "to")):
                        want = Poly()
                r0 = r if isinstance(r, Poly) else Poly.const(r) if isinstance(r, int) else None
                if r0 is None:
                    return "returns %r" % (r,)
                # the returned polynomial must vanish: substitute equal borders
                t = Poly.const(1)
                sub = Poly()
                for k, v in r0.t.items():
                    x = Poly.const(v)
                    for a in k:
                        x = x * Poly.atom(it.order.find(a))
                    sub = sub + x
                return None if sub == Poly() else "size of an empty range is %r" % sub
            r0 = r if isinstance(r, Poly) else Poly.const(r) if isinstance(r, int) else None
            return None if r0 == want else "returns %r instead of the product of the extents" % (r,)
        inv_ok = lambda it, sp: any(sp.lt(B("a", d, "to"), B("a", d)) for d in range(dims))

        def v_size_valid(it, sp, r):
            if any(sp.lt(B("a", d, "to"), B("a", d)) for d in range(dims)):
                return None     # not a range (borders reversed)
            return v_size(it, sp, r)
        op("laik_range_size", D, lambda it: [P(two(it)[0])], v_size_valid, abort_ok=inv_ok)

        def the_space(it):
            s = W.space(dims)
            W.put(s, W.o_range, "a", s, dims)
            return [P(s)]
        op("laik_space_size", D, the_space, v_size_valid, abort_ok=inv_ok)

        # invalid operands
        op("laik_range_isEmpty", D + " invalid range", lambda it: [P(two(it, null1=True)[0])], lambda it, sp, r: truth(r, True))
        op("laik_range_size", D + " invalid range", lambda it: [P(two(it, null1=True)[0])],
           lambda it, sp, r: None if r == 0 else "size of an invalid range is %r" % (r,))
        for n1, n2 in ((True, False), (False, True), (True, True)):
            w = "%s invalid operand%s" % (D, "s" if n1 and n2 else " 1" if n1 else " 2")
            op("laik_range_within_range", w, lambda it: [P(x) for x in two(it, null1=n1, null2=n2)], lambda it, sp, r: truth(r, False))
            op("laik_range_isEqual", w, lambda it: [P(x) for x in two(it, null1=n1, null2=n2)], lambda it, sp, r: truth(r, False))
            op("laik_range_intersect", w, lambda it: [P(x) for x in two(it, null1=n1, null2=n2)],
               lambda it, sp, r: None if is_ptr(r) and (r[1] is None or W.spaceof(it, r) == NULL) else "intersection with an invalid range is not invalid")
        op("laik_range_expand", D + " invalid destination", lambda it: [P(x) for x in two(it, null1=True)],
           lambda it, sp, r: None if W.spaceof(it, P(S["a"])) == NULL else "invalid range became valid")

        # construction
        def v_init(it, sp, r):
            o = P(S["a"])
            if W.spaceof(it, o) != P(S["s"]):
                return "space not set"
            for d in range(dims):
                for w in ("from", "to"):
                    if W.coord(it, o, w, d) != B("n", d, w):
                        return "%s border in dimension %d is %r" % (w, d, W.coord(it, o, w, d))
            return None

        def init_d(it):
            a, b = two(it, null1=True)
            l = [P(a), P(S["s"])]
            for d in range(dims):
                l += [B("n", d), B("n", d, "to")]
            return l
        op("laik_range_init_%dd" % dims, D, init_d, v_init)

        def init_g(it):
            a, b = two(it, null1=True)
            l = [P(a), P(S["s"])]
            for w in ("from", "to"):
                x = Obj("ix")
                for d in range(3):
                    x.cells[8 * d] = (8, B("n", d, w))
                l.append(P(x))
            return l
        op("laik_range_init", D, init_g, v_init)

        def init_c(it):
            a, b = two(it, null1=True)
            n = W.range("n", S["s"], 3)
            return [P(a), P(n)]
        op("laik_range_init_copy", D, init_c, v_init)

        # spaces: creation and change of extents
        from ..model import fo, setf
        from .. import model
        model.M = m
        strs = {"strdup": lambda i, a: P(Obj("str")), "sprintf": lambda i, a: 0, "snprintf": lambda i, a: 0}

        def inst():
            o = Obj("instance")
            setf(o, "_Laik_Instance", firstSpaceForInstance=NULL)
            return o

        def new_space(it):
            it.handlers.update(strs)
            S["inst"] = inst()
            return [P(S["inst"])] + [B("n", d, "to") for d in range(dims)]

        def v_new(it, sp, r):
            if not is_ptr(r) or r[1] is None:
                return "no space returned"
            if it.call(m.fn("laik_space_getdimensions").name, [r]) != dims:
                return "wrong number of dimensions"
            g = it.call(m.fn("laik_space_asrange").name, [r])
            if W.spaceof(it, g) != r:
                return "range of the space belongs to another space"
            for d in range(dims):
                if W.coord(it, g, "from", d) != 0 or W.coord(it, g, "to", d) != B("n", d, "to"):
                    return "extent in dimension %d is %r to %r" % (d, W.coord(it, g, "from", d), W.coord(it, g, "to", d))
            lst = S["inst"].cells.get(fo("_Laik_Instance", "firstSpaceForInstance")[0])
            if not lst or lst[1] != r:
                return "the space is not known to its instance"
            return None
        op("laik_new_space_%dd" % dims, D, new_space, v_new)

        def change(stored):
            def f(it):
                s = W.space(dims)
                W.put(s, W.o_range, "a", s, dims)
                setf(s, "_Laik_Space", kvs=P(Obj("store")) if stored else NULL)
                S["s"], S["told"] = s, 0

                def told(i, a):
                    S["told"] += 1
                    # what is published must be the new extents
                    S["pub"] = [W.coord(it, P(s), w, d) if False else s.cells[W.o_range + (W.o_from if w == "from" else W.o_to) + 8 * d][1] for d in range(dims) for w in ("from", "to")]
                it.handlers["laik_spacestore_set"] = told
                return [P(s)] + [B("b", d, w) for d in range(dims) for w in ("from", "to")]
            return f

        def v_change(stored):
            def f(it, sp, r):
                same = True
                for d in range(dims):
                    for w in ("from", "to"):
                        o = W.o_range + (W.o_from if w == "from" else W.o_to) + 8 * d
                        if not sp.same(S["s"].cells[o][1], B("b", d, w)):
                            return "%s border in dimension %d is %r" % (w, d, S["s"].cells[o][1])
                        same = same and sp.same(B("a", d, w), B("b", d, w))
                if S["told"] and not stored:
                    return "a space not in a store is published"
                if stored and not same and S["told"] != 1:
                    return "a changed space is published %d times" % S["told"]
                if S["told"] and any(not sp.same(x, B("b", d, w)) for x, (d, w) in zip(S["pub"], [(d, w) for d in range(dims) for w in ("from", "to")])):
                    return "old extents are published"
                return None
            return f
        for stored in (False, True):
            op("laik_change_space_%dd" % dims, D + (", in a store" if stored else ""), change(stored), v_change(stored))

    # index arithmetic
    for fn, sgn in (("laik_add_index", 1), ("laik_sub_index", -1)):
        st = {}

        def setup(it):
            o = []
            for n in ("r", "a", "b"):
                x = Obj(n)
                for d in range(3):
                    x.cells[8 * d] = (8, sym("%s%d" % (n, d)))
                o.append(x)
            st["r"] = o[0]
            return [P(x) for x in o]

        def v(it, sp, r):
            for d in range(3):
                want = sym("a%d" % d) + sym("b%d" % d) * Poly.const(sgn)
                if st["r"].cells[8 * d][1] != want:
                    return "component %d is %r" % (d, st["r"].cells[8 * d][1])
            return None
        op(fn, "all components", setup, v)
    st = {}

    def setup(it):
        st["r"] = Obj("r")
        return [P(st["r"])] + [sym("x%d" % d) for d in range(3)]
    op("laik_index_init", "all components", setup,
       lambda it, sp, r: None if all(st["r"].cells.get(8 * d, (0, 0))[1] == sym("x%d" % d) for d in range(3)) else "component not set")
    c.count("order partitions examined", tot[0])
    # self-test: the domain distinguishes all orderings of four borders
    n = sum(1 for _ in explore(lambda ch: full(ch)))
    c.selftest(n == 75, "75 weak orderings of 4 borders, got %d" % n)
    c.assumptions += ["the sums/differences of coordinates do not overflow 64 bits (index spaces smaller than 2^63)"]
    return __doc__


def full(choose):
    from ..absint import Order
    o = Order(choose)
    for a, b in ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)):
        o.cmp("s%d" % a, "s%d" % b)
