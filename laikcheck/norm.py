"""Normal forms: polynomials over SCEV trees, closed-form address/trip-count facts."""
from .ir import const_int


class Poly:
    """integer polynomial over atoms; atoms are hashable tuples"""
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __sub__(self, o):
        return self + o * Poly.const(-1)

    def __mul__(self, o):
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                k = tuple(sorted(a + b, key=repr))
                r[k] = r.get(k, 0) + x * y
        return Poly(r)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __repr__(self):
        return " + ".join("%d*%s" % (v, "*".join(map(str, k))) if k else str(v) for k, v in sorted(self.t.items(), key=repr)) or "0"

    def subst(self, a, p):
        if not any(a in k for k in self.t):
            return self
        r = Poly()
        for k, v in self.t.items():
            m = Poly.const(v)
            for x in k:
                m = m * (p if x == a else Poly.atom(x))
            r = r + m
        return r

    def is_const(self):
        return all(k == () for k in self.t)

    def cval(self):
        return self.t.get((), 0)


def scev_atom(op):
    return tuple(op) if not isinstance(op, tuple) else op


def scev_poly(s, rec=None):
    """SCEV tree -> Poly, casts transparent; loop-varying parts become ('rec', header) atoms.
    smax(0, x) is x (a count that is negative means no iteration)."""
    k = s[0]
    if k == "c":
        return Poly.const(s[1])
    if k == "v":
        return Poly.atom(tuple(map(lambda x: tuple(x) if isinstance(x, list) else x, s[1])))
    if k in ("zext", "sext", "trunc", "ptrtoint"):
        return scev_poly(s[1][0])
    if k == "add":
        r = Poly()
        for o in s[1]:
            r = r + scev_poly(o)
        return r
    if k == "mul":
        r = Poly.const(1)
        for o in s[1]:
            r = r * scev_poly(o)
        return r
    if k in ("smax", "umax"):
        ps = [scev_poly(o) for o in s[1]]
        nz = [p for p in ps if not (p.is_const() and p.cval() in (0, 1))]
        if len(nz) == 1:
            return nz[0]
        return Poly.atom((k,) + tuple(sorted(map(repr, ps))))
    if k == "rec":
        ops = [scev_poly(o) for o in s[2]]
        r = ops[0]
        if len(ops) == 2:
            return r + ops[1] * Poly.atom(("loop", s[1]))
        return Poly.atom(("rec", s[1], repr(s)))
    return Poly.atom(("opaque", repr(s)))


class Facts:
    """SCEV facts of one job function"""

    def __init__(self, f):
        self.f = f
        self.scev = {i: s for i, s in f.raw.get("scev", ())}
        self.loops = {}
        for h, parent, blocks, btc in f.raw.get("loops", ()):
            self.loops[h] = (parent, set(blocks), btc)

    def ptr(self, I):
        """address polynomial of a load/store"""
        s = self.scev.get(I.id)
        return scev_poly(s) if s is not None else None

    def value(self, op):
        if op[0] == "c":
            return Poly.const(op[1])
        if op[0] == "i" and op[1] in self.scev:
            return scev_poly(self.scev[op[1]])
        return Poly.atom(tuple(op))

    def loop_of(self, blk):
        best = None
        for h, (par, blocks, btc) in self.loops.items():
            if blk.id in blocks and (best is None or len(blocks) < len(self.loops[best][1])):
                best = h
        return best

    def trip(self, h, blk):
        """number of executions of block blk of loop h per loop entry (Poly) or None"""
        par, blocks, btc = self.loops[h]
        if btc[0] == "nc":
            return None
        f = self.f
        exiting = [b for b in f.blocks if b.id in blocks and any(s.id not in blocks for s in b.succs)]
        if len(exiting) != 1:
            return None
        e = exiting[0]
        p = scev_poly(btc)
        # blk executed before the exit test in the same iteration?
        if blk is e or f.dominates_block(blk, e):
            return p + Poly.const(1)
        if f.dominates_block(e, blk):
            return p
        return None
