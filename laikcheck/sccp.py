"""Conditional constant propagation over SSA with overridable loads.

Lattice values: BOT (unreached), ('c', int), ('g', symbol), ('n',) null,
('sym', name), TOP.  Only edges whose condition is not decided the other way
are followed, so the result is the part of the function that can run under the
assumed inputs."""
import re

BOT, TOP = None, ("top",)


def width(ty):
    m = re.match(r"i(\d+)$", ty)
    return int(m.group(1)) if m else 64


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class SCCP:
    def __init__(self, fn, load=None, arg=None, call=None, sym_distinct=True):
        self.fn = fn
        self.load = load or (lambda I: None)
        self.call = call or (lambda I, s: None)
        self.argv = arg or (lambda n: None)
        self.val = {}
        self.edges = set()
        self.blocks = set()
        self.distinct = sym_distinct
        self.run()

    def get(self, o):
        k = o[0]
        if k == "i":
            return self.val.get(o[1], BOT)
        if k == "c":
            return ("c", o[1])
        if k in ("n", "g"):
            return tuple(o[:2])
        if k == "a":
            v = self.argv(o[1])
            return v if v is not None else TOP
        if k == "f":
            return ("f", o[1])
        return TOP

    def meet(self, a, b):
        if a is BOT:
            return b
        if b is BOT:
            return a
        return a if a == b else TOP

    def run(self):
        f = self.fn
        flow = [(None, f.blocks[0])]
        ssa = []
        while flow or ssa:
            if flow:
                a, b = flow.pop()
                if (a, b) in self.edges:
                    continue
                self.edges.add((a, b))
                first = b not in self.blocks
                self.blocks.add(b)
                for I in b.instrs:
                    if first or I.op == "phi":
                        self.visit(I, flow, ssa)
            else:
                I = ssa.pop()
                if I.blk in self.blocks:
                    self.visit(I, flow, ssa)

    def visit(self, I, flow, ssa):
        op = I.op
        if op == "br":
            if I.ops:
                c = self.get(I.ops[0])
                t, e = I.raw["s"]
                if c is BOT:
                    return
                if c[0] == "c":
                    flow.append((I.blk, self.fn.blocks[t if c[1] & 1 else e]))
                else:
                    flow.append((I.blk, self.fn.blocks[t]))
                    flow.append((I.blk, self.fn.blocks[e]))
            else:
                flow.append((I.blk, self.fn.blocks[I.raw["s"][0]]))
            return
        if op == "switch":
            c = self.get(I.ops[0])
            if c is BOT:
                return
            if c[0] == "c":
                for v, b in I.raw["cs"]:
                    if v == c[1]:
                        flow.append((I.blk, self.fn.blocks[b]))
                        return
                flow.append((I.blk, self.fn.blocks[I.raw["d"]]))
            else:
                for s in I.succs():
                    flow.append((I.blk, self.fn.blocks[s]))
            return
        if I.ty == "void":
            return
        v = self.compute(I)
        old = self.val.get(I.id, BOT)
        if v is BOT or v == old:
            return
        if old is not BOT:
            v = TOP
        if v == old:
            return
        self.val[I.id] = v
        ssa.extend(I.users)

    def compute(self, I):
        op = I.op
        if op == "phi":
            r = BOT
            for o, b in zip(I.ops, I.raw["in"]):
                if (self.fn.blocks[b], I.blk) in self.edges:
                    r = self.meet(r, self.get(o))
            return r
        if op == "load":
            v = self.load(I)
            if v is not None:
                return v
            return self.const_load(I)
        if op == "call":
            v = self.call(I, self)
            return v if v is not None else TOP
        if op == "select":
            c = self.get(I.ops[0])
            if c is BOT:
                return BOT
            if c[0] == "c":
                return self.get(I.ops[1] if c[1] & 1 else I.ops[2])
            a, b = self.get(I.ops[1]), self.get(I.ops[2])
            return self.meet(a, b)
        vs = [self.get(o) for o in I.ops]
        if any(v is BOT for v in vs):
            return BOT
        if op in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
            return vs[0]
        if op in ("sext", "zext", "trunc"):
            if vs[0][0] == "c":
                b0, b1 = width(I.raw["ft"]), width(I.ty)
                x = vs[0][1]
                if op == "zext":
                    x &= (1 << b0) - 1
                return ("c", signed(x, b1))
            return vs[0] if vs[0][0] == "sym" else TOP
        if op == "icmp":
            a, b = vs
            p = I.raw["p"]
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                if p[0] == "u":
                    x &= (1 << 64) - 1
                    y &= (1 << 64) - 1
                r = {"eq": x == y, "ne": x != y}.get(p)
                if r is None:
                    r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]
                return ("c", 1 if r else 0)
            if TOP in (a, b):
                return TOP
            if p in ("eq", "ne"):
                same = a == b
                if same or self.distinct:
                    return ("c", 1 if same == (p == "eq") else 0)
            return TOP
        if all(v[0] == "c" for v in vs) and op in ("add", "sub", "mul", "and", "or", "xor", "shl", "sdiv", "srem", "udiv", "urem", "ashr", "lshr"):
            b = width(I.ty)
            x, y = vs[0][1], vs[1][1]
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
                     "xor": lambda: x ^ y, "shl": lambda: x << y, "sdiv": lambda: int(x / y), "srem": lambda: x - y * int(x / y),
                     "udiv": lambda: x // y, "urem": lambda: x % y, "ashr": lambda: x >> y,
                     "lshr": lambda: (x & ((1 << b) - 1)) >> y}[op]()
            except ZeroDivisionError:
                return TOP
            return ("c", signed(r, b))
        if op == "and" and any(v == ("c", 0) for v in vs):
            return ("c", 0)
        return TOP

    def const_load(self, I):
        """load from a constant table with a constant index"""
        m = self.fn.mod
        p = I.ops[0]
        if p[0] == "g":
            g = m.globals.get(p[1])
            if g and g["const"] and g.get("init") and g["init"][0] in ("c", "g", "n"):
                return tuple(g["init"][:2])
            return TOP
        G = self.fn.val(p)
        if G is None or G.op != "getelementptr" or G.ops[0][0] != "g":
            return TOP
        g = m.globals.get(G.ops[0][1])
        if not g or not g["const"] or not g.get("init"):
            return TOP
        cur = g["init"]
        idx = [self.get(o) for o in G.ops[1:]]
        if any(i is BOT for i in idx):
            return BOT
        if any(i[0] != "c" for i in idx):
            return TOP
        if len(idx) > 1 and idx[0][1] == 0:
            idx = idx[1:]
        for i in idx:
            if cur[0] != "A" or not (0 <= i[1] < len(cur) - 1):
                return TOP
            cur = cur[1 + i[1]]
        if cur[0] in ("c", "g", "n"):
            return tuple(cur[:2])
        return TOP
