"""Reductions of the built-in element types.

For every built-in type object the registered init and reduce functions are
specialised (constant binding of the operation, null / non-null binding of the
inputs, inlining, LLVM scalar and loop normalisation) and the resulting normal
form is compared with the definition of the operation: address and trip-count
closed forms from scalar evolution, the stored value as an expression over the
two loaded elements, min/max decided over the three possible orderings."""
import re
from .. import core, ir, norm
from ..build import AnalysisError
from ..norm import Poly, Facts

PASSES = ("mem2reg,instcombine,early-cse<memssa>,simplifycfg<sink-common-insts>,gvn,"
          "instcombine,simplifycfg,gvn,instcombine,simplifycfg,loop-simplify")

TYPES = {  # public type object -> (bytes, kind)
    "laik_Char": (1, "s"), "laik_Int32": (4, "s"), "laik_Int64": (8, "s"),
    "laik_UChar": (1, "u"), "laik_UInt32": (4, "u"), "laik_UInt64": (8, "u"),
    "laik_Float": (4, "f"), "laik_Double": (8, "f"),
}
OPS = ["Sum", "Prod", "Min", "Max", "And", "Or"]
NAMES = {"laik_Char": "char", "laik_Int32": "int32", "laik_Int64": "int64", "laik_UChar": "uchar",
         "laik_UInt32": "uint32", "laik_UInt64": "uint64", "laik_Float": "float", "laik_Double": "double"}


def registrations(m):
    """public type object -> {field: operand value}; resolves the constructor
    through its summary (argument -> stored field)."""
    reg = {}
    for f in m.defined():
        for I in f.instrs():
            if I.op != "store" or I.ops[1][0] != "g" or I.ops[1][1] not in TYPES:
                continue
            g = I.ops[1][1]
            src = f.val(I.ops[0])
            if src is None:
                continue
            fields = fields_of(m, f, src, 0)
            if fields:
                if g in reg:
                    raise AnalysisError("several registrations of " + g)
                reg[g] = (fields, I)
    return reg


def fields_of(m, f, v, depth):
    """fields stored into the object returned as v: directly or through a constructor call"""
    out = {}
    # stores through v in f
    for U in f.instrs():
        if U.op == "store":
            a = ir.access_field(f, U.ops[1])
            if a:
                base = ir.strip_casts(f, a[2].ops[0])
                if base == ("i", v.id):
                    out[a[1]] = U.ops[0]
    if v.op == "call" and v.callee in m.functions and not m.functions[v.callee].decl and depth < 4:
        g = m.functions[v.callee]
        for R in g.instrs():
            if R.op == "ret" and R.ops:
                rv = g.val(ir.strip_casts(g, R.ops[0]))
                cand = [rv] if rv is not None else []
                if rv is not None and rv.op == "phi":
                    cand = [g.val(o) for o in rv.ops if g.val(o) is not None]
                for c in cand:
                    for k, o in fields_of(m, g, c, depth + 1).items():
                        if o[0] == "a":
                            out.setdefault(k, v.args[o[1]])
                        elif o[0] in ("g", "c", "n"):
                            out.setdefault(k, o)
    return out


def element(f, o, P, depth=0):
    """value expression tree over elements: ('in', argno) with matching address, consts, ops"""
    v = f.val(o)
    if v is None:
        if o[0] == "c":
            return ("c", o[1])
        if o[0] == "f":
            return ("f", float(o[1]))
        return ("?", o)
    if depth > 12:
        return ("?", "deep")
    if v.op == "load":
        return ("ld", v)
    if v.op in ("sext", "zext", "trunc", "fpext", "fptrunc", "freeze"):
        return (v.op, element(f, v.ops[0], P, depth + 1), v.ty)
    if v.op in ("add", "mul", "and", "or", "fadd", "fmul", "sub", "xor", "shl"):
        return (v.op, element(f, v.ops[0], P, depth + 1), element(f, v.ops[1], P, depth + 1))
    if v.op == "select":
        return ("select", element(f, v.ops[0], P, depth + 1), element(f, v.ops[1], P, depth + 1), element(f, v.ops[2], P, depth + 1))
    if v.op in ("icmp", "fcmp"):
        return ("cmp", v.raw["p"], element(f, v.ops[0], P, depth + 1), element(f, v.ops[1], P, depth + 1))
    if v.op == "call" and v.callee and v.callee.startswith("llvm."):
        return (v.callee.split(".")[1],) + tuple(element(f, a, P, depth + 1) for a in v.args)
    return ("?", v.op)


def eval_order(t, order, kind, bits):
    """evaluate a min/max candidate tree: order = (rank of a, rank of b); returns 'a'/'b' or bool; None unknown.
    Comparisons must have the signedness of the element type."""
    k = t[0]
    if k in ("a", "b"):
        return k
    if k in ("sext", "zext", "trunc"):
        if (k == "sext" and kind != "s") or (k == "zext" and kind != "u"):
            return None
        return eval_order(t[1], order, kind, bits)
    if k in ("fpext", "fptrunc"):
        return eval_order(t[1], order, kind, bits)
    rank = lambda x: order[0] if x == "a" else order[1]
    if k == "cmp":
        x, y = eval_order(t[2], order, kind, bits), eval_order(t[3], order, kind, bits)
        if x not in ("a", "b") or y not in ("a", "b"):
            return None
        p = t[1]
        if p in ("eq", "ne"):
            c = p
        elif kind == "f":
            if p[0] not in "ou":
                return None
            c = {"eq": "eq", "ne": "ne"}.get(p[1:], p[1:])
        elif kind == "s":
            # narrow unsigned values widened to int compare signed; element itself signed
            if p[0] != "s":
                return None
            c = p[1:]
        else:
            if p[0] != "u" and bits >= 32:
                return None
            c = p[1:]
        r = (rank(x) > rank(y)) - (rank(x) < rank(y))
        return {"lt": r < 0, "le": r <= 0, "gt": r > 0, "ge": r >= 0, "eq": r == 0, "ne": r != 0}[c]
    if k == "select":
        c = eval_order(t[1], order, kind, bits)
        if c is True:
            return eval_order(t[2], order, kind, bits)
        if c is False:
            return eval_order(t[3], order, kind, bits)
        return None
    if k in ("smin", "smax", "umin", "umax", "minnum", "maxnum"):
        want = {"s": "s", "u": "u", "f": ""}[kind]
        if kind != "f" and k[0] != want:
            return None
        x, y = eval_order(t[1], order, kind, bits), eval_order(t[2], order, kind, bits)
        if x not in ("a", "b") or y not in ("a", "b"):
            return None
        if "min" in k:
            return x if rank(x) <= rank(y) else y
        return x if rank(x) >= rank(y) else y
    return None


def neutral_ok(op, kind, size, val):
    """is constant val (as stored) the neutral element of op for that type"""
    bits = 8 * size
    if kind == "f":
        fmax = 3.4028234663852886e38 if size == 4 else 1.7976931348623157e308
        x = float(val)
        if op == "Sum":
            return x == 0.0
        if op == "Prod":
            return x == 1.0
        if op == "Min":
            return x == float("inf") or x >= fmax * (1 - 1e-8)
        if op == "Max":
            return x == float("-inf") or x <= -fmax * (1 - 1e-8)
        return False
    u = val % (1 << bits)
    s = u - (1 << bits) if u >> (bits - 1) else u
    if op in ("Sum", "Or"):
        return u == 0
    if op == "Prod":
        return u == 1
    if op == "And":
        return u == (1 << bits) - 1
    if op == "Min":
        return (s == (1 << (bits - 1)) - 1) if kind == "s" else u == (1 << bits) - 1
    if op == "Max":
        return (s == -(1 << (bits - 1))) if kind == "s" else u == 0
    return False


def live(f):
    return f.reach_blocks(f.blocks[0])


def returning(f):
    """blocks from which a return is reachable (assert failures excluded)"""
    good = set()
    for b in f.blocks:
        if b.term is not None and b.term.op == "ret":
            w = [b]
            while w:
                x = w.pop()
                if x in good:
                    continue
                good.add(x)
                w.extend(x.preds)
    return good


def effects(f):
    """memory effects on returning paths: list of ('store', I) / ('memcpy', I) / ('memset', I) / ('call', I)"""
    good = returning(f) & live(f)
    out = []
    for b in f.blocks:
        if b not in good:
            continue
        for I in b.instrs:
            if I.op == "store":
                out.append(("store", I))
            elif I.op == "call" and I.callee:
                n = I.callee
                if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
                    out.append(("memcpy", I))
                elif n.startswith("llvm.memset") or n == "memset":
                    out.append(("memset", I))
                elif n.startswith("llvm."):
                    continue
                elif n.startswith("laik_log") or n in ("laik_panic",):
                    continue
                else:
                    out.append(("call", I))
            elif I.op == "call":
                out.append(("call", I))
    return out


def whole(fx, I, outarg, cntarg, size):
    """is the store I executed once per element of out[0..count)?  -> None or error text"""
    f = fx.f
    h = fx.loop_of(I.blk)
    if h is None:
        return "store outside of the element loop"
    if fx.loops[h][0] != -1:
        return "unexpected nested loop"
    trip = fx.trip(h, I.blk)
    cnt = Poly.atom(("a", cntarg))
    if trip is None:
        return "element count of the loop has no closed form"
    if trip != cnt:
        return "loop covers %s elements instead of the given count" % trip
    p = fx.ptr(I)
    base = Poly.atom(("a", outarg))
    it = Poly.atom(("loop", h))
    fwd = base + it * Poly.const(size)
    bwd = base + (cnt - Poly.const(1)) * Poly.const(size) - it * Poly.const(size)
    if p not in (fwd, bwd):
        return "element address %s is not the %d-byte element of the iteration" % (p, size)
    return None


def run(c):
    m = core.load()
    reg = registrations(m)
    c.need("built-in types registered", len(reg), 8)
    ro = {}
    for op in OPS:
        v = m.enum_const("LAIK_RO_" + op)
        if v is None:
            raise AnalysisError("no enumerator LAIK_RO_" + op)
        ro[op] = v
    jobs = []
    plan = []
    for g, (fl, I) in sorted(reg.items()):
        size, kind = TYPES[g]
        loc = I.loc()
        init, red = fl.get("init"), fl.get("reduce")
        sz = fl.get("size")
        c.check(sz is not None and sz[0] == "c" and sz[1] == size, "type-table", NAMES[g] + ": element size", loc,
                "%s is registered with element size %s, expected %d" % (NAMES[g], sz, size))
        if not init or init[0] != "g" or not red or red[0] != "g":
            c.bad("type-table", NAMES[g] + ": functions", loc, "type %s is registered without init/reduce function" % NAMES[g])
            continue
        for op in OPS:
            b = ro[op]
            jid = "%s.%s" % (g, op)
            common = {"inline": "all", "passes": PASSES, "scev": True}
            jobs.append(dict(common, id=jid + ".init", root=init[1], bind={"2": b}, nonnull=[0]))
            jobs.append(dict(common, id=jid + ".red0", root=red[1], bind={"4": b, "1": 0, "2": 0}, nonnull=[0]))
            jobs.append(dict(common, id=jid + ".red1", root=red[1], bind={"4": b, "2": 0}, nonnull=[0, 1]))
            jobs.append(dict(common, id=jid + ".red2", root=red[1], bind={"4": b, "1": 0}, nonnull=[0, 2]))
            jobs.append(dict(common, id=jid + ".red12", root=red[1], bind={"4": b}, nonnull=[0, 1, 2]))
            plan.append((g, op, jid, size, kind, loc))
    m2 = core.load(jobs, dump=False)
    c.count("specialisations", len(jobs))
    for g, op, jid, size, kind, loc in plan:
        unsupported = kind == "f" and op in ("And", "Or")
        for suffix, what in ((".init", "initial value"), (".red0", "reduction without input")):
            f = m2.jobs[jid + suffix]
            inst = "%s/%s: %s" % (NAMES[g], op, what)
            if unsupported:
                c.check(not [e for e in effects(f)] and not returning(f) & live(f), "unsupported-rejected", inst, f.loc(),
                        "bitwise %s on %s returns instead of being rejected" % (op, NAMES[g]))
                continue
            cnt = 1 if suffix == ".init" else 3
            check_init(c, f, inst, op, kind, size, cnt)
        if unsupported:
            f = m2.jobs[jid + ".red12"]
            c.check(not returning(f) & live(f), "unsupported-rejected", "%s/%s: two inputs" % (NAMES[g], op), f.loc(),
                    "bitwise %s on %s returns instead of being rejected" % (op, NAMES[g]))
            continue
        for suffix, src in ((".red1", 1), (".red2", 2)):
            f = m2.jobs[jid + suffix]
            check_copy(c, f, "%s/%s: only input %d present" % (NAMES[g], op, src), src, size)
        check_both(c, m2.jobs[jid + ".red12"], "%s/%s: two inputs" % (NAMES[g], op), op, kind, size)
    # positive self-tests of the deciders
    c.selftest(not neutral_ok("Min", "u", 4, 0) and neutral_ok("Max", "s", 8, -2**63), "neutral element table")
    c.selftest(eval_order(("select", ("cmp", "sgt", ("a",), ("b",)), ("a",), ("b",)), (0, 1), "s", 32) == "b", "ordering evaluation")
    c.assumptions += ["LLVM 18's mem2reg/instcombine/gvn/simplifycfg passes and scalar evolution preserve semantics",
                      "element counts passed in are not negative"]
    return ("Static specialisation and normalisation of the %d init/reduce functions registered for the 8 built-in element types, "
            "for 6 operations and all 4 combinations of present inputs; each resulting closed form is compared with the definition "
            "of the operation (neutral element, element-wise operator with the type's signedness, every element of the count covered, "
            "byte count of the copy)." % (2 * len(reg)))


def check_init(c, f, inst, op, kind, size, cnt):
    fx = Facts(f)
    eff = effects(f)
    if len(eff) == 1 and eff[0][0] == "memset":
        I = eff[0][1]
        v = I.args[1]
        okv = v[0] == "c"
        if okv:
            b = v[1] % 256
            val = int.from_bytes(bytes([b]) * size, "little")
            okv = neutral_ok(op, kind, size, val if kind != "f" else (0.0 if b == 0 else 9e9))
        n = fx.value(I.args[2])
        c.check(I.args[0] == ("a", 0) and okv, "neutral-element", inst, I.loc(), "initial value is not the neutral element of the operation")
        c.check(n == Poly.atom(("a", cnt)) * Poly.const(size), "all-elements", inst, I.loc(), "initialises %s bytes" % n)
        return
    if len(eff) != 1 or eff[0][0] != "store":
        c.bad("neutral-element", inst, f.loc(), "expected exactly one element store, found %s" % [e[0] + "@" + e[1].loc() for e in eff][:4])
        return
    I = eff[0][1]
    e = element(f, I.ops[0], None)
    ok = e[0] in ("c", "f") and neutral_ok(op, kind, size, e[1]) and I.raw["sz"] == size and (I.ops[0][0] == "f") == (kind == "f")
    c.check(ok, "neutral-element", inst, I.loc(),
            "stores %s (%d byte) which is not the neutral element of %s" % (e[1] if e[0] in ("c", "f") else "a computed value", I.raw["sz"], op))
    w = whole(fx, I, 0, cnt, size)
    c.check(w is None, "all-elements", inst, I.loc(), w or "")


def check_copy(c, f, inst, src, size):
    fx = Facts(f)
    eff = effects(f)
    if len(eff) == 1 and eff[0][0] == "memcpy":
        I = eff[0][1]
        n = fx.value(I.args[2])
        c.check(I.args[0] == ("a", 0) and I.args[1] == ("a", src), "copy-single-input", inst, I.loc(), "copies something else than the only input to the output")
        c.check(n == Poly.atom(("a", 3)) * Poly.const(size), "all-elements", inst, I.loc(), "copies %s bytes instead of count * %d" % (n, size))
        return
    if len(eff) == 1 and eff[0][0] == "store":
        I = eff[0][1]
        e = element(f, I.ops[0], None)
        h = fx.loop_of(I.blk)
        w = whole(fx, I, 0, 3, size)
        okl = e[0] == "ld" and w is None and (fx.ptr(e[1]) - Poly.atom(("a", src))) == (fx.ptr(I) - Poly.atom(("a", 0)))
        c.check(okl, "copy-single-input", inst, I.loc(), w or "does not copy the only input element by element")
        return
    c.bad("copy-single-input", inst, f.loc(), "expected one copy of the only input, found %s" % [e[0] + "@" + e[1].loc() for e in eff][:4])


def check_both(c, f, inst, op, kind, size):
    fx = Facts(f)
    eff = effects(f)
    if len(eff) != 1 or eff[0][0] != "store":
        c.bad("element-operation", inst, f.loc(), "expected exactly one element store, found %s" % [e[0] + "@" + e[1].loc() for e in eff][:4])
        return
    I = eff[0][1]
    w = whole(fx, I, 0, 3, size)
    c.check(w is None, "all-elements", inst, I.loc(), w or "")
    t = element(f, I.ops[0], None)
    opos = fx.ptr(I) - Poly.atom(("a", 0))
    bad = []

    def rename(t):
        if t[0] == "ld":
            p = fx.ptr(t[1])
            if t[1].raw["sz"] == size:
                if p - Poly.atom(("a", 1)) == opos:
                    return ("a",)
                if p - Poly.atom(("a", 2)) == opos:
                    return ("b",)
            bad.append("reads %s" % p)
            return ("?",)
        return tuple(rename(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)
    t = rename(t)
    if I.raw["sz"] != size:
        bad.append("stores %d bytes" % I.raw["sz"])
    c.check(not bad, "same-position", inst, I.loc(), "; ".join(bad) or "")

    def strip(t):
        while t[0] in ("sext", "zext", "trunc", "fpext", "fptrunc"):
            t = t[1]
        return t
    ok = False
    if op in ("Sum", "Prod", "And", "Or"):
        want = {"Sum": ("add", "fadd"), "Prod": ("mul", "fmul"), "And": ("and",) * 2, "Or": ("or",) * 2}[op][1 if kind == "f" else 0]
        s = strip(t)
        ok = s[0] == want and sorted([strip(s[1])[0], strip(s[2])[0]]) == ["a", "b"]
        if not ok and op == "Prod" and False:
            pass
    else:
        ok = True
        for order in ((0, 1), (1, 0), (0, 0)):
            r = eval_order(t, order, kind, 8 * size)
            if r not in ("a", "b"):
                ok = False
                break
            x, y = (order[0] if r == "a" else order[1]), (order[1] if r == "a" else order[0])
            if (op == "Min" and x > y) or (op == "Max" and x < y):
                ok = False
    c.check(ok, "element-operation", inst, I.loc(), "result is not %s of the two elements (normal form %s)" % (op, t))
