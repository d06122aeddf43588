"""All backends compute a requested reduction with the same operation and element type.

(1) For every backend that hands reductions to a message-passing library, the
operation and the element type arguments of each reduce call are evaluated with
conditional constant propagation under each LAIK operation / element type; they
must be the library's operation / type with LAIK's meaning.
(2) The element type of every data transfer call is evaluated the same way.
(3) The TCP backend's own reduce implementation is specialised for each
operation and type and its combining loop compared with the operation.
(4) The TCP backend's element-size table agrees with the types."""
from .. import core, ir, norm
from ..build import AnalysisError
from ..norm import Poly, Facts
from ..sccp import SCCP, TOP
from . import C01

TYPES = C01.TYPES
OPS = C01.OPS

MPI_OP = {"Sum": "ompi_mpi_op_sum", "Prod": "ompi_mpi_op_prod", "Min": "ompi_mpi_op_min", "Max": "ompi_mpi_op_max",
          "And": "ompi_mpi_op_band", "Or": "ompi_mpi_op_bor"}
MPI_TY = {"laik_Double": ("ompi_mpi_double",), "laik_Float": ("ompi_mpi_float",),
          "laik_Int64": ("ompi_mpi_int64_t", "ompi_mpi_long"), "laik_Int32": ("ompi_mpi_int32_t", "ompi_mpi_int"),
          "laik_Char": ("ompi_mpi_int8_t", "ompi_mpi_signed_char"), "laik_UInt64": ("ompi_mpi_uint64_t", "ompi_mpi_unsigned_long"),
          "laik_UInt32": ("ompi_mpi_uint32_t", "ompi_mpi_unsigned"), "laik_UChar": ("ompi_mpi_uint8_t", "ompi_mpi_unsigned_char")}
TCP_OP = {"Sum": "SUM", "Prod": "PROD", "Min": "MIN", "Max": "MAX", "And": "BAND", "Or": "BOR"}
TCP_TY = {"laik_Double": "DOUBLE", "laik_Float": "FLOAT", "laik_Int64": "INT64", "laik_Int32": "INT32", "laik_Char": "INT8",
          "laik_UInt64": "UINT64", "laik_UInt32": "UINT32", "laik_UChar": "UINT8"}

# call -> (operation argument, element type argument, count argument)
MPI_CALLS = {"MPI_Allreduce": (4, 3, 2), "MPI_Reduce": (4, 3, 2), "MPI_Send": (None, 2, 1), "MPI_Recv": (None, 2, 1),
             "MPI_Isend": (None, 2, 1), "MPI_Irecv": (None, 2, 1), "MPI_Get_count": (None, 1, None)}
TCP_CALLS = {"laik_tcp_minimpi_allreduce": (4, 3, 2), "laik_tcp_minimpi_reduce": (4, 3, 2), "laik_tcp_minimpi_send": (None, 2, 1),
             "laik_tcp_minimpi_recv": (None, 2, 1), "laik_tcp_minimpi_get_count": (None, 1, None)}

PASSES = C01.PASSES


def override(f, m, op=None, typ=None):
    def load(I):
        p = ir.strip_casts(f, I.ops[0])
        if p[0] == "g" and p[1] in TYPES:
            return ("sym", p[1])
        if I.ty == "ptr" and typ is not None:
            a = ir.access_field(f, p)
            if a and (a[0], a[1]) in (("struct._Laik_Data", "type"), ("struct._Laik_BackendAction", "dtype")):
                return ("sym", typ)
        if I.ty.startswith("i") and op is not None:
            a = ir.access_field(f, p)
            if a and a[1] == "redOp":
                return ("c", op)
        return None
    return load


def run(c):
    m = core.load()
    execs = sorted(m.slots().get(("struct._Laik_Backend", "exec"), ()))
    c.need("backend executors", len(execs), 4)
    jobs = [{"id": e, "root": e, "inline": "static", "passes": "mem2reg"} for e in execs]
    ro = {o: m.enum_const("LAIK_RO_" + o) for o in OPS}
    topv = {o: m.enum_const("LAIK_TCP_MINIMPI_" + t) for o, t in TCP_OP.items()}
    ttyv = {o: m.enum_const("LAIK_TCP_MINIMPI_" + t) for o, t in TCP_TY.items()}
    # the two logical operations may exist next to the bitwise ones
    for t in TYPES:
        for o in OPS:
            if topv[o] is None or ttyv[t] is None:
                continue
            jobs.append({"id": "red.%s.%s" % (t, o), "root": "laik_tcp_minimpi_reduce", "inline": "static",
                         "bind": {"3": ttyv[t], "4": topv[o]}, "nonnull": [0, 1], "passes": PASSES, "scev": True})
    m2 = core.load(jobs, dump=False)
    nred = nxfer = 0
    for e in execs:
        f = m2.jobs[e]
        calls = [I for I in f.instrs() if I.op == "call" and I.callee and ir.strip_suffix(I.callee) in (set(MPI_CALLS) | set(TCP_CALLS))]
        if not calls:
            c.count("executors without message-passing calls")
            continue
        seen = set()
        tcp = any(I.callee.startswith("laik_tcp") for I in calls)
        backend = "tcp" if tcp else "mpi"
        red = [I for I in calls if ir.strip_suffix(I.callee) in ("MPI_Allreduce", "MPI_Reduce", "laik_tcp_minimpi_allreduce", "laik_tcp_minimpi_reduce")]
        nred += len(red)
        for o in OPS:
            s = SCCP(f, load=override(f, m2, op=ro[o], typ="laik_Int32"))
            for I in red:
                spec = (MPI_CALLS if not tcp else TCP_CALLS)[ir.strip_suffix(I.callee)]
                inst = "%s backend: %s %s" % (backend, o, ir.strip_suffix(I.callee))
                if I.blk not in s.blocks:
                    c.bad("reduce-operation", inst, I.loc(), "reduction %s never reaches the reduce call (rejected before)" % o)
                    continue
                v = s.get(I.args[spec[0]])
                want = ("g", MPI_OP[o]) if not tcp else ("c", topv[o])
                c.check(v == want, "reduce-operation", inst, I.loc(),
                        "LAIK reduction %s is executed as %s instead of %s" % (o, show(m, v, "op"), MPI_OP[o] if not tcp else "LAIK_TCP_MINIMPI_" + TCP_OP[o]),
                        key="reduce-operation|%s|%s|%s" % (backend, o, ir.strip_suffix(I.callee)))
        for t in TYPES:
            s = SCCP(f, load=override(f, m2, op=ro["Sum"], typ=t))
            for I in calls:
                spec = (MPI_CALLS if not tcp else TCP_CALLS)[ir.strip_suffix(I.callee)]
                a = I.args[spec[1]]
                if a[0] in ("c", "g"):
                    continue  # fixed type: internal message, not container data
                if I.blk not in s.blocks:
                    c.bad("element-type", "%s backend: %s %s" % (backend, t, ir.strip_suffix(I.callee)), I.loc(), "element type is rejected before the call")
                    continue
                v = s.get(a)
                want = [("g", x) for x in MPI_TY[t]] if not tcp else [("c", ttyv[t])]
                nxfer += 1
                c.check(v in want, "element-type", "%s backend: %s %s" % (backend, t, ir.strip_suffix(I.callee)), I.loc(),
                        "elements of %s are handed over as %s" % (t, show(m, v, "type")),
                        key="element-type|%s|%s|%s" % (backend, t, ir.strip_suffix(I.callee)))
    c.need("library reduce call sites", nred, 4)
    c.need("typed transfer evaluations", nxfer, 40)

    # (3) the TCP backend's own reduction
    for t in sorted(TYPES):
        size, kind = TYPES[t]
        for o in OPS:
            f = m2.jobs.get("red.%s.%s" % (t, o))
            inst = "tcp reduce implementation: %s %s" % (t, o)
            if f is None:
                c.bad("tcp-combine", inst, "src/backends/tcp/minimpi.h", "the TCP backend has no operation for %s" % o)
                continue
            if kind == "f" and o in ("And", "Or"):
                continue
            combine(c, f, inst, o, kind, size)
    # (4) element sizes
    f = next((g for g in m.defined() if g.src == "laik_tcp_minimpi_get_count"), None)
    if f is None:
        raise AnalysisError("anchor laik_tcp_minimpi_get_count not found")
    jobs = [{"id": t, "root": f.name, "inline": "static", "bind": {"1": ttyv[t]}, "passes": PASSES, "scev": True} for t in TYPES]
    m3 = core.load(jobs, dump=False)
    for t in sorted(TYPES):
        g = m3.jobs[t]
        size = TYPES[t][0]
        fx = Facts(g)
        ok = False
        for I in g.instrs():
            if I.op == "store" and ir.strip_casts(g, I.ops[1]) == ("a", 2):
                ok = quotient(g, I.ops[0], size)
        c.check(ok, "tcp-element-size", "tcp count of %s" % t, g.loc(), "received byte count is not divided by the %d bytes of an element" % size)
    c.assumptions.append("Open MPI's predefined operation/type handles have the meaning given by the MPI standard; user-defined element types are not handed to the library")
    return ("Conditional constant propagation through the inlined executors of the MPI and TCP backends for each of 6 operations and 8 element "
            "types (every reduce and transfer call site), plus specialisation of the TCP backend's combining loop for every operation/type pair.")


def quotient(g, o, size):
    v = g.val(o)
    while v is not None and v.op in ("trunc", "zext", "sext"):
        v = g.val(v.ops[0])
    if v is None:
        return False
    if size == 1:
        return v.op == "load"
    if v.op == "udiv" and v.ops[1] == ("c", size, 64):
        return True
    return v.op == "lshr" and v.ops[1][0] == "c" and (1 << v.ops[1][1]) == size


def show(m, v, what):
    if v and v[0] == "c":
        for name, d in m.di.items():
            if d.get("tag") == "enum":
                for k, x in d["m"]:
                    if x == v[1] and k.startswith("LAIK_TCP_MINIMPI_") and ((what == "op") == (k.split("_")[-1] in ("SUM", "PROD", "MIN", "MAX", "BAND", "BOR", "LAND", "LOR"))):
                        return k
        return str(v[1])
    if v and v[0] == "g":
        return v[1]
    return "an undetermined value" if v == TOP else str(v)


def combine(c, f, inst, op, kind, size):
    fx = Facts(f)
    cnt = Poly.atom(("a", 2))
    cand = []
    for b in f.blocks:
        h = fx.loop_of(b)
        if h is None:
            continue
        for I in b.instrs:
            if I.op == "store":
                p = fx.ptr(I)
                if p is not None and p - Poly.atom(("a", 1)) == Poly.atom(("loop", h)) * Poly.const(size):
                    cand.append((I, h))
    if not cand:
        c.bad("tcp-combine", inst, f.loc(), "no loop combining received elements into the output for this operation and type")
        return
    for I, h in cand:
        trip = fx.trip(h, I.blk)
        off = fx.ptr(I) - Poly.atom(("a", 1))
        bad = []
        ok_cond = True
        t = C01.element(f, I.ops[0], None)

        def rename(t):
            if t[0] == "ld":
                p = fx.ptr(t[1])
                if p is not None and t[1].raw["sz"] == size:
                    if p - Poly.atom(("a", 1)) == off:
                        return ("a",)
                    d = p - off
                    if len(d.t) == 1 and list(d.t.values()) == [1]:
                        (k,) = d.t
                        if len(k) == 1 and k[0][0] == "i":
                            src = f.by_id.get(k[0][1])
                            if src is not None and src.op == "call" and src.callee == "g_bytes_get_data":
                                return ("b",)
                bad.append("reads %s" % p)
                return ("?",)
            return tuple(rename(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)
        t = rename(t)
        # conditional store: b only stored when the ordering demands it
        cond = None
        ctrl = [(A, B) for A, B in f.control_deps().get(I.blk, ()) if A.id in fx.loops[h][1] and A.term.op == "br" and A.term.ops
                and A is not f.blocks[h] and not any(s.id not in fx.loops[h][1] for s in A.succs)]
        if ctrl:
            A, B = ctrl[0]
            ct = rename(C01.element(f, A.term.ops[0], None))
            cond = (ct, A.term.raw["s"][0] == B.id)
            t = ("select", ct, t, ("a",)) if cond[1] else ("select", ct, ("a",), t)
            trip2 = fx.trip(h, A)
            trip = trip2
        c.check(trip == cnt and not bad, "tcp-combine-all", inst, I.loc(), "; ".join(bad) or "combining loop covers %s elements instead of the given count" % trip)
        if op in ("Sum", "Prod", "And", "Or"):
            want = {"Sum": ("add", "fadd"), "Prod": ("mul", "fmul"), "And": ("and",) * 2, "Or": ("or",) * 2}[op][1 if kind == "f" else 0]
            s = strip(t)
            ok = s[0] == want and sorted([strip(s[1])[0], strip(s[2])[0]]) == ["a", "b"]
        else:
            ok = True
            for order in ((0, 1), (1, 0), (0, 0)):
                r = C01.eval_order(t, order, kind, 8 * size)
                if r not in ("a", "b"):
                    ok = False
                    break
                x, y = (order[0], order[1]) if r == "a" else (order[1], order[0])
                if (op == "Min" and x > y) or (op == "Max" and x < y):
                    ok = False
        c.check(ok, "tcp-combine", inst, I.loc(), "received elements are not combined with %s (normal form %s)" % (op, t))


def strip(t):
    while t[0] in ("sext", "zext", "trunc", "fpext", "fptrunc"):
        t = t[1]
    return t
