"""Interpreter for the parts of LAIK which talk to the C library: floating-point
numbers are exact IEEE doubles, variable argument lists, output streams and
files are recorded, the clock is a sequence chosen by the rule."""
from .absint import Interp, Obj, Abort, Undecided, Cut, is_ptr, NULL, UNDEF, UNINIT
from . import netsim
from .netsim import NInterp, vformat
from .model import P, fo, setf


class Exit(Exception):
    pass


def fl(v):
    if isinstance(v, int) and v == 0:
        return 0.0          # memory filled with zeros
    if isinstance(v, tuple) and v:
        if v[0] == "fl":
            return v[1]
        if v[0] == "f":
            try:
                return float(v[1])
            except ValueError:
                import struct
                if v[1].startswith("0x"):
                    return struct.unpack(">d", bytes.fromhex(v[1][2:].rjust(16, "0")))[0]
    return None


class Stream:
    def __init__(self, name, mode="w"):
        self.name, self.mode, self.out, self.open = name, mode, "", True


class Keep(dict):
    """handlers, but not for functions to be interpreted"""

    def __init__(self, d, real):
        super().__init__({k: v for k, v in d.items() if k not in real})
        self.real = real

    def __setitem__(self, k, v):
        if k not in self.real:
            super().__setitem__(k, v)

    def update(self, d):
        for k, v in d.items():
            self[k] = v


class CLib:
    """on top of an interpreter of processes"""
    REAL = ()

    def __init__(self, choose):
        super().__init__(choose)
        self.handlers.update(CH)
        self.handlers = Keep(self.handlers, self.REAL)
        self.frames = []
        self.files = {}         # path -> Stream, as opened
        self.streams = []
        self.clock = lambda: 0.0
        for n in ("stderr", "stdout"):
            o = self.global_obj(n)
            o.size = 8
            o.cells[0] = (8, self.stream(Stream(n)))
        o = self.global_obj("__progname")
        o.size = 8
        o.cells[0] = (8, self.new_text("program"))
        self.err = self.streams[0]
        self.std = self.streams[1]

    def stream(self, s):
        o = Obj("stream " + s.name)
        o.stream = s
        self.streams.append(s)
        return P(o)

    def run(self, F, args, depth=0):
        self.frames.append((F, args))
        try:
            return super().run(F, args, depth)
        finally:
            self.frames.pop()

    def step(self, fr, I, depth):
        op = I.op
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            vs = [self.opval(fr, o) for o in I.ops]
            a, b = [fl(v) for v in vs]
            if a is not None and b is not None:
                if op == "fdiv" and b == 0:
                    raise Undecided("division by zero")
                return ("fl", {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[op]())
            return UNINIT if UNINIT in vs else UNDEF
        if op == "fneg":
            a = fl(self.opval(fr, I.ops[0]))
            return ("fl", -a) if a is not None else UNDEF
        if op in ("sitofp", "uitofp"):
            v = self.opval(fr, I.ops[0])
            if isinstance(v, int):
                if op == "uitofp" and v < 0:
                    v += 1 << 64
                return ("fl", float(v))
        if op in ("fptosi", "fptoui"):
            a = fl(self.opval(fr, I.ops[0]))
            if a is not None:
                return int(a)
        if op == "fcmp":
            a, b = [fl(self.opval(fr, o)) for o in I.ops]
            if a is None or b is None:
                raise Undecided("comparison with unknown number at " + I.loc())
            p = I.raw["p"][1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        return super().step(fr, I, depth)


class CInterp(CLib, NInterp):
    pass


# ---- variable arguments -----------------------------------------------------------

def h_va_start(it, a):
    F, args = it.frames[-1]
    n = len(F.args)
    o, off = it.deref(a[0])
    o.va = [list(args[n:]), 0]


def h_va_copy(it, a):
    d, s = it.deref(a[0])[0], it.deref(a[1])[0]
    if getattr(s, "va", None) is None:
        raise Abort("copy of an argument list which is not in use at " + it.cur.loc())
    d.va = [s.va[0], s.va[1]]


def h_va_end(it, a):
    it.deref(a[0])[0].va = None


def va(it, p):
    o = it.deref(p)[0]
    v = getattr(o, "va", None)
    if v is None:
        raise Abort("use of an argument list which is not in use at " + it.cur.loc())
    if v[1]:
        raise Abort("an argument list is used twice at " + it.cur.loc())
    v[1] = 1
    return v[0]


def h_vsnprintf(it, a):
    t = vformat(it, a[2], va(it, a[3]))
    if a[1] > 0:
        it.put(a[0], t[:a[1] - 1] + [0])
    elif a[1] < 0:
        raise Abort("text longer than its buffer at " + it.cur.loc())
    return len(t)


# ---- streams ----------------------------------------------------------------------

def stream(it, p):
    if not is_ptr(p) or not isinstance(p[1], Obj) or not hasattr(p[1], "stream"):
        raise Abort("output to no stream at " + it.cur.loc())
    s = p[1].stream
    if not s.open:
        raise Abort("output to a closed stream at " + it.cur.loc())
    return s


def emit(it, s, t):
    s.out += "".join(chr(c & 255) if isinstance(c, int) else "?" for c in t)
    return len(t)


def h_fprintf(it, a):
    return emit(it, stream(it, a[0]), vformat(it, a[1], a[2:]))


def h_vfprintf(it, a):
    return emit(it, stream(it, a[0]), vformat(it, a[1], va(it, a[2])))


def h_fputs(it, a):
    return emit(it, stream(it, a[1]), it.text(a[0]))


def h_fputc(it, a):
    return emit(it, stream(it, a[1]), [a[0]])


def h_fwrite(it, a):
    n = a[1] * a[2]
    o, off = it.deref(a[0])
    it.bounds(o, off, n)
    emit(it, stream(it, a[3]), [it.byte(o, off + k) for k in range(n)])
    return a[2]


def h_fopen(it, a):
    n = it.str(a[0])
    if n in it.__dict__.get("unopenable", ()):
        return NULL
    s = it.files[n] = Stream(n, it.str(a[1]))
    return it.stream(s)


def h_freopen(it, a):
    stream(it, a[2])
    return h_fopen(it, a)


def h_fclose(it, a):
    stream(it, a[0]).open = False
    return 0


def h_gettimeofday(it, a):
    t = it.clock()
    o, off = it.deref(a[0])
    sec = int(t)
    it.storem(("p", o, off), 8, sec)
    it.storem(("p", o, off + 8), 8, round((t - sec) * 1e6))
    return 0


def h_wtime(it, a):
    return ("fl", it.clock())


def h_time(it, a):
    return int(it.clock())


def h_exit(it, a):
    raise Exit(a[0])


def h_index(it, a):
    t = it.text(a[0])
    for i, c in enumerate(t):
        if c == a[1]:
            return ("p", a[0][1], a[0][2] + i)
    return NULL


def h_fma(it, a):
    x = [fl(v) for v in a]
    if None in x:
        return UNINIT if UNINIT in a else UNDEF
    return ("fl", x[0] * x[1] + x[2])


CH = {
    "llvm.fmuladd.f64": h_fma,
    "llvm.va_start": h_va_start, "llvm.va_copy": h_va_copy, "llvm.va_end": h_va_end, "llvm.va_start.p0": h_va_start, "llvm.va_copy.p0": h_va_copy,
    "llvm.va_end.p0": h_va_end, "vsnprintf": h_vsnprintf, "fprintf": h_fprintf, "vfprintf": h_vfprintf, "fputs": h_fputs, "fputc": h_fputc, "putc": h_fputc,
    "fwrite": h_fwrite, "fflush": lambda it, a: 0, "fopen": h_fopen, "freopen": h_freopen, "fclose": h_fclose, "gettimeofday": h_gettimeofday, "time": h_time,
    "exit": h_exit, "index": h_index, "strchr": h_index,
}
