"""Processes of a program connected by a model of sockets.

Every process is interpreted on its own memory with characters of text known and
the bytes of container elements opaque: a byte is 16*h+l of two opaque digits,
written as text it becomes the two characters of these digits, and eight bytes in
order are the element again.  Sockets are byte streams; the schedule of processes,
the number of bytes returned by a read, and the connections reported by select are
variants given by the caller."""
import re
import threading
from . import model
from .absint import Abort, Cut, Obj, UNDEF, UNINIT, NULL, Undecided, is_ptr, sym, Interp
from .model import P, TInterp, fo, rd, setf
from .norm import Poly
from . import mpisim
from .mpisim import Kill

DIG = {}      # name of an opaque digit -> (value, byte, 0 high / 1 low, is a letter)


def digits(v, k, pattern):
    out = []
    for h in (0, 1):
        n = "n%s.%d.%d" % (v, k, h)
        letter = {"digits": 0, "letters": 1, "mixed": (k + h) & 1}[pattern]
        DIG[n] = (v, k, h, letter)
        out.append(sym(n))
    return out


def bytepoly(v, k, pattern):
    h, l = digits(v, k, pattern)
    return h * Poly.const(16) + l


def interval(p):
    lo = hi = 0
    for k, c in p.t.items():
        if not k:
            lo, hi = lo + c, hi + c
            continue
        if len(k) != 1 or k[0] not in DIG:
            return None
        a, b = (10, 15) if DIG[k[0]][3] else (0, 9)
        if c < 0:
            a, b = b, a
        lo, hi = lo + c * a, hi + c * b
    return lo, hi


def byte_of(p):
    """(value, k) when p is byte k of an opaque value"""
    if isinstance(p, Poly) and len(p.t) == 2 and sorted(p.t.values()) == [1, 16]:
        ks = {c: k for k, c in p.t.items()}
        a, b = ks[16], ks[1]
        if len(a) == 1 and len(b) == 1 and a[0] in DIG and b[0] in DIG:
            x, y = DIG[a[0]], DIG[b[0]]
            if x[:2] == y[:2] and (x[2], y[2]) == (0, 1):
                return x[0], x[1]
    return None


class NInterp(TInterp):
    def __init__(self, choose):
        super().__init__(choose)
        self.budget = 6000000
        self.loop_limit = 150000
        self.env = {}
        self.pattern = "mixed"
        self.net = None
        self.host = "node"
        self.fds = {}
        self.panics = 0
        self.handlers.update(H)

    # ---- bytes -----------------------------------------------------------------
    def global_obj(self, name):
        new = name not in self.globals
        o = super().global_obj(name)
        if new and o.g and o.g.get("init") and o.g["init"][0] == "s":
            s = o.g["init"][1]
            for i in range(o.size if isinstance(o.size, int) else len(s) + 1):
                o.cells[i] = (1, signed8(ord(s[i])) if i < len(s) else 0)
        return o

    def byte(self, o, off):
        """one byte of memory"""
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            return bytepoly(c[1][1], 0, self.pattern) if isinstance(c[1], tuple) and c[1][0] == "val" else c[1]
        for s in (8, 4, 2):
            b = off - off % s
            c = o.cells.get(b)
            if c is not None and c[0] == s:
                break
        else:
            for b in range(off, off - big(o) - 1, -1):
                c = o.cells.get(b)
                if c is not None and b + c[0] > off:
                    break
            else:
                c = None
        if c is None:
            v = Interp.loadm(self, ("p", o, off), 1, "i8")
            return v
        v = c[1]
        if isinstance(v, int):
            return signed8((v >> (8 * (off - b))) & 255)
        if isinstance(v, tuple) and v[0] == "val":
            return bytepoly(v[1], off - b, self.pattern)
        if v == UNINIT or v == UNDEF:
            return v
        return ("part", id(v), off - b)

    def bytes(self, p, n):
        o, off = self.deref(p)
        if not isinstance(n, int) or not isinstance(off, int):
            raise Undecided("bytes of symbolic extent")
        self.bounds(o, off, n)
        return [self.byte(o, off + i) for i in range(n)]

    def put(self, p, bs):
        o, off = self.deref(p)
        if not isinstance(off, int):
            raise Undecided("store at symbolic offset")
        self.bounds(o, off, len(bs))
        self.split(o, off, len(bs))
        for i, b in enumerate(bs):
            o.cells[off + i] = (1, b)

    def split(self, o, off, n):
        """cells partly overwritten become bytes"""
        for k in [k for k in range(off - big(o), off + n) if k in o.cells]:
            s, v = o.cells[k]
            if k + s <= off or k >= off + n:
                continue
            if k < off or k + s > off + n:
                bs = [(i, self.byte(o, i)) for i in range(k, k + s)]
                del o.cells[k]
                for i, b in bs:
                    o.cells[i] = (1, b)
            else:
                del o.cells[k]

    def value(self, o, off, size=8):
        c = o.cells.get(off)
        if c is not None and c[0] == size and not (size == 1 and isinstance(c[1], Poly)):
            return c[1]
        bs = [self.byte(o, off + i) for i in range(size)]
        return join(bs)

    def loadm(self, p, size, ty):
        o, off = self.deref(p)
        if isinstance(off, int):
            c = o.cells.get(off)
            if (c is None or c[0] != size or size == 1 and isinstance(c[1], tuple) and c[1][:1] == ("val",)) and (c is not None or any(k in o.cells and k + o.cells[k][0] > off for k in range(off - big(o) + 1, off))):
                self.bounds(o, off, size)
                v = self.byte(o, off) if size == 1 else self.value(o, off, size)
                return NULL if ty == "ptr" and v == 0 else v
        return super().loadm(p, size, ty)

    def storem(self, p, size, v):
        o, off = self.deref(p)
        if isinstance(off, int):
            self.bounds(o, off, size)
            self.split(o, off, size)
            o.cells[off] = (size, v)
            if size > 8:
                o.big = max(size, big(o))
            return
        super().storem(p, size, v)

    def memcpy(self, d, s, n):
        if isinstance(n, int) and n > 0:
            so, soff = self.deref(s)
            do, doff = self.deref(d)
            if isinstance(soff, int) and isinstance(doff, int):
                self.bounds(so, soff, n)
                self.bounds(do, doff, n)
                src, k = {}, soff
                if n > 64:
                    for k, c in so.cells.items():
                        if soff <= k and k + c[0] <= soff + n:
                            src[k - soff] = c
                else:
                    while k < soff + n:
                        c = so.cells.get(k)
                        if c is not None and k + c[0] <= soff + n:
                            src[k - soff] = c
                            k += c[0]
                            continue
                        if c is not None or any(j in so.cells and j + so.cells[j][0] > k for j in range(k - big(so) + 1, k)):
                            src[k - soff] = (1, self.byte(so, k))
                        k += 1
                self.split(do, doff, n)
                for k, c in src.items():
                    do.cells[doff + k] = c
                    if c[0] > 8:
                        do.big = max(c[0], big(do))
                if so.lazy and not do.lazy:
                    do.lazy = so.lazy
                return
        super().memcpy(d, s, n)

    # ---- text ------------------------------------------------------------------
    def text(self, p, limit=None):
        """characters up to the terminating zero"""
        o, off = self.deref(p)
        out = []
        while limit is None or len(out) < limit:
            self.bounds(o, off + len(out), 1)
            b = self.byte(o, off + len(out))
            if b == UNDEF and getattr(o, "g", None) and o.g.get("init") and o.g["init"][0] == "z":
                b = 0
            if b == UNINIT or b == UNDEF:
                raise Abort("characters of %r used that were never written, at %s" % (o, self.cur.loc()))
            if b == 0:
                break
            out.append(b)
        return out

    def str(self, p):
        t = self.text(p)
        if not all(isinstance(c, int) for c in t):
            raise Undecided("text made of element bytes")
        return "".join(chr(c & 255) for c in t)

    def new_text(self, s):
        bs = [signed8(ord(c)) for c in s] if isinstance(s, str) else s
        o = Obj("text", len(bs) + 1, fresh=True)
        for i, b in enumerate(bs + [0]):
            o.cells[i] = (1, b)
        return P(o)

    # ---- comparisons -------------------------------------------------------------
    def cmpv(self, a, b):
        if isinstance(a, Poly) or isinstance(b, Poly):
            pa = Poly.const(a) if isinstance(a, int) else a
            pb = Poly.const(b) if isinstance(b, int) else b
            if isinstance(pa, Poly) and isinstance(pb, Poly):
                iv = interval(pa - pb)
                if iv is not None:
                    if iv[0] > 0:
                        return 1
                    if iv[1] < 0:
                        return -1
                    if iv == (0, 0):
                        return 0
                    raise Undecided("the content of an element decides how it is transferred")
        return super().cmpv(a, b)

    def rel(self, p, a, b):
        if isinstance(a, Poly) or isinstance(b, Poly):
            pa = Poly.const(a) if isinstance(a, int) else a
            pb = Poly.const(b) if isinstance(b, int) else b
            if isinstance(pa, Poly) and isinstance(pb, Poly):
                iv = interval(pa - pb)
                if iv is not None:
                    lo, hi = iv
                    t = {"lt": hi < 0, "le": hi <= 0, "gt": lo > 0, "ge": lo >= 0, "eq": lo == hi == 0, "ne": lo > 0 or hi < 0}
                    inv = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}
                    if t[p]:
                        return True
                    if t[inv[p]]:
                        return False
                    if byte_of(a) or byte_of(b):
                        raise Cut("bytes of an element are taken for a command")
        return super().rel(p, a, b)

    def ucmp(self, I, a, b):
        return int(self.rel(I.raw["p"][1:], a, b))

    def truncate(self, v, I):
        iv = interval(v)
        if iv and 0 <= iv[0] and iv[1] <= 255:
            return v
        return super().truncate(v, I)

    def opaque(self, op, vs, I):
        if op in ("fadd", "fsub", "fmul", "fdiv", "sitofp", "uitofp", "fptosi", "fpext", "fptrunc"):
            return UNDEF
        return super().opaque(op, vs, I)

    # ---- processes ---------------------------------------------------------------
    def wait(self, cond, what):
        self.proc.block(cond, what)

    def yield_(self):
        self.proc.pause()


def big(o):
    return getattr(o, "big", 8)


def signed8(v):
    return v - 256 if v > 127 else v


def join(bs):
    if all(isinstance(b, int) for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= (b & 255) << (8 * i)
        n = 8 * len(bs)
        return v - (1 << n) if v >> (n - 1) else v
    xs = [byte_of(b) for b in bs]
    if all(xs) and [x[1] for x in xs] == list(range(len(bs))) and len({x[0] for x in xs}) == 1:
        return ("val", xs[0][0])
    return ("mixed", tuple(str(x) for x in bs))


# ---- C library --------------------------------------------------------------------

def vformat(it, fmt, args):
    out, i = [], 0
    s = it.str(fmt)
    args = list(args)
    while i < len(s):
        if s[i] != "%":
            out.append(signed8(ord(s[i])))
            i += 1
            continue
        m = re.match(r"%([-0 +#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j)?([diuxXcspfgeG%])", s[i:])
        if not m:
            raise Undecided("format " + s)
        i += m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == "%":
            out.append(37)
            continue
        if not args:
            raise Abort("too few arguments for format '%s' at %s" % (s, it.cur.loc()))
        if w == "*":
            w = args.pop(0)
        if pr == "*":
            pr = args.pop(0)
        v = args.pop(0)
        if v == UNINIT:
            raise Abort("an uninitialised value is printed at " + it.cur.loc())
        if cv == "s":
            if v == NULL or v == 0:
                t = [ord(c) for c in "(null)"]
            else:
                t = it.text(v, int(pr) if pr is not None else None)
        elif cv == "c":
            t = [v]
        elif cv in "di":
            if not isinstance(v, int):
                raise Undecided("text of %r" % (v,))
            t = [ord(c) for c in str(v)]
        elif cv in "uxX":
            bits = {"ll": 64, "l": 64, "z": 64, "j": 64, "h": 16, "hh": 8}.get(ln, 32)
            if isinstance(v, Poly) and cv == "x":
                b = byte_of(v)
                if not b or w != "2" or "0" not in fl:
                    raise Undecided("hexadecimal text of %r" % (v,))
                t = []
                for n in digits(b[0], b[1], it.pattern):
                    a = list(n.t)[0][0]
                    t.append(n + Poly.const(87 if DIG[a][3] else 48))
            elif isinstance(v, int):
                u = v & ((1 << bits) - 1)
                t = [ord(c) for c in (str(u) if cv == "u" else "%x" % u if cv == "x" else "%X" % u)]
            else:
                raise Undecided("text of %r" % (v,))
        elif isinstance(v, tuple) and v and v[0] in ("f", "fl"):
            t = [ord(c) for c in ("%%%s%s" % ("." + str(pr) if pr is not None else "", cv)) % float(v[1])]
        else:
            t = [ord("?")]
        if w:
            if int(w) < 0:
                fl, w = fl + "-", -int(w)
            pad = int(w) - len(t)
            if pad > 0:
                t = t + [32] * pad if "-" in fl else [48 if "0" in fl and cv not in "sc" else 32] * pad + t
        out += t
    return out


def h_sprintf(it, a):
    t = vformat(it, a[1], a[2:])
    it.put(a[0], t + [0])
    return len(t)


def h_snprintf(it, a):
    t = vformat(it, a[2], a[3:])
    if a[1] > 0:
        it.put(a[0], t[:a[1] - 1] + [0])
    return len(t)


def h_sscanf(it, a):
    src = it.text(a[0])
    f = it.str(a[1])
    outs = list(a[2:])
    i = j = n = 0
    ws = (32, 9, 10, 13, 11, 12)

    def at(k):
        return src[k] if k < len(src) else None
    while i < len(f):
        if f[i].isspace():
            while at(j) in ws:
                j += 1
            i += 1
            continue
        if f[i] != "%":
            if at(j) is None:
                return n if n else -1
            if at(j) != ord(f[i]):
                return n
            i += 1
            j += 1
            continue
        m = re.match(r"%(\*)?(\d+)?(hh|h|ll|l|z)?(\[\^?\]?[^\]]*\]|[diuxsnc])", f[i:])
        if not m:
            raise Undecided("scan format " + f)
        i += m.end()
        sup, w, ln, cv = m.groups()
        w = int(w) if w else None
        if cv == "n":
            it.storem(outs.pop(0), 4, j)
            continue
        if cv[0] not in "[c":
            while at(j) in ws:
                j += 1
        if at(j) is None:
            return n if n else -1
        if cv in ("d", "i", "u", "x"):
            k = j
            if at(k) in (43, 45):
                k += 1
            st = k
            while at(k) is not None and (w is None or k - j < w):
                c = at(k)
                if not isinstance(c, int):
                    raise Cut("bytes of an element are read as a number of a command")
                if not (48 <= c <= 57 or cv == "x" and chr(c) in "abcdefABCDEF"):
                    break
                k += 1
            if k == st:
                return n
            v = int("".join(chr(c) for c in src[j:k]), 16 if cv == "x" else 10)
            j = k
            if not sup:
                it.storem(outs.pop(0), {"ll": 8, "l": 8, "z": 8, "h": 2, "hh": 1}.get(ln, 4), v)
        else:
            k = j
            if cv[0] == "[":
                neg = cv[1] == "^"
                cs = set(ord(c) for c in cv[2 if neg else 1:-1])
                ok = lambda c: (c in cs) != neg
            elif cv == "c":
                w = w or 1
                ok = lambda c: True
            else:
                ok = lambda c: c not in ws
            while at(k) is not None and (w is None or k - j < w) and ok(at(k)):
                k += 1
            if k == j:
                return n
            if not sup:
                it.put(outs.pop(0), src[j:k] + ([0] if cv != "c" else []))
            j = k
        if not sup:
            n += 1
    return n


def h_strcmp(it, a):
    x, y = it.str(a[0]), it.str(a[1])
    return (x > y) - (x < y)


def h_strncmp(it, a):
    n = a[2]
    x, y = it.text(a[0], n), it.text(a[1], n)
    for p, q in zip(x + [0], y + [0]):
        c = it.cmpv(p, q)
        if c:
            return c
    return 0


def h_memcmp(it, a):
    if a[2] == 0:
        return 0
    x, y = it.bytes(a[0], a[2]), it.bytes(a[1], a[2])
    for p, q in zip(x, y):
        c = it.cmpv(p & 255 if isinstance(p, int) else p, q & 255 if isinstance(q, int) else q)
        if c:
            return c
    return 0


def h_strcpy(it, a):
    it.put(a[0], it.text(a[1]) + [0])
    return a[0]


def h_strncpy(it, a):
    t = it.text(a[1], a[2])
    it.put(a[0], t + [0] * (a[2] - len(t)))
    return a[0]


def h_strcat(it, a):
    n = len(it.text(a[0]))
    it.put(("p", a[0][1], a[0][2] + n), it.text(a[1]) + [0])
    return a[0]


def h_atoi(it, a):
    m = re.match(r"\s*([-+]?\d+)", it.str(a[0]))
    return int(m.group(1)) if m else 0


def h_strchr(it, a):
    t = it.text(a[0])
    for i, c in enumerate(t + [0]):
        if c == a[1]:
            return ("p", a[0][1], a[0][2] + i)
    return NULL


def h_getenv(it, a):
    v = it.env.get(it.str(a[0]))
    return NULL if v is None else it.new_text(v)


def h_memset(it, a):
    o, off = it.deref(a[0])
    n = a[2]
    if not isinstance(n, int) or not isinstance(off, int) or not isinstance(a[1], int):
        raise Undecided("memset")
    if n > 4096 and a[1] == 0 and not o.cells:
        o.lazy = o.lazy or (lambda i, ob, f, s: 0)
        return a[0]
    it.put(a[0], [signed8(a[1] & 255)] * n)
    return a[0]


def h_exit(it, a):
    raise Cut("process %d ends with status %r at %s" % (it.proc.rank, a[0], it.cur.loc()))


def h_panic(it, a):
    raise Abort("process %d: panic at %s" % (it.proc.rank, it.cur.loc()))


# ---- sockets ----------------------------------------------------------------------

class Sock:
    def __init__(self):
        self.port = None
        self.listening = False
        self.pending = []
        self.peer = None
        self.inbuf = []
        self.closed = False
        self.connected = False
        self.reuse = False

    def readable(self):
        if self.listening:
            return bool(self.pending)
        return self.connected and (bool(self.inbuf) or self.peer.closed)


class Net:
    def __init__(self, chunk=None, ready="all"):
        self.ports = {}        # port -> listening socket
        self.next = 40000
        self.chunk = chunk
        self.ready = ready
        self.names = {"localhost", "node"}


def sock(it, fd, what):
    s = it.fds.get(fd) if isinstance(fd, int) else None
    if s is None or s.closed:
        raise Cut("%s on file descriptor %r that is not open at %s" % (what, fd, it.cur.loc()))
    return s


def h_socket(it, a):
    fd = 3
    while fd in it.fds:
        fd += 1
    it.fds[fd] = Sock()
    it.fds[fd].family = a[0]
    return fd


def swap16(v):
    v &= 0xffff
    return (v >> 8) | ((v & 255) << 8)


def addr(it, p):
    o, off = it.deref(p)
    fam = it.loadm(("p", o, off), 2, "i16")
    return fam, swap16(it.loadm(("p", o, off + 2), 2, "i16"))


def h_bind(it, a):
    s = sock(it, a[0], "bind")
    fam, port = addr(it, a[1])
    if fam == 2 and port in it.net.ports or s.port is not None:
        it.errno = 98
        return -1
    if port == 0:
        it.net.next += 1
        port = it.net.next
    s.port = port
    return 0


def h_listen(it, a):
    s = sock(it, a[0], "listen")
    if s.port is None:
        it.net.next += 1
        s.port = it.net.next
    if s.port in it.net.ports:
        it.errno = 98
        return -1
    s.listening = True
    it.net.ports[s.port] = s
    it.yield_()
    return 0


def h_getsockname(it, a):
    s = sock(it, a[0], "getsockname")
    o, off = it.deref(a[1])
    it.storem(("p", o, off), 2, 2)
    it.storem(("p", o, off + 2), 2, sg16(swap16(s.port or 0)))
    it.storem(("p", o, off + 4), 4, 0)
    return 0


def sg16(v):
    return v - 65536 if v > 32767 else v


def link():
    x, y = Sock(), Sock()
    x.peer, y.peer = y, x
    x.connected = y.connected = True
    return x, y


def h_connect(it, a):
    s = sock(it, a[0], "connect")
    fam, port = addr(it, a[1])
    l = it.net.ports.get(port) if fam == 2 else None
    if l is None or l.closed:
        it.errno = 111
        return -1
    x, y = link()
    s.peer, y.peer, s.connected = y, s, True
    l.pending.append(y)
    it.yield_()
    return 0


def h_accept(it, a):
    s = sock(it, a[0], "accept")
    if not s.listening:
        raise Cut("accept on a socket that does not listen")
    it.wait(lambda: bool(s.pending), "accept")
    fd = 3
    while fd in it.fds:
        fd += 1
    it.fds[fd] = s.pending.pop(0)
    if a[1] != NULL:
        o, off = it.deref(a[1])
        for k in range(16):
            it.storem(("p", o, off + k), 1, 0)
        it.storem(("p", o, off), 2, 2)
    return fd


def h_close(it, a):
    s = sock(it, a[0], "close")
    s.closed = True
    if s.listening and it.net.ports.get(s.port) is s:
        del it.net.ports[s.port]
    del it.fds[a[0]]
    return 0


def h_write(it, a):
    s = sock(it, a[0], "write")
    if not s.connected:
        raise Cut("write to a socket that is not connected")
    if s.peer.closed:
        it.errno = 32
        return -1
    n = a[2]
    if not isinstance(n, int) or n < 0:
        raise Undecided("write of %r bytes" % (n,))
    bs = it.bytes(a[1], n) if n else []
    if any(b == UNINIT or b == UNDEF for b in bs):
        raise Abort("uninitialised memory is sent at " + it.cur.loc())
    w = it.net.wchunk if getattr(it.net, "wchunk", None) else n
    s.peer.inbuf += bs[:w]
    it.yield_()
    return min(w, n)


def h_read(it, a):
    s = sock(it, a[0], "read")
    n = a[2]
    if not isinstance(n, int) or n <= 0:
        raise Undecided("read of %r bytes" % (n,))
    it.wait(s.readable, "read")
    k = min(n, len(s.inbuf), it.net.chunk or n)
    bs, s.inbuf[:k] = s.inbuf[:k], []
    if k:
        it.put(a[1], bs)
    return k


def h_select(it, a):
    n, rs, ws, es, tv = a
    o, off = it.deref(rs)
    want = []
    for w in range(16):
        x = it.loadm(("p", o, off + 8 * w), 8, "i64")
        if x == UNDEF or x == UNINIT:
            raise Abort("uninitialised set of file descriptors")
        for b in range(64):
            if (x >> b) & 1:
                want.append(64 * w + b)
    want = [fd for fd in want if fd < n]
    for fd in want:
        sock(it, fd, "select")
    rdy = lambda: [fd for fd in want if it.fds[fd].readable()]
    if tv != NULL:
        it.yield_()
    elif not rdy():
        it.wait(lambda: bool(rdy()), "select")
    r = rdy()
    if it.net.ready == "first":
        r = r[:1]
    elif it.net.ready == "last":
        r = r[-1:]
    for w in range(16):
        v = 0
        for fd in r:
            if fd // 64 == w:
                v |= 1 << (fd % 64)
        it.storem(("p", o, off + 8 * w), 8, v - (1 << 64) if v >> 63 else v)
    return len(r)


def h_getaddrinfo(it, a):
    host = it.str(a[0])
    if host not in it.net.names:
        return -2
    port = int(it.str(a[1])) if a[1] != NULL else 0
    AI = "addrinfo"
    prev = NULL
    for fam in (2, 10):
        sa = Obj("sockaddr", 28)
        sa.cells[0] = (2, fam)
        sa.cells[2] = (2, sg16(swap16(port)))
        sa.lazy = lambda i, ob, f, s: 0
        o = Obj("addrinfo")
        setf(o, AI, ai_flags=0, ai_family=fam, ai_socktype=1, ai_protocol=6, ai_addrlen=16 if fam == 2 else 28, ai_addr=P(sa), ai_canonname=NULL, ai_next=prev)
        prev = P(o)
    it.storem(a[3], 8, prev)
    return 0


def h_gethostname(it, a):
    it.put(a[0], [ord(c) for c in it.host] + [0])
    return 0


def h_inet_ntop(it, a):
    it.put(a[2], [ord(c) for c in "127.0.0.1"] + [0])
    return a[2]


def h_regcomp(it, a):
    try:
        re.compile(it.str(a[1]))
    except re.error:
        return 1
    o, off = it.deref(a[0])
    o.regex = it.str(a[1])
    return 0


def h_regexec(it, a):
    o, off = it.deref(a[0])
    return 0 if re.search(o.regex, it.str(a[1])) else 1


def h_strdup(it, a):
    return it.new_text(it.text(a[0]))


OK = lambda it, a: 0
NOP = lambda it, a: None


def h_errno(it, a):
    o = it.__dict__.setdefault("errno_obj", Obj("errno", 4))
    o.cells[0] = (4, it.__dict__.get("errno", 0))
    return P(o)


# ---- further functions of the C library, which changed code may use ------------------

def at(p, k):
    return ("p", p[1], p[2] + k)


def find(t, u):
    for i in range(len(t) - len(u) + 1):
        if t[i:i + len(u)] == u:
            return i
    return None


def h_strrchr(it, a):
    t = it.text(a[0]) + [0]
    k = [i for i, c in enumerate(t) if c == a[1]]
    return at(a[0], k[-1]) if k else NULL


def h_strstr(it, a):
    i = find(it.text(a[0]), it.text(a[1]))
    return NULL if i is None else at(a[0], i)


def span(it, a, inside):
    t, u = it.text(a[0]), it.text(a[1])
    n = 0
    while n < len(t) and (t[n] in u) == inside:
        n += 1
    return n


def h_strpbrk(it, a):
    n = span(it, a, False)
    return at(a[0], n) if n < len(it.text(a[0])) else NULL


def h_memchr(it, a):
    for i, b in enumerate(it.bytes(a[0], a[2])):
        if b == signed8(a[1] & 255):
            return at(a[0], i)
    return NULL


def h_strncat(it, a):
    n = len(it.text(a[0]))
    it.put(at(a[0], n), it.text(a[1], a[2]) + [0])
    return a[0]


def h_stpcpy(it, a):
    t = it.text(a[1])
    it.put(a[0], t + [0])
    return at(a[0], len(t))


def h_strtol(it, a):
    t = it.text(a[0])
    s = "".join(chr(c & 255) if isinstance(c, int) else "\1" for c in t)
    base = a[2]
    pat = {10: r"\s*[-+]?\d+", 16: r"\s*[-+]?(0[xX])?[0-9a-fA-F]+", 0: r"\s*[-+]?(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9]\d*)", 8: r"\s*[-+]?[0-7]+"}.get(base)
    if pat is None:
        raise Undecided("number of base %r" % (base,))
    m = re.match(pat, s)
    if a[1] not in (NULL, 0):
        it.storem(a[1], 8, at(a[0], m.end() if m else 0))
    if not m:
        return 0
    x = m.group(0).strip()
    if base == 0:
        y = x.lstrip("+-").lower()
        base = 16 if y.startswith("0x") else 8 if y.startswith("0") and len(y) > 1 else 10
    v = int(x, base)
    return max(-(1 << 63), min((1 << 63) - 1, v))


def isclass(f):
    return lambda it, a: int(isinstance(a[0], int) and 0 <= a[0] < 128 and f(chr(a[0])))


def h_ctype(it, a):
    """the table of character classes (glibc)"""
    o = it.__dict__.get("ctype_obj")
    if o is None:
        tab = Obj("ctype", 768)
        for c in range(-128, 256):
            x = chr(c) if 0 <= c < 128 else ""
            v = 0
            for bit, f in ((0, str.isupper), (1, str.islower), (2, str.isalpha), (3, str.isdigit), (4, lambda x: x in "0123456789abcdefABCDEF"), (5, lambda x: x in " \t\n\v\f\r"),
                           (6, lambda x: 32 <= ord(x) < 127), (7, lambda x: 32 < ord(x) < 127), (8, lambda x: x in " \t"), (9, lambda x: ord(x) < 32 or ord(x) == 127),
                           (10, lambda x: 32 < ord(x) < 127 and not x.isalnum()), (11, str.isalnum)):
                if x and f(x):
                    v |= 1 << (bit + 8 if bit < 8 else bit - 8)
            tab.cells[2 * (c + 128)] = (2, sg16(v))
        o = Obj("ctype table", 8)
        o.cells[0] = (8, ("p", tab, 256))
        it.ctype_obj = o
    return P(o)


def h_strndup(it, a):
    return it.new_text(it.text(a[0], a[1]))


LIBC = {
    "strspn": lambda it, a: span(it, a, True), "strcspn": lambda it, a: span(it, a, False), "strpbrk": h_strpbrk, "strrchr": h_strrchr, "rindex": h_strrchr,
    "index": h_strchr, "strstr": h_strstr, "memchr": h_memchr, "strncat": h_strncat, "stpcpy": h_stpcpy, "strndup": h_strndup, "strnlen": lambda it, a: len(it.text(a[0], a[1])),
    "strtol": h_strtol, "strtoul": h_strtol, "strtoll": h_strtol, "strtoull": h_strtol, "__isoc23_strtol": h_strtol, "__isoc23_strtoul": h_strtol,
    "__isoc23_strtoll": h_strtol, "__isoc23_strtoull": h_strtol, "atol": h_atoi, "atoll": h_atoi, "__ctype_b_loc": h_ctype,
    "isdigit": isclass(str.isdigit), "isspace": isclass(str.isspace), "isalpha": isclass(str.isalpha), "isalnum": isclass(str.isalnum), "isxdigit": isclass(lambda x: x in "0123456789abcdefABCDEF"),
    "tolower": lambda it, a: a[0] + 32 if 65 <= a[0] <= 90 else a[0], "toupper": lambda it, a: a[0] - 32 if 97 <= a[0] <= 122 else a[0],
    "abs": lambda it, a: abs(a[0]), "labs": lambda it, a: abs(a[0]), "llabs": lambda it, a: abs(a[0]),
    "puts": OK, "putchar": OK, "fputs": OK, "fputc": OK, "putc": OK, "fflush": OK, "perror": NOP,
}


H = {
    **LIBC,
    "sprintf": h_sprintf, "snprintf": h_snprintf, "sscanf": h_sscanf, "__isoc99_sscanf": h_sscanf, "__isoc23_sscanf": h_sscanf,
    "strcmp": h_strcmp, "strncmp": h_strncmp, "memcmp": h_memcmp, "strcpy": h_strcpy, "strncpy": h_strncpy, "strcat": h_strcat, "atoi": h_atoi,
    "strlen": lambda it, a: len(it.text(a[0])), "strdup": h_strdup, "strchr": h_strchr, "getenv": h_getenv, "memset": h_memset,
    "exit": h_exit, "laik_panic": h_panic, "getpid": lambda it, a: 100 + it.proc.rank, "signal": lambda it, a: NULL, "usleep": OK,
    "gettimeofday": OK, "laik_wtime": lambda it, a: UNDEF, "__errno_location": h_errno, "strerror": lambda it, a: it.new_text("error"),
    "gai_strerror": lambda it, a: it.new_text("error"), "fprintf": OK, "printf": OK, "freeaddrinfo": NOP,
    "socket": h_socket, "bind": h_bind, "listen": h_listen, "getsockname": h_getsockname, "connect": h_connect, "accept": h_accept, "close": h_close,
    "write": h_write, "read": h_read, "send": h_write, "recv": h_read, "select": h_select, "getaddrinfo": h_getaddrinfo, "setsockopt": OK, "gethostname": h_gethostname,
    "inet_ntop": h_inet_ntop, "regcomp": h_regcomp, "regexec": h_regexec, "regfree": NOP,
    "htons": lambda it, a: sg16(swap16(a[0])), "ntohs": lambda it, a: sg16(swap16(a[0])), "htonl": lambda it, a: a[0], "ntohl": lambda it, a: a[0],
    "llvm.bswap.i16": lambda it, a: sg16(swap16(a[0])),
    "laik_log_init_loc": NOP, "laik_log_init": NOP, "laik_log_cleanup": NOP, "laik_log_append_info": NOP,
    "laik_close_profiling_file": NOP, "laik_free_profiling": NOP,
}


# ---- schedule ---------------------------------------------------------------------

class Proc(threading.Thread):
    def __init__(self, sim, rank, it, body):
        super().__init__(daemon=True)
        self.sim, self.rank, self.it, self.body = sim, rank, it, body
        self.go = threading.Semaphore(0)
        self.cond = None
        self.what = ""
        self.done = False
        self.err = None
        self.joined = False

    def run(self):
        self.go.acquire()
        try:
            if not self.sim.dead:
                self.body(self.it, self.rank)
        except Kill:
            pass
        except BaseException as e:
            self.err = e
        self.done = True
        # an ended process closes its connections
        for s in self.it.fds.values():
            s.closed = True
            if s.listening and self.it.net.ports.get(s.port) is s:
                del self.it.net.ports[s.port]
        self.sim.back.release()

    def switch(self, cond, what):
        self.cond, self.what = cond, what
        self.sim.back.release()
        self.go.acquire()
        self.cond = None
        if self.sim.dead:
            raise Kill()

    def block(self, cond, what):
        if not cond():
            self.switch(cond, what)

    def pause(self):
        if self.sim.preempt():
            self.switch(lambda: True, "")


class Sim:
    """policy: order of processes and preemption: ("low"|"high", False) or ("lcg", seed)"""

    def __init__(self, its, body, net, policy=("low", 0)):
        self.back = threading.Semaphore(0)
        self.dead = False
        self.policy = policy
        self.rnd = policy[1] * 2654435761 + 12345 if policy[0] == "lcg" else 0
        self.procs = [Proc(self, r, it, body) for r, it in enumerate(its)]
        self.turn = 0
        for p in self.procs:
            p.it.sim, p.it.proc, p.it.net = self, p, net

    def random(self, k):
        self.rnd = (self.rnd * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        return (self.rnd >> 33) % k

    def preempt(self):
        if self.policy[0] == "rr":
            return True
        return self.policy[0] == "lcg" and self.random(3) == 0

    def run(self):
        for p in self.procs:
            p.start()
        err = None
        idle = 0
        while True:
            run = [p for p in self.procs if not p.done and (p.cond is None or p.cond())]
            if not run:
                break
            if self.policy[0] == "lcg":
                p = run[self.random(len(run))]
            elif self.policy[0] == "high":
                p = run[-1]
            elif self.policy[0] == "rr":
                self.turn += 1
                p = min(run, key=lambda p: (p.rank - self.turn) % len(self.procs))
            else:
                p = run[0]
            p.go.release()
            self.back.acquire()
            if p.err is not None:
                err = p.err
                break
        left = [p for p in self.procs if not p.done]
        if err is None and left:
            err = Cut("processes wait for each other: " + "; ".join("process %d in %s" % (p.rank, p.what) for p in left))
        self.dead = True
        for p in left:
            if not p.done:
                p.go.release()
                self.back.acquire()
        for p in self.procs:
            p.join()
        if err is not None:
            raise err


# ---- message passing in place of sockets ------------------------------------------

class MInterp(NInterp):
    """process of a program on the model of MPI (mpisim); messages hold elements of the size of its application"""
    be = "mpi"

    def __init__(self, choose):
        super().__init__(choose)
        self.handlers.update(mpisim.handlers())
        self.handlers["MPI_Get_processor_name"] = h_procname
        self.handlers["laik_tcp_minimpi_get_processor_name"] = h_procname

    def take(self, p, n):
        if not isinstance(n, int):
            raise Undecided("message of %r elements" % (n,))
        if n == 0:
            return []
        es = self.app.es
        o, off = self.deref(p)
        self.bounds(o, off, n * es)
        return [self.value(o, off + k * es, es) for k in range(n)]

    def put(self, p, *a):
        if len(a) == 1:
            return super().put(p, a[0])
        n, v = a
        if n == 0:
            return
        es = self.app.es
        if v[0] == "reduced":
            v = [("val", self.app.red(v[1], [self.app.name(x[k]) for x in v[2]])) for k in range(n)]
        elif isinstance(v, tuple):
            v = [v] * n
        o, off = self.deref(p)
        self.bounds(o, off, n * es)
        for k in range(n):
            self.storem(("p", o, off + k * es), es, v[k])

    def still(self, p, n, v):
        return not p[1].freed and self.take(p, n) == v

    def same(self, a, b):
        return a == b

    def opname(self, op):
        return self.app.opname(op)

    def typed(self, ty):
        self.app.typed(ty)


def h_procname(it, a):
    it.put(a[0], [ord(c) for c in it.host] + [0])
    it.storem(a[1], 4, len(it.host))
    return 0


class MSim(Sim, mpisim.Sim):
    def __init__(self, its, body, policy=("low", 0)):
        Sim.__init__(self, its, body, None, policy)
        self.chan, self.coll, self.comms = {}, {}, {}

    def run(self):
        Sim.run(self)
        for k, (s, r) in self.chan.items():
            if len(s) != len(r):
                raise Cut("process %d sends %d message(s) to process %d which receives %d" % (k[0], len(s), k[1], len(r)))
            for m in s + r:
                if not m["done"]:
                    raise Cut("communication between process %d and %d is never completed" % k[:2])
