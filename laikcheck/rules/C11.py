"""Key-value store: local operations, synchronisation over the MPI and TCP
backends, and the stores built on it (spaces, locations).

kvs.c, the sync functions of the backends and the space and location stores are
interpreted for every process with keys and values made of opaque bytes (only
their length is known, any relative order of the keys), over all sequences of
operations up to a bound, with journals and tables of minimal capacity.  After
every step each key has the last value set; after a sync all processes agree,
callbacks ran exactly for the changes made by others, contradicting changes are
refused, nothing is leaked, freed twice or accessed out of bounds."""
import re
from .. import model, mpisim
from ..absint import Abort, Cut, Obj, UNDEF, NULL, Undecided, is_ptr, sym, _abort
from ..absint import _malloc, _realloc, _free
from ..build import AnalysisError
from ..model import P, add, fo, rd, setf, ssize, Poly
from . import C06, C12
from .C12 import MInterp

M = None
THOROUGH = False


KEYS = ("a", "b", "c")
MANY = tuple("k%d" % i for i in range(9))
KL = {"a": 1, "b": 3, "c": 1, "?": 1, "s": 2}
VL = {"u": 1, "v": 3, "w": 1, "x": 3}


class Byte(tuple):
    """opaque byte: ('kb', key, j) never zero; ('vb', value, j) any value;
    ('num', v) text of a number"""


def text(o, s):
    bs = []
    for ch in s:
        bs.append(ord(ch) if isinstance(ch, str) else ch)
    return bs


class KInterp(MInterp):
    def __init__(self, ch, shared=None):
        super().__init__(ch, shared)
        self.budget = 3000000
        self.heap = []
        h = self.handlers
        h["malloc"] = self.track(_malloc)
        h["realloc"] = self.track(_realloc)
        h["free"] = _free
        h.update({"strcmp": self.h_strcmp, "strncmp": self.h_strncmp, "memcmp": self.h_memcmp, "strlen": self.h_strlen, "strdup": self.h_strdup,
                  "sprintf": self.h_sprintf, "snprintf": self.h_snprintf, "__isoc99_sscanf": self.h_sscanf, "sscanf": self.h_sscanf,
                  "__isoc23_sscanf": self.h_sscanf, "atoi": self.h_atoi, "exit": self.h_exit, "laik_panic": self.h_exit, "strcpy": self.h_strcpy,
                  "model_created": self.h_cb("created"), "model_changed": self.h_cb("changed"), "model_removed": self.h_cb("removed"),
                  "laik_log_Space": lambda i, a: None})
        h["laik_log_begin"] = lambda i, a: 0
        h["MPI_Get_processor_name"] = h["laik_tcp_minimpi_get_processor_name"] = self.h_name
        self.proc_many = False
        self.events = []
        self.ty = None
        if shared is not None:
            shared.__dict__.setdefault("memo", {})
        self.memo = shared.memo if shared is not None else {}

    @staticmethod
    def track(f):
        def g(it, a):
            p = f(it, a)
            it.heap.append(p[1])
            return p
        return g

    def run(self, F, args, depth=0):
        n = F.src
        if n.startswith("laik_kvs_") or n.startswith("laik_space"):
            self.kv = F
        return super().run(F, args, depth)

    @staticmethod
    def h_exit(it, a):
        it.panic[0] = True
        return _abort(it, a)

    @staticmethod
    def h_name(it, a):
        it.put_text(a[0], [Byte(("kb", "host%d" % it.proc.rank, 0))])
        it.storem(a[1], 4, 1)
        return 0

    # ---- bytes -----------------------------------------------------------------
    def step(self, fr, I, depth):
        if I.op in ("sext", "zext", "trunc"):
            v = self.opval(fr, I.ops[0])
            if isinstance(v, Byte):
                return v
        if I.op in ("add", "sub") and any(isinstance(self.opval(fr, o), Byte) for o in I.ops):
            raise Cut("arithmetic on a byte of a key or value at " + I.loc())
        if I.op in ("call",) and I.callee and I.callee.startswith("llvm.memcpy"):
            a = [self.opval(fr, x) for x in I.args]
            if is_ptr(a[0]) and is_ptr(a[1]) and a[0][1] is a[1][1] and a[0][1] is not None and isinstance(a[2], int):
                if a[0][2] != a[1][2] and abs(a[0][2] - a[1][2]) < a[2]:
                    raise Cut("memcpy of overlapping memory at " + I.loc())
        return super().step(fr, I, depth)

    def icmp(self, I, a, b):
        if isinstance(a, Byte) or isinstance(b, Byte):
            p = I.raw["p"]
            if isinstance(b, Byte):
                a, b = b, a
            if p in ("eq", "ne"):
                if isinstance(b, Byte):
                    e = a == b or bool(self.pick(2, a, b))
                elif a[0] in ("kb", "num") and b == 0:
                    e = False
                else:
                    e = bool(self.pick(2, a, b))
                return int(e == (p == "eq"))
            return self.pick(2, a, b, p)
        return super().icmp(I, a, b)

    def get_text(self, p, what="string", limit=None):
        """bytes up to the terminating zero"""
        o, off = self.deref(p)
        if isinstance(o, Obj) and getattr(o, "g", None):
            g = o.g
            if g.get("init") and g["init"][0] == "s":
                return [ord(c) for c in g["init"][1][off:]]
        out = []
        while limit is None or len(out) < limit:
            if isinstance(o.size, int) and off >= o.size:
                raise Abort("%s is read beyond the end of its memory at %s" % (what, self.cur.loc()))
            c = o.cells.get(off)
            if c is None and o.lazy:
                c = (1, o.lazy(self, o, off, 1))
            if c is None or c[0] != 1:
                raise Abort("%s is not terminated at %s" % (what, self.cur.loc()))
            if c[1] == 0:
                break
            if isinstance(c[1], Byte) and c[1][0] == "vb" and self.pick(2, "zero", c[1]):
                break
            out.append(c[1])
            off += 1
        return out

    def put_text(self, p, bs, size=None):
        o, off = self.deref(p)
        for j, b in enumerate(bs + [0]):
            self.storem(("p", p[1], add(off, j)), 1, b)

    @staticmethod
    def keyof(bs):
        if bs and all(isinstance(b, Byte) and b[0] == "kb" and b[1] == bs[0][1] and b[2] == j for j, b in enumerate(bs)):
            if len(bs) == klen(bs[0][1]):
                return bs[0][1]
        return None

    def cmp_text(self, x, y):
        if x == y:
            return 0
        kx, ky = self.keyof(x), self.keyof(y)
        if kx and ky:
            return self.kcmp(kx, ky)
        for a, b in zip(x, y):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return 1 if a > b else -1
            elif a != b:
                return self.pick3(x, y)
        return (len(x) > len(y)) - (len(x) < len(y))

    def pick(self, n, *key):
        """unknown result, the same whenever asked again"""
        m = self.memo
        k = str(key)
        if k not in m:
            m[k] = self.choose(n)
        return m[k]

    def pick3(self, x, y):
        a, b = str(x), str(y)
        return self.pick(3, a, b) - 1 if a <= b else 1 - self.pick(3, b, a)

    def kcmp(self, a, b):
        o = self.order
        r = o.know(a, b)
        if r is None:
            r = -1 if self.choose(2) else 1
            o.add(a, r, b)
        return r

    @staticmethod
    def h_strcmp(it, a):
        return it.cmp_text(it.get_text(a[0]), it.get_text(a[1]))

    @staticmethod
    def h_strncmp(it, a):
        n = a[2]
        x, y = it.get_text(a[0], limit=n), it.get_text(a[1], limit=n)
        if len(x) < n and len(y) < n or x == y:
            return it.cmp_text(x, y)
        if it.pick(2, "differ", *sorted([str(x), str(y)])):
            return 0
        x, y = it.get_text(a[0]), it.get_text(a[1])
        return it.cmp_text(x, y) or it.pick3(x, y)

    @staticmethod
    def h_memcmp(it, a):
        n = a[2]
        if not isinstance(n, int):
            raise Undecided("memcmp of unknown size")
        if n == 0:
            return 0
        v = []
        for p in a[:2]:
            o, off = it.deref(p)
            it.bounds(o, off, n)
            v.append([o.cells.get(off + j, (1, None))[1] for j in range(n)])
            if None in v[-1]:
                raise Abort("comparison of uninitialised memory at " + it.cur.loc())
        if v[0] == v[1]:
            return 0
        if all(x == y or isinstance(x, Byte) and isinstance(y, Byte) and x[0] == y[0] == "num" for x, y in zip(*v)):
            # texts of numbers
            return 0 if all(x == y or it.rel("eq", x[1], y[1]) for x, y in zip(*v)) else 1
        # complete different values differ, parts of them may be equal
        for x in v:
            b = x[0]
            if not (isinstance(b, Byte) and b[0] == "vb" and len(x) == vlen(b[1])):
                return it.pick3(*v)
        if all(x == [Byte(("vb", x[0][1], j)) for j in range(n)] for x in v):
            return 1 if v[0] < v[1] or not it.proc_many and it.pick(2, *sorted([str(v[0]), str(v[1])])) else -1
        return it.pick3(*v)

    @staticmethod
    def h_strlen(it, a):
        return len(it.get_text(a[0]))

    @staticmethod
    def h_strdup(it, a):
        bs = it.get_text(a[0])
        o = Obj("heap", len(bs) + 1, fresh=True)
        it.heap.append(o)
        it.put_text(P(o), bs)
        return P(o)

    @staticmethod
    def h_strcpy(it, a):
        it.put_text(a[0], it.get_text(a[1]))
        return a[0]

    def fmt(self, f, args):
        """bytes of a formatted text and its maximal length"""
        f = "".join(chr(x) for x in self.get_text(f))
        out, n, k = [], 0, 0
        for m in re.finditer(r"%[-0-9.]*(?:hh|h|ll|l|j|z)?([a-zA-Z%])|[^%]", f):
            if m.group(1) is None or m.group(1) == "%":
                out.append(ord(m.group(0)[-1]))
                n += 1
                continue
            v = args[k]
            k += 1
            if m.group(1) == "s":
                bs = self.get_text(v)
                out += bs
                n += len(bs)
            elif m.group(1) in "di":
                long = "l" in m.group(0) or "j" in m.group(0)
                if isinstance(v, int) and not isinstance(v, bool):
                    out += [ord(c) for c in str(v)]
                    n += len(str(v))
                elif isinstance(v, Poly):
                    out.append(Byte(("num", v)))
                    n += 20 if long else 11
                    if not long:
                        raise Cut("64-bit number printed as int at " + self.cur.loc())
                else:
                    out.append(Byte(("kb", "?", 0)))
                    n += 20
            elif m.group(1) == "u":
                out.append(Byte(("num", v)) if isinstance(v, Poly) else ord("0"))
                n += 20
            else:
                raise Undecided("format " + f)
        return out, n

    @staticmethod
    def h_sprintf(it, a):
        bs, n = it.fmt(a[1], a[2:])
        o, off = it.deref(a[0])
        if isinstance(o.size, int) and isinstance(off, int) and off + n + 1 > o.size:
            raise Abort("text of up to %d bytes is written to a buffer of %d bytes at %s" % (n + 1, o.size - off, it.cur.loc()))
        it.put_text(a[0], bs)
        return len(bs)

    @staticmethod
    def h_snprintf(it, a):
        bs, n = it.fmt(a[2], a[3:])
        o, off = it.deref(a[0])
        it.bounds(o, off, a[1])
        it.put_text(a[0], bs[:a[1] - 1])
        return len(bs)

    @staticmethod
    def h_sscanf(it, a):
        bs = it.get_text(a[0])
        f = "".join(chr(x) for x in it.get_text(a[1]))
        i = k = 0
        for m in re.finditer(r"%(hh|h|ll|l|j|z)?([a-zA-Z])|[^%]", f):
            if m.group(2) is None:
                if i < len(bs) and bs[i] == ord(m.group(0)):
                    i += 1
                    continue
                return k
            if m.group(2) not in "di":
                raise Undecided("format " + f)
            size = 8 if m.group(1) in ("l", "ll", "j", "z") else 4
            if i < len(bs) and isinstance(bs[i], Byte) and bs[i][0] == "num":
                if size != 8:
                    raise Cut("64-bit number read as int at " + it.cur.loc())
                it.storem(a[2 + k], size, bs[i][1])
                i += 1
            else:
                d = ""
                while i < len(bs) and isinstance(bs[i], int) and (chr(bs[i]).isdigit() or not d and bs[i] == 45):
                    d += chr(bs[i])
                    i += 1
                if not d:
                    return k
                it.storem(a[2 + k], size, int(d))
            k += 1
        return k

    @staticmethod
    def h_atoi(it, a):
        if is_ptr(a[0]) and isinstance(a[0][1], Obj) and hasattr(a[0][1], "num"):
            return a[0][1].num
        s = ""
        for b in it.get_text(a[0]):
            if isinstance(b, int) and chr(b).isdigit():
                s += chr(b)
            else:
                break
        return int(s or 0)

    # ---- messages ----------------------------------------------------------------
    def typed(self, ty):
        s = str(ty)
        if "2147" in s or not is_ptr(ty) and not isinstance(ty, int):
            raise Undecided("message type %r" % (ty,))
        if is_ptr(ty):
            n = ty[1][1]
            self.ty = {"ompi_mpi_integer": 4, "ompi_mpi_int": 4, "ompi_mpi_char": 1, "ompi_mpi_byte": 1}.get(n)
        else:
            self.ty = {M.enum_const("LAIK_TCP_MINIMPI_" + k): v for k, v in (("INTEGER", 4), ("INT", 4), ("INT32", 4), ("CHAR", 1), ("INT8", 1), ("UINT8", 1), ("BYTE", 1))}.get(ty)
        if self.ty is None:
            raise Undecided("message type %r" % (ty,))

    def take(self, p, n):
        o, off = self.deref(p)
        w = self.ty
        self.bounds(o, off, n * w)
        out = []
        for j in range(n):
            c = o.cells.get(off + j * w)
            if c is None:
                c = (w, o.lazy(self, o, off + j * w, w)) if o.lazy else None
            if c is None or c[0] != w:
                raise Cut("uninitialised data is sent to another process at " + self.cur.loc())
            out.append(c[1])
        return (w, out)

    def put(self, p, n, v):
        if v == ("inflight",):
            return
        for j, x in enumerate(v[1]):
            self.storem(("p", p[1], add(p[2], j * v[0])), v[0], x)

    # ---- callbacks ---------------------------------------------------------------
    @staticmethod
    def h_cb(kind):
        def f(it, a):
            if kind == "removed":
                it.events.append((kind, it.get_text(a[1]), None))
            else:
                k, v, n = (it.loadm(("p", a[1][1], add(a[1][2], fo("_Laik_KVS_Entry", x)[0])), w, t) for x, w, t in (("key", 8, "ptr"), ("value", 8, "ptr"), ("vlen", 4, "i32")))
                it.events.append((kind, it.get_text(k), it.raw_bytes(v, n)))
        return lambda it, a: f(it, a)

    def raw_bytes(self, p, n):
        o, off = self.deref(p)
        if not isinstance(n, int):
            raise Cut("length of a value is unknown")
        self.bounds(o, off, n)
        return [o.cells.get(off + j, (1, None))[1] for j in range(n)]


def klen(k):
    return 2 if k in MANY else KL.get(k[0], 1)


def vlen(v):
    return VL[v[0]]


def kbytes(k):
    return [Byte(("kb", k, j)) for j in range(klen(k))]


def vbytes(v):
    if v.startswith("s"):
        return kbytes(v) + [0]
    return [Byte(("vb", v, j)) for j in range(vlen(v))]


def strobj(bs):
    o = Obj("str", len(bs))
    for j, b in enumerate(bs):
        o.cells[j] = (1, b)
    return o


class Store:
    """one process' store with its model"""

    def __init__(self, it, inst, small=True):
        self.it = it
        it.heap = []
        self.kvs = it.call(M.fn("laik_kvs_new").name, [P(strobj(kbytes("?") + [0])), inst])
        ko, _ = it.deref(self.kvs)
        if small:
            # smallest capacities of tables and journal
            e, _ = it.deref(rd(ko, fo("_Laik_KVStore", "entry")[0]))
            e.size = ssize("_Laik_KVS_Entry")
            setf(ko, "_Laik_KVStore", size=1)
            base = fo("_Laik_KVStore", "changes")[0]
            for arr, cap, sz, n in (("off", "offSize", 4, 3), ("data", "dataSize", 1, 2), ("entry", "entrySize", ssize("_Laik_KVS_Entry"), 1)):
                p = rd(ko, base + fo("_Laik_KVS_Changes", arr)[0])
                if not is_ptr(p) or not isinstance(p[1], Obj):
                    continue
                p[1].size = sz * n
                setf(ko, "_Laik_KVS_Changes", base, **{cap: n})
        it.call(M.fn("laik_kvs_reg_callbacks").name, [self.kvs] + [("p", ("@", "model_" + n), 0) for n in ("created", "changed", "removed")])
        self.val = {}
        self.seen = set()
        self.chg = {}

    def call(self, f, *a):
        return self.it.call(M.fn("laik_kvs_" + f).name, [self.kvs] + list(a))

    def op(self, o):
        """('set',k,v) ('sets',k,v) ('rm',k) ('clean',) ('sort',)"""
        it = self.it
        it.events = []
        k = o[1] if len(o) > 1 else None
        kp = P(strobj(kbytes(k) + [0])) if k else None
        if o[0] in ("set", "sets"):
            bs = vbytes(o[2])
            vo = strobj(bs)
            if o[0] == "set":
                r = self.call("set", kp, len(bs), P(vo))
            else:
                r = self.call("sets", kp, P(vo))
            vo.freed = True
            if not is_ptr(r) or r[1] is None:
                raise Cut("setting a value returns no entry")
            if self.val.get(k) != o[2]:
                self.val[k] = self.chg[k] = o[2]
            self.seen.add(k)
        elif o[0] == "rm":
            r = self.call("remove", kp)
            if r not in (0, 1, -1) or bool(r) != (k in self.val):
                raise Cut("removing a key reports %r although it %s" % (r, "exists" if k in self.val else "does not exist"))
            if k in self.val:
                del self.val[k]
                self.chg[k] = None
        elif o[0] == "null":
            r = self.call("set", kp, 1, NULL)
            if k in self.val:
                del self.val[k]
                self.chg[k] = None
        elif o[0] == "clean":
            self.call("clean")
            for k in list(self.val):
                del self.val[k]
                self.chg[k] = None
        elif o[0] == "sort":
            self.call("sort")
        if kp:
            kp[1].freed = True
        if it.events:
            raise Cut("callback runs for an own change outside of a sync")

    def verify(self, what, keys=KEYS):
        it = self.it
        for k in keys:
            out = Obj("out", 4)
            kp = P(strobj(kbytes(k) + [0]))
            p = self.call("get", kp, P(out))
            if k not in self.val:
                if p != NULL and p != 0:
                    raise Cut("%s: key without value still has one" % what)
                continue
            want = vbytes(self.val[k])
            if p == NULL or not is_ptr(p):
                raise Cut("%s: value of a key is lost" % what)
            n = rd(out, 0)
            if n != len(want) or it.raw_bytes(p, n) != want:
                raise Cut("%s: a key has a wrong value" % what)
            e = self.call("entry", kp)
            if it.call(M.fn("laik_kvs_size").name, [e]) != len(want) or it.call(M.fn("laik_kvs_data").name, [e, NULL])[1] is not p[1]:
                raise Cut("%s: entry differs from value found for its key" % what)
            if it.get_text(it.call(M.fn("laik_kvs_key").name, [e])) != kbytes(k):
                raise Cut("%s: entry found for a key has another key" % what)
            for sz in (len(want) - 1, len(want), len(want) + 2):
                mem = Obj("mem", sz)
                r = it.call(M.fn("laik_kvs_copy").name, [e, P(mem), sz])
                if r != min(sz, len(want)) or [rd(mem, j) for j in range(r)] != want[:r]:
                    raise Cut("%s: copy of a value is wrong" % what)
        n = self.call("count")
        if not isinstance(n, int):
            raise Undecided("number of entries")
        got = []
        for j in range(n):
            e = self.call("getn", j)
            if e == NULL:
                raise Cut("%s: fewer entries than counted" % what)
            k = it.get_text(it.call(M.fn("laik_kvs_key").name, [e]))
            if k in got:
                raise Cut("%s: key exists twice" % what)
            got.append(k)
        if self.call("getn", n) != NULL:
            raise Cut("%s: more entries than counted" % what)
        if not set(tuple(kbytes(k)) for k in self.val) <= set(tuple(g) for g in got):
            raise Cut("%s: entries are missing in the list of all entries" % what)

    def check_sync(self, before, keys=KEYS):
        """self.val is the state after; before: own state before sync"""
        ev = sorted((k, tuple(key), tuple(v) if v is not None else None) for k, key, v in self.it.events)
        want = []
        for k in keys:
            o, n = before.get(k), self.val.get(k)
            if o == n:
                continue
            kind = "removed" if n is None else "created" if o is None else "changed"
            want.append((kind, tuple(kbytes(k)), tuple(vbytes(n)) if n is not None else None))
        if ev != sorted(want):
            raise Cut("sync: callbacks %s instead of %s" % ([e[0] for e in ev], [e[0] for e in sorted(want)]))

    def free(self):
        it = self.it
        it.call(M.fn("laik_kvs_free").name, [self.kvs])
        left = [o for o in it.heap if not o.freed]
        if left:
            raise Cut("%d memory block(s) of a freed store are never freed" % len(left))


INITS = {"mpi": "laik_init_mpi", "tcp": "laik_init_tcp", "single": "laik_init_single"}


def instance(it, be):
    ac, av = Obj("argc"), Obj("argv")
    it.env = {}
    args = [P(ac), P(av)] if be != "single" else []
    return it.call(M.fn(INITS[be]).name, args)


def f_local(ops, depth, small=True, first=None):
    def body(it):
        it.panic = [False]
        inst = instance(it, "single")
        s = Store(it, inst, small)
        seq = []
        for o in first or []:
            s.op(o)
        for d in range(depth):
            o = ops[it.choose(len(ops))]
            seq.append(o)
            if o[0] == "sync":
                it.events = []
                s.call("sync")
                s.chg = {}
                if it.events:
                    raise Cut("callback runs for own changes")
            else:
                s.op(o)
        try:
            s.verify("after " + ", ".join(" ".join(x) for x in seq))
        except Abort as e:
            raise Abort("%s (after %s)" % (e, ", ".join(" ".join(x) for x in seq)))
        s.free()
    return body


def f_many(be, n, small, perm):
    """many keys in a fixed order, distributed over the processes"""
    def body(it0):
        ks = [MANY[(i * perm) % len(MANY)] for i in range(len(MANY))]
        model.chain(it0, *MANY)
        its = [KInterp(it0.choose, it0) for _ in range(n)]
        it0.panic = [False]
        V = ("u", "v", "w", "x")

        def proc(it, rank):
            it.panic = it0.panic
            it.covered = it0.covered
            it.proc_many = True
            s = Store(it, instance(it, be), small)
            val = {}
            s.val = dict(val)
            for r in range(3):
                before = dict(val)
                for i, k in enumerate(ks):
                    o = ("rm", k) if r == 2 and i % 3 == 0 else ("set", k, V[(i + r) % 4])
                    if r == 1 and i % 2:
                        continue
                    if i % n == rank:
                        s.op(o)
                        if o[0] == "rm":
                            before.pop(k, None)
                        else:
                            before[k] = o[2]
                    if o[0] == "rm":
                        val.pop(k, None)
                    else:
                        val[k] = o[2]
                s.verify("before sync", MANY)
                it.events = []
                s.call("sync")
                s.val = dict(val)
                s.verify("process %d after sync %d" % (rank, r + 1), MANY)
                s.check_sync(before, MANY)
            s.free()
        mpisim.Sim(its, proc).run()
    return body


def f_sync(be, n, rounds, small=True):
    """rounds: list of rounds, each a list per process of lists of alternative op lists"""
    def body(it0):
        sel = [[alts[it0.choose(len(alts))] if len(alts) > 1 else alts[0] for alts in rnd] for rnd in rounds]
        its = [KInterp(it0.choose, it0) for _ in range(n)]
        it0.panic = [False]
        state, conflict = {}, None
        plan = []
        for r, rnd in enumerate(sel):
            befores, chgs = [], []
            for p in range(n):
                v, c = dict(state), {}
                for o in rnd[p]:
                    k = o[1] if len(o) > 1 else None
                    if o[0] in ("set", "sets"):
                        if v.get(k) != o[2]:
                            v[k] = c[k] = o[2]
                    elif o[0] == "rm":
                        if k in v:
                            del v[k]
                            c[k] = None
                    elif o[0] == "clean":
                        for k in list(v):
                            del v[k]
                            c[k] = None
                befores.append(v)
                chgs.append(c)
            m = {}
            for c in chgs:
                for k, x in c.items():
                    if k in m and m[k] != x and conflict is None:
                        conflict = r
                    m[k] = x
            for k, x in m.items():
                if x is None:
                    state.pop(k, None)
                else:
                    state[k] = x
            plan.append((befores, dict(state)))
        desc = "; ".join(" | ".join(", ".join(" ".join(o) for o in ops) or "-" for ops in rnd) for rnd in sel)

        def proc(it, rank):
            it.panic = it0.panic
            it.covered = it0.covered
            inst = instance(it, be)
            s = Store(it, inst, small)
            for r, rnd in enumerate(sel):
                for o in rnd[rank]:
                    s.op(o)
                it.events = []
                it.at = r
                s.call("sync")
                before, after = plan[r]
                s.val = dict(after)
                s.chg = {}
                s.verify("process %d after sync %d" % (rank, r + 1))
                s.check_sync(before[rank])
            s.free()
        try:
            mpisim.Sim(its, proc).run()
        except Abort as e:
            if conflict is not None and it0.panic[0]:
                return
            raise Abort("%s (operations per process: %s)" % (e, desc))
        except Cut as e:
            raise Cut(e.args[0] and "%s (operations per process: %s)" % (e, desc))
        if conflict is not None:
            raise Cut("contradicting changes of processes are not refused (operations per process: %s)" % desc)
    return body


def spacebox(it, sp, dims):
    o, _ = it.deref(sp)
    b = fo("_Laik_Space", "range")[0]
    if rd(o, fo("_Laik_Space", "dims")[0]) != dims:
        raise Cut("space from the store has wrong number of dimensions")
    spp = rd(o, b + fo("_Laik_Range", "space")[0])
    if spp != ("p", o, 0):
        raise Cut("range of a space from the store belongs to no or another space")
    return [rd(o, b + fo("_Laik_Range", e)[0] + 8 * d) for d in range(dims) for e in ("from", "to")]


def eqbox(it, a, b):
    return all(isinstance(x, (int, Poly)) and it.rel("eq", x, y) for x, y in zip(a, b))


def f_spaces(be, dims, change):
    """process 0 stores a space, the others look it up after sync; then its size is changed"""
    def body(it0):
        its = [KInterp(it0.choose, it0) for _ in range(2)]
        it0.panic = [False]
        neg = it0.choose(2)
        for d in range(3):
            it0.order.add("f%d" % d, -1, "t%d" % d)
            it0.order.add("f%d" % d, -1 if neg else 1, 0)
            it0.order.add("f%d'" % d, -1, "t%d'" % d)
        who = it0.choose(2)
        look = it0.choose(2)

        def proc(it, rank):
            it.panic = it0.panic
            it.covered = it0.covered
            inst = instance(it, be)
            nm = P(strobj(kbytes("a") + [0]))
            box = [sym("%s%d" % (e, d)) for d in range(dims) for e in "ft"]
            sp = None
            if rank == who:
                sp = it.call(M.fn("laik_new_space_%dd" % dims).name, [inst] + [sym("t%d" % d) for d in range(dims)])
                it.call(M.fn("laik_set_space_name").name, [sp, nm])
                it.call(M.fn("laik_change_space_%dd" % dims).name, [sp] + box)
                it.call(M.fn("laik_spacestore_set").name, [sp])
            elif look:
                if it.call(M.fn("laik_spacestore_get").name, [inst, nm]) != NULL:
                    raise Cut("space found although not yet in the store")
            it.call(M.fn("laik_sync_spaces").name, [inst])
            q = it.call(M.fn("laik_spacestore_get").name, [inst, nm])
            if q == NULL or not is_ptr(q):
                raise Cut("space not found in the store after sync")
            if sp is not None and q[1] is not sp[1]:
                raise Cut("another space is found than the one stored")
            if not eqbox(it, spacebox(it, q, dims), box):
                raise Cut("space from the store has another size than the one stored")
            if change is not None:
                box2 = [sym("%s%d'" % (e, d)) for d in range(dims) for e in "ft"]
                for x, y in zip(box, box2):
                    if it0.order.know(x.t and list(x.t)[0][0], list(y.t)[0][0]) is None and rank == 0:
                        it0.order.add(list(x.t)[0][0], -1, list(y.t)[0][0])
                me = rank == (who if change == "same" else 1 - who)
                if me:
                    it.call(M.fn("laik_change_space_%dd" % dims).name, [q] + box2)
                it.call(M.fn("laik_sync_spaces").name, [inst])
                if not eqbox(it, spacebox(it, q, dims), box2):
                    raise Cut("change of the size of a space does not reach the other processes")
        mpisim.Sim(its, proc).run()
    return body


def f_location(be, n, again):
    def body(it0):
        its = [KInterp(it0.choose, it0) for _ in range(n)]
        it0.panic = [False]

        def proc(it, rank):
            it.panic = it0.panic
            it.covered = it0.covered
            inst = instance(it, be)
            w = it.call(M.fn("laik_world").name, [inst])
            for k in range(again):
                it.call(M.fn("laik_sync_location").name, [inst])
                for p in range(n):
                    s = it.call(M.fn("laik_group_location").name, [w, p])
                    if s == NULL or not is_ptr(s):
                        raise Cut("location of a process is unknown after sync")
                    if Byte(("kb", "host%d" % p, 0)) not in it.get_text(s):
                        raise Cut("process %d has the location of another process" % p)
                m = it.call(M.fn("laik_mylocation").name, [inst])
                if Byte(("kb", "host%d" % rank, 0)) not in it.get_text(m):
                    raise Cut("own location is wrong")
        mpisim.Sim(its, proc).run()
    return body


S = lambda *x: ("set",) + x
ALPH = [S("a", "u"), S("a", "v"), S("b", "w"), ("rm", "a"), ("rm", "b"), ("clean",), ("sort",), ("sync",), ("sets", "c", "s"), ("null", "a")]
ANCHOR = {"local operations": "laik_kvs_set", "sync (mpi)": "laik_mpi_sync", "sync (tcp)": "laik_tcp_sync", "spaces (mpi)": "laik_spacestore_get", "spaces (tcp)": "laik_spacestore_get",
          "locations (mpi)": "laik_sync_location", "locations (tcp)": "laik_sync_location"}


def families(thorough):
    out = []
    for o in ALPH:
        out.append(("local operations", "sequences of up to %d operations from %s" % (4 if thorough else 3, " ".join(o)), f_local(ALPH, 3 if thorough else 2, first=[o] if o[0] != "sync" else [])))
    out.append(("local operations", "sequences after a sync with three entries", f_local(ALPH, 2, first=[S("a", "u"), S("b", "v"), S("c", "w"), ("sort",)])))
    out.append(("local operations", "default capacities", f_local(ALPH, 2, small=False, first=[S("b", "v")])))
    one = [[], [S("a", "u")], [S("a", "v")], [S("b", "w")], [("rm", "a")], [("sets", "c", "s")]]
    two = one + [[x[0], y[0]] for x in one[1:] for y in one[1:]]
    ini = [[S("a", "u"), S("b", "x")]]
    for be in ("mpi", "tcp"):
        R = "sync (%s)" % be
        for k in range(0, len(two), 6):
            out.append((R, "2 processes, first sync, changes %d.." % k, f_sync(be, 2, [[two[k:k + 6], one]])))
            out.append((R, "2 processes, later sync, changes %d.." % k, f_sync(be, 2, [[ini, [[]]], [two[k:k + 6], one]])))
            out.append((R, "2 processes, later sync of others' changes %d.." % k, f_sync(be, 2, [[ini, [[]]], [one[:4], two[k:k + 6]], [one[3:5], one[1:2]]] if thorough else [[ini, [[]]], [[[], [("rm", "b")]], two[k:k + 6]], [[[("rm", "a")]], [[]]]])))
        for k in range(0, 6, 2):
            out.append((R, "3 processes, changes %d.." % k, f_sync(be, 3, [[one[k:k + 2], one, one]])))
            out.append((R, "3 processes, later sync, changes %d.." % k, f_sync(be, 3, [[[[]], ini, [[]]], [one[k:k + 2], one[:5], one[:5]]])))
        out.append((R, "2 processes, default capacities", f_sync(be, 2, [[one, one], [one[:2], one[:2]]], small=False)))
        for n in (2, 3):
            for small in (True, False):
                for perm in (1, 2, 8):
                    out.append((R, "%d processes, nine keys%s, order %d" % (n, "" if small else ", default capacities", perm), f_many(be, n, small, perm)))
        out.append((R, "4 processes", f_sync(be, 4, [[one[:2], one[1:4:2], one[3:4], one[4:]]])))
        out.append((R, "2 processes, everything removed", f_sync(be, 2, [[ini, [[]]], [[[], [("clean",)]], [[], [("clean",)], [("clean",), S("c", "u")]]], [one[:3], [[]]]])))
        for d in (1, 2, 3):
            for ch in (None, "same", "other"):
                out.append(("spaces (%s)" % be, "%d-d%s" % (d, {None: "", "same": ", resized by its creator", "other": ", resized by another process"}[ch]), f_spaces(be, d, ch)))
        out.append(("locations (%s)" % be, "2 processes, two syncs", f_location(be, 2, 2)))
        out.append(("locations (%s)" % be, "3 processes", f_location(be, 3, 1)))
        out.append(("locations (%s)" % be, "12 processes", f_location(be, 12, 1)))
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, KInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    C06.M = C12.M = M
    THOROUGH = c.tier == "thorough"
    F = families(THOROUGH)
    model.run_rules(c, M, F, ANCHOR, run_one, 1, "sequences and orders examined")
    return __doc__
