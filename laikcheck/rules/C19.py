"""C19: log output is complete, and only what is selected is written.

The logging functions (logging.c) are interpreted on the source's IR, with
messages composed in one or many pieces: of any length, with long words, line
ends, leading spaces and percent signs in arguments, for each prefix mode, log
level, location filter and with or without an instance.  Texts are concrete,
generated from fixed seeds around the sizes at which buffers grow and lines are
broken; every write outside a buffer is a violation.

Oracle: the output is a sequence of lines, each with the prefix documented in
logging.c (message counter since the last phase change, line number, process,
level); without prefixes the lines of a message are the message, where a line
may be continued in the next one (indented) instead of a space.  Nothing is
written for messages below the level or outside of the location filter.
"""
import random, re
from .. import model
from ..absint import Abort, Cut, Obj, NULL
from ..clib import CInterp, Exit
from ..model import P, fo, setf

M = None
THOROUGH = False
ANCHOR = {}
LOGF = ("laik_log", "laik_log_begin", "laik_log_shown", "laik_log_append", "laik_log_flush", "laik_log_init", "laik_log_init_loc", "laik_log_cleanup", "laik_panic",
        "laik_log_append_info")


class LInterp(CInterp):
    REAL = LOGF

    def outside(self, h, name, args):
        return super().outside(h, name, args)


# ---- programs -----------------------------------------------------------------------

def lv(name):
    return M.enum_const("LAIK_LL_" + name)


class Log:
    """one process using the log, and what it has to write"""

    def __init__(self, it, env="2", loc=None, mylid=3, file=None):
        self.it = it
        self.loc, self.mylid = loc, mylid
        m = re.match(r"([ns]?)(\d+)(?::(\d+)(?:-(\d+))?)?$", env) if env is not None else None
        self.mode = {"n": 0, "s": 1}.get(m.group(1), 2) if m else 2
        self.level = int(m.group(2)) if m else lv("Error")
        self.flt = None
        if m and m.group(3):
            self.flt = (int(m.group(3)), int(m.group(4) or m.group(3)))
        it.env = {} if env is None else {"LAIK_LOG": env}
        if file:
            it.env["LAIK_LOG_FILE"] = file
        self.time = 1000.25
        self.t0 = self.time
        it.clock = lambda: self.time
        self.inst = None
        self.phase = 0
        self.ctr = 0
        self.cur = None
        if loc is not None:
            self.call("laik_log_init_loc", it.new_text(loc))
        self.pos = 0

    def call(self, f, *a):
        return self.it.call(f, list(a))

    def init(self):
        o = Obj("instance")
        setf(o, "_Laik_Instance", mylocationid=self.mylid)
        self.call("laik_log_init", P(o))
        self.inst = P(o)

    def out(self):
        s = self.it.files.get(self.it.env.get("LAIK_LOG_FILE")) or self.it.err
        t = s.out[self.pos:]
        self.pos = len(s.out)
        for x in self.it.streams:
            if x is not s and x.out:
                raise Cut("log output written to %s" % x.name)
        return t

    def shown(self, l):
        if l < self.level:
            return False
        if self.flt and self.inst is not None:
            return self.flt[0] <= self.mylid <= self.flt[1]
        return True

    def text(self, s):
        return self.it.new_text(s)

    def fmt(self, s, k):
        """the text as format and arguments"""
        if k == 0 and "%" not in s:
            return [self.text(s)]
        if k == 1:
            w = s.split(" ")
            if len(w) > 2:
                return [self.text("%s " + " ".join(w[1:-1]).replace("%", "%%") + " %s"), self.text(w[0]), self.text(w[-1])]
        if k == 2:
            m = re.search(r"(?<![\d])[1-9]\d{0,6}(?!\d)", s)
            if m:
                return [self.text(s[:m.start()].replace("%", "%%") + "%d%s"), int(m.group(0)), self.text(s[m.end():])]
        return [self.text("%s"), self.text(s)]

    def log(self, l, s, k=0):
        try:
            self.call("laik_log", l, *self.fmt(s, k))
            ended = False
        except Abort as e:
            if l != lv("Panic") or "assert" not in str(e):
                raise
            ended = True
        if l == lv("Panic") and self.shown(l) and not ended and s:
            raise Cut("the program goes on after a panic")
        self.expect(l, s)

    def pieces(self, l, ss, last, ks):
        r = self.call("laik_log_begin", l)
        if bool(r & 1) != self.shown(l):
            raise Cut("laik_log_begin reports that level %d is%s logged" % (l, "" if r else " not"))
        for s, k in zip(ss, ks):
            self.call("laik_log_append", *self.fmt(s, k))
        if self.out():
            raise Cut("output before the end of a message")
        if last is None:
            self.call("laik_log_flush", NULL)
        else:
            self.call("laik_log_flush", *self.fmt(last, ks[-1]))
        self.expect(l, "".join(ss) + (last or ""))

    def inc(self):
        self.call("laik_log_inc")
        self.phase += 1
        self.ctr = 0

    def expect(self, l, s):
        o = self.out()
        if not self.shown(l) or s == "":
            if o:
                raise Cut("output '%s' for a message not selected" % o[:60])
            return
        self.ctr += 1
        if not o.endswith("\n"):
            raise Cut("output '%s' does not end with a line end" % o[-60:])
        lines = o[:-1].split("\n")
        rest, brk, deep = s, "\n", 0
        tag = {lv("Warning"): "Warning: ", lv("Error"): "ERROR  : ", lv("Panic"): "PANIC  : "}.get(l)
        for n, x in enumerate(lines, 1):
            x = self.prefix(x, n, tag)
            ind = len(rest) - len(rest.lstrip(" "))
            if brk == "\n":
                if not x.startswith(rest[:ind]) or x[ind:ind + 1] == " ":
                    raise Cut("indentation of line %d is not that of the message" % n)
                deep = ind
            elif len(x) - len(x.lstrip(" ")) <= deep:
                raise Cut("the continued line %d is not indented" % n)
            body, r = x.lstrip(" "), rest.lstrip(" ")
            if not r.startswith(body):
                raise Cut("line %d of the output is '%s...' where the message has '%s...'" % (n, body[:30], r[:30]))
            r = r[len(body):]
            if r[:1] == " " and len(body) > 130 and " " in body.rstrip(" ")[1:100]:
                raise Cut("line %d has %d characters although it could be broken" % (n, len(x)))
            if r:
                if not body and brk == " " and ind:
                    rest = r        # further spaces where the line was broken
                    continue
                if r[0] not in " \n":
                    raise Cut("line %d ends within a word, at '%s'" % (n, r[:20]))
                brk, r = r[0], r[1:]
                if brk == " " and len(x) < 40 and max(len(w) for w in re.split("[ \n]", s)) < 40:
                    raise Cut("line %d ends after %d characters although the message has no line end there" % (n, len(x)))
            else:
                brk = ""
            rest = r
        if rest:
            raise Cut("the end of the message is missing, from '%s'" % rest[:30])

    def prefix(self, x, n, tag):
        p = "== " if n == 1 else ".. "
        if self.inst is None:
            if self.mode == 0 or self.mode:
                p += "%-7s: " % (self.loc or "")
        elif self.mode == 1:
            p += "L%02d | " % self.mylid
        elif self.mode == 2:
            dt = self.time - self.t0
            p += "LAIK-%04d-L%02d %04d.%02d %2d:%06.3f | " % (self.phase, self.mylid, self.ctr, n, int(dt / 60), dt - 60 * int(dt / 60))
        if tag:
            p += tag if n == 1 else "       : "
        if not x.startswith(p):
            raise Cut("line %d begins with '%s' instead of '%s'" % (n, x[:len(p)], p))
        return x[len(p):]


# ---- texts ------------------------------------------------------------------------

def words(rnd, n, wl):
    out = ""
    while len(out) < n:
        w = "".join(rnd.choice("abcdefghij0123456789:,;[]%") for _ in range(rnd.randint(*wl)))
        out += w + rnd.choice([" ", " ", " ", "  ", "\n", "\n  ", " \n"]) if rnd.random() < .9 else w
    return out[:n]


TEXTS = {
    "one line": ["x", "Hello", "Hello world", "a line of some words, ended\n"],
    "line ends": ["a\nb", "a\n\nb", "\na", "a\nb\n", "first line\n  second\n   third line\n\n"],
    "spaces": [" a", "   a b", "a ", "a  ", " ", "   ", "a   b\n    c"],
    "long lines": ["word " * 60, "word  " * 60, " " * 30 + "word " * 60, "ab " * 33 + "c " + "d" * 98 + " e", "x" * 99 + " y", "x" * 100 + " y", "x" * 101 + " y", "x" * 102 + " y z"],
    "long words": ["x" * n + e for n in (120, 200, 240, 249, 250, 251, 300, 1000) for e in ("", " y")] + ["a " + "y" * 260 + " b"],
    "wide indentation": [" " * n + "abc def" for n in (90, 101, 130, 200, 260)],
    "percent signs": ["100% of 5%d", "%s%s%s"],
}


def f_texts(name, env, loc=None, inst=True, how="log"):
    def body(it):
        L = Log(it, env, loc)
        if inst:
            L.init()
        for k, s in enumerate(TEXTS[name]):
            L.time += 0.125 + 17 * k
            if how == "log":
                L.log(lv("Info") if k % 2 else lv("Warning"), s, k % 3)
            else:
                h = len(s) // 2
                L.pieces(lv("Info"), [s[:h], s[h:]], None, [0, 2, 1])
    return body


SIZES = (1, 100, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1500, 2046, 2047, 2048, 2049, 3000, 4095, 4096, 5000)


def f_grow(a, b, c=0):
    """pieces of the given lengths"""
    def body(it):
        L = Log(it, "n1")
        L.init()
        rnd = random.Random(a * 7 + b)
        mk = lambda n: "".join(rnd.choice("abcdefgh ") if k % 9 else " " for k in range(n - 1)) + "e" if n else ""
        for r in range(2):
            L.pieces(lv("Info"), [mk(a), mk(b)], mk(c) if c else None, [3, 3, 3])
        L.log(lv("Error"), "short", 0)
    return body


def f_random(seed, n):
    def body(it):
        rnd = random.Random(seed)
        env = rnd.choice(["n1", "s1", "1", "2", "n2", "s3", "4", "1:3", "1:0-2", "2:0-3", "s1:3-9", "1:4", "n1:10-12", "5", None])
        L = Log(it, env, rnd.choice([None, "node07:12", "n", "averylonghostname.cluster.example.org:123456"]), rnd.choice([0, 3, 3, 12]), "run.log" if rnd.random() < .25 else None)
        if rnd.random() < .3:
            if L.loc is None:
                it.call("laik_log_init_internal", [])
            L.log(lv("Warning"), words(rnd, 50, (1, 9)), 2)
        L.init()
        for _ in range(n):
            k = rnd.random()
            L.time += rnd.choice([0, 0.001, 0.5, 61.25, 3700])
            l = lv(rnd.choice(["Debug", "Info", "Warning", "Error"]))
            if k < .45:
                L.log(l, words(rnd, rnd.choice([5, 40, 150, 400, 1100]), rnd.choice([(1, 9), (1, 9), (1, 60), (90, 130)])), rnd.randrange(3))
            elif k < .75:
                ss = [words(rnd, rnd.choice([0, 3, 20, 200, 700]), (1, 12)) for _ in range(rnd.randint(0, 6))]
                L.pieces(l, ss, words(rnd, 30, (1, 9)) if rnd.random() < .5 else None, [rnd.randrange(3) for _ in range(8)])
            elif k < .85:
                L.inc()
            elif k < .92:
                L.level = rnd.randint(1, 5)
                L.call("laik_set_loglevel", L.level)
            else:
                for x in range(1, 6):
                    if bool(L.call("laik_log_shown", x) & 1) != (x >= L.level):
                        raise Cut("laik_log_shown is wrong for level %d with log level %d" % (x, L.level))
        if rnd.random() < .3:
            L.log(lv("Panic"), "the end", 0)
        else:
            L.call("laik_log_cleanup", L.inst)
            for s in it.files.values():
                if s.open:
                    raise Cut("the log file stays open")
    return body


def f_level(name):
    def body(it):
        for env, ok in (("2", 1), ("", 0), ("x", 0), ("n", 0), ("0", 0)):
            i = LInterp(it.choose)
            i.covered = it.covered
            try:
                Log(i, env if ok else None)
                if not ok:
                    i.env["LAIK_LOG"] = env
                i.call("laik_log_init_internal", [])
                ended = False
            except Exit:
                ended = True
            if ended == bool(ok):
                raise Cut("LAIK_LOG='%s' %s" % (env, "is refused" if ok else "is accepted"))
            if ended and not i.err.out:
                raise Cut("LAIK_LOG='%s' is refused without a message" % env)
    return body


def families(thorough):
    out = []

    def F(rule, name, body, anchor="laik_log_flush"):
        ANCHOR[rule] = anchor
        out.append((rule, name, body))
    for n in TEXTS:
        for env in ("n1", "s1", "1"):
            F("texts", "%s, LAIK_LOG=%s" % (n, env), f_texts(n, env), "laik_log")
        F("texts", n + ", before the instance", f_texts(n, "1", "host:5", False), "laik_log")
        F("pieces", n, f_texts(n, "1", how="pieces"))
    F("levels", "LAIK_LOG", f_level("LAIK_LOG"), "laik_log_init_internal")
    ps = [(a, b, 0) for a in SIZES for b in SIZES if thorough or (a * 31 + b) % 3 == 0] + [(a, b, c) for a in (0, 1000, 1023) for b in (1, 24, 2000) for c in (1, 1000, 6000)]
    for k in range(0, len(ps), 6):
        q = ps[k:k + 6]

        def body(it, q=q):
            for a, b, c in q:
                i = LInterp(it.choose)
                i.covered = it.covered
                f_grow(a, b, c)(i)
        F("growing messages", "lengths %s" % " ".join("%d+%d+%d" % x for x in q), body)
    for s in range(300 if thorough else 60):
        F("sequences", "sequence %d" % s, f_random(s, 14))
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, LInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
