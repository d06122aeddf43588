"""C21: the settings of the TCP backend are those of its configuration file.

config.c and errors.c are interpreted on the source's IR over models of GLib's key
files (any subset of settings, valid or not), of files which cannot be loaded or
parsed at first, later or ever, of the launchers' environment, of the thread that
reloads the file, and of time.  Oracle: a reference table from names to fields,
derived from the structure of the settings (every field has the name of its key),
with the values of the file, and defaults elsewhere; objects of GLib must all be
released exactly once, the settings in use by callers stay unchanged."""
import random
from .. import glib, model
from ..absint import Abort, Cut, Obj, NULL, UNDEF, UNINIT, is_ptr
from ..build import AnalysisError
from ..clib import CInterp, fl, va
from ..model import P, fo, setf
from ..netsim import vformat

M = None
THOROUGH = False
T = "Laik_Tcp_Config"


class GInterp(CInterp):
    def __init__(self, choose):
        super().__init__(choose)
        for k, v in glib.HANDLERS.items():
            if not k.startswith("laik_tcp_errors_"):
                self.handlers[k] = v
        self.handlers.update(GH)
        self.now = 50.0
        self.slept = 0.0
        self.file = None            # (settings, addresses), or an error: 'load', 'parse'
        self.loads = 0
        self.threads = []


def error(it, p, msg="bad"):
    e = Obj("GError")
    e.rc, e.kind, e.size = 1, "error", 16
    e.cells[0] = (4, 1)
    e.cells[4] = (4, 1)
    e.cells[8] = (8, it.new_text(msg))
    glib.live(it).append(e)
    if p in (NULL, 0):
        e.freed = True
        return
    old = it.loadm(p, 8, "ptr")
    if old not in (NULL, 0):
        raise Cut("an error is reported on top of another one, at " + it.cur.loc())
    it.storem(p, 8, P(e))


def gobj(it, kind):
    o = Obj(kind)
    o.rc, o.kind = 1, kind
    glib.live(it).append(o)
    return o


def h_file(it, a):
    o = gobj(it, "file")
    o.name = it.str(a[0])
    return P(o)


def gtext(it, s):
    p = glib.h_malloc(it, [len(s) + 1])
    it.put(p, [ord(c) for c in s] + [0])
    return p


def h_load(it, a):
    f = glib.struct(a[0], "use of a file")
    if f.name != it.env.get("LAIK_TCP_CONFIG"):
        raise Cut("the file '%s' is loaded" % f.name)
    c = it.file() if callable(it.file) else it.file
    it.loads += 1
    if c == "load":
        error(it, a[5])
        return 0
    p = gtext(it, "content")
    p[1].parsed = c
    it.storem(a[2], 8, p)
    it.storem(a[3], 8, 7)
    return 1


def h_parse(it, a):
    k = glib.struct(a[0], "use of a key file")
    c = glib.struct(a[1], "use of a text").parsed
    if a[2] != 7:
        raise Cut("%r characters of a file of 7 are parsed" % (a[2],))
    if c == "parse":
        error(it, a[4])
        return 0
    k.content = c
    return 1


def entry(it, a):
    k = glib.struct(a[0], "use of a key file")
    g, n = it.str(a[1]), it.str(a[2])
    if g == "general":
        return k.content[0].get(n)
    if g == "addresses":
        return dict(k.content[1]).get(n)
    return None


def h_has(it, a):
    return int(entry(it, a) is not None)


def getter(conv, zero):
    def f(it, a):
        v = entry(it, a)
        r = conv(v) if v is not None else None
        if r is None:
            error(it, a[3])
            return zero
        return r
    return f


def as_int(v):
    try:
        return int(v)
    except ValueError:
        return None


def as_double(v):
    try:
        return ("fl", float(v))
    except ValueError:
        return None


def h_string(it, a):
    v = entry(it, a)
    if v is None or v == "!bad":
        error(it, a[3])
        return NULL
    return gtext(it, v)


def h_keys(it, a):
    k = glib.struct(a[0], "use of a key file")
    ks = [n for n, _ in k.content[1]] if it.str(a[1]) == "addresses" else list(k.content[0]) if it.str(a[1]) == "general" else None
    if ks is None or (not ks and k.content[2:]):
        return NULL
    p = glib.h_malloc(it, [8 * len(ks) + 8])
    p[1].strv = True
    for i, n in enumerate(ks):
        it.storem(("p", p[1], 8 * i), 8, gtext(it, n))
    it.storem(("p", p[1], 8 * len(ks)), 8, NULL)
    return p


def h_strfreev(it, a):
    if a[0] in (NULL, 0):
        return
    o = glib.struct(a[0], "release")
    i = 0
    while True:
        v = it.loadm(("p", o, 8 * i), 8, "ptr")
        if v in (NULL, 0):
            break
        glib.h_free(it, [v])
        i += 1
    glib.h_free(it, a)


def h_strdup_printf(it, a):
    return gtext(it, "".join(chr(c) for c in vformat(it, a[0], a[1:])))


def h_thread(it, a):
    o = Obj("thread")
    o.f, o.user, o.done, o.joined = a[1], a[2], False, False
    it.threads.append(o)
    return P(o)


def run_thread(it, o):
    held, it.held = it.__dict__.get("held", {}), {}
    if held:
        raise Cut("self-test: thread scheduled within a lock")
    it.call(o.f[1][1], [o.user])
    if it.held:
        raise Cut("a lock is still held at the end of a thread")
    it.held = held
    o.done = True


def h_join(it, a):
    o = glib.struct(a[0], "join")
    if o.joined:
        raise Cut("a thread is joined twice")
    if not o.done:
        raise Cut("a process waits for the thread that needs a lock it holds" if it.__dict__.get("held") else "the thread is joined before its end")
    o.joined = True
    return NULL


class Ended(Exception):
    pass


def h_abort(it, a):
    raise Abort("the process ends, by abort")


def h_verror(it, a):
    vformat(it, a[2], va(it, a[3]))
    o = gobj(it, "error")
    return P(o)


def h_usleep(it, a):
    if isinstance(a[0], int):
        it.slept += a[0] / 1e6
        it.now += a[0] / 1e6
    return None


def h_foreach(it, a):
    for e in list(glib.struct(a[0], "use of an error stack").q):
        it.call(a[1][1][1], [e, a[2]])


GH = {
    "g_file_new_for_commandline_arg": h_file, "g_object_unref": glib.unref, "g_file_load_contents": h_load, "g_key_file_new": lambda it, a: P(gobj(it, "key file")),
    "g_key_file_unref": glib.unref, "g_key_file_free": glib.unref, "g_key_file_load_from_data": h_parse, "g_key_file_has_key": h_has,
    "g_key_file_get_boolean": getter(lambda v: {"true": 1, "false": 0}.get(v), 0), "g_key_file_get_int64": getter(as_int, 0), "g_key_file_get_double": getter(as_double, ("fl", 0.0)),
    "g_key_file_get_string": h_string, "g_key_file_get_keys": h_keys, "g_strfreev": h_strfreev, "g_strdup_printf": h_strdup_printf,
    "g_thread_new": h_thread, "g_thread_join": h_join, "abort": h_abort, "g_error_new_valist": h_verror, "g_usleep": h_usleep,
    "g_get_monotonic_time": lambda it, a: int(it.now * 1e6), "getppid": lambda it, a: 4711, "getpid": lambda it, a: 4712,
    "atol": lambda it, a: int(__import__("re").match(r"\s*([-+]?\d+)|", it.str(a[0])).group(1) or 0), "g_queue_foreach": h_foreach,
    "g_error_matches": lambda it, a: 0, "g_string_new": lambda it, a: P(gobj(it, "string")), "g_string_append_printf": lambda it, a: None,
    "g_string_free": lambda it, a: (setattr(glib.struct(a[0], "release"), "freed", True), gtext(it, "text"))[1], "g_string_free_and_steal": lambda it, a: (setattr(glib.struct(a[0], "release"), "freed", True), gtext(it, "text"))[1], "g_quark_to_string": lambda it, a: it.new_text("domain"),
}


# ---- reference ----------------------------------------------------------------------

def fields():
    d = M.di.get(T)
    if d is None:
        raise AnalysisError("no type " + T)
    return [(m[0], m[1] // 8, m[2] // 8) for m in d["m"] if m[0] not in ("addresses", "references")]


def kind(f, size):
    """bool, size or time, by the declared type"""
    if size == 1:
        return "bool"
    return "time" if f.endswith(("_timeout", "_delay")) else "size"


VALUES = {"bool": [("true", 1), ("false", 0)], "size": [("0", 0), ("1", 1), ("17", 17), ("4294967296", 1 << 32), ("-1", -1), ("-5", -1), ("9223372036854775807", (1 << 63) - 1)],
          "time": [("0", 0.0), ("0.25", 0.25), ("3", 3.0), ("86400.5", 86400.5)]}
BAD = {"bool": ["yes please", "2"], "size": ["many", "1.5x"], "time": ["soon", "-1", "-0.5"]}


def snapshot(it, c):
    """settings of a configuration object"""
    o = glib.struct(c, "use of the settings")
    out = {}
    for f, off, size in fields():
        v = it.loadm(("p", o, off), size, "i8" if size == 1 else "i64")
        x = fl(v) if kind(f, size) == "time" else v
        if x is None or x == UNINIT:
            raise Cut("the setting %s was never written" % f)
        out[f] = x & 1 if size == 1 else x
    a = glib.struct(it.loadm(("p", o, fo(T, "addresses")[0]), 8, "ptr"), "use of the addresses")
    out["addresses"] = [it.str(a.buf.cells[8 * k][1]) for k in range(a.len)]
    return out


def get(it):
    c = it.call("laik_tcp_config", [])
    if it.__dict__.get("held"):
        raise Cut("a lock is still held")
    return c


def differ(a, b):
    for k in a:
        if a[k] != b[k]:
            return "the setting %s is %r instead of %r" % (k, a[k], b[k])


def defaults(it0, env):
    it = GInterp(it0.choose)
    it.covered = it0.covered
    it.env = {k: v for k, v in env.items() if k != "LAIK_TCP_CONFIG"}
    return snapshot(it, get(it))


def clean(it, keep):
    """nothing left but what the settings in <keep> need"""
    need = []
    for c in keep:
        o = glib.struct(c, "use of the settings")
        a = glib.struct(it.loadm(("p", o, fo(T, "addresses")[0]), 8, "ptr"), "use of the addresses")
        need += [o, a, a.buf] + [a.buf.cells[8 * k][1][1] for k in range(a.len)]
    for o in glib.live(it):
        if not o.freed and o not in need:
            raise Cut("%s not released" % getattr(o, "kind", o.name))


ENV = {"LAIK_TCP_CONFIG": "the.conf"}


def expected(dflt, settings, addr):
    e = dict(dflt)
    for f, off, size in fields():
        if f in settings:
            e[f] = settings[f][1]
    if addr:
        e["addresses"] = [a for _, a in addr]
    return e


def f_settings(seed):
    def body(it):
        r = random.Random(seed)
        d = defaults(it, ENV)
        names = [f for f, _, _ in fields()]
        use = {f: r.choice(VALUES[kind(f, s)]) for f, _, s in fields() if r.random() < (0.15, 0.6, 1.1)[seed % 3]}
        addr = [("host%d" % k, "node%d:4%d" % (k, k)) for k in range(r.choice([0, 0, 1, 3]))]
        it.env = dict(ENV)
        it.file = ({k: v[0] for k, v in use.items()}, addr) if addr or r.random() < .5 else ({k: v[0] for k, v in use.items()}, addr, "no group")
        c = get(it)
        e = differ(snapshot(it, c), expected(d, use, addr))
        if e:
            raise Cut("%s (settings of the file: %s)" % (e, ", ".join("%s=%s" % (k, v[0]) for k, v in use.items())))
        it.call("laik_tcp_config_unref", [c])
        clean(it, [c])
        if not names:
            raise AnalysisError("no settings")
    return body


def f_each(it):
    """one setting at a time, all values"""
    d = defaults(it, ENV)
    for f, off, size in fields():
        for v in VALUES[kind(f, size)]:
            i = GInterp(it.choose)
            i.covered = it.covered
            i.env = dict(ENV)
            i.file = ({f: v[0], "unknown": "1"}, [])
            e = differ(snapshot(i, get(i)), expected(d, {f: v}, []))
            if e:
                raise Cut("%s with %s=%s" % (e, f, v[0]))


def f_bad(it):
    """an invalid setting: the file is not used at all; once repaired it is"""
    d = defaults(it, ENV)
    fs = fields()
    for f, off, size in fs + [("addresses", 0, 0)]:
        for v in BAD[kind(f, size)] if size else ["!bad"]:
            good = [g for g in fs if g[0] != f][:: 3]
            st = {g[0]: VALUES[kind(g[0], g[2])][-1] for g in good}
            addr = [("a", "x:1")]
            ok = ({g: x[0] for g, x in st.items()}, addr)
            bad = (dict(ok[0], **{f: v}), addr) if size else (ok[0], addr + [("b", "!bad")])
            # at start: tried again until the file is valid
            i = GInterp(it.choose)
            i.covered = it.covered
            i.env = dict(ENV)
            n = [0]

            def content():
                n[0] += 1
                return bad if n[0] < 4 else ok
            i.file = content
            c = get(i)
            e = differ(snapshot(i, c), expected(d, st, addr))
            if e:
                raise Cut("%s after a file with %s=%s was repaired" % (e, f, v))
            if i.slept > 5:
                raise Cut("%g seconds slept for 3 attempts" % i.slept)
            clean(i, [c])
            # later: the previous settings are kept
            i.file = bad
            before = snapshot(i, c)
            for _ in range(3):
                i.now += 2
                c2 = get(i)
                for t in i.threads:
                    if not t.done:
                        run_thread(i, t)
                e = differ(snapshot(i, c2), before)
                if e:
                    raise Cut("%s after an invalid file (%s=%s)" % (e, f, v))
                i.call("laik_tcp_config_unref", [c2])
            clean(i, [c])


def f_fail(what):
    def body(it):
        d = defaults(it, ENV)
        for n in (1, 3, 1000):
            i = GInterp(it.choose)
            i.covered = it.covered
            i.env = dict(ENV)
            k = [0]

            def content():
                k[0] += 1
                return what if k[0] <= n else ({"send_attempts": "3"}, [])
            i.file = content
            try:
                c = get(i)
            except Abort as e:
                if n < 1000 or "by abort" not in str(e):
                    raise
                if not 3 < i.loads < 100:
                    raise Cut("%d attempts to read the file" % i.loads)
                continue
            if n == 1000:
                raise Cut("settings without a file that can be read")
            e = differ(snapshot(i, c), expected(d, {"send_attempts": ("3", 3)}, []))
            if e:
                raise Cut(e)
            clean(i, [c])
    return body


def f_updates(seed):
    def body(it):
        r = random.Random(seed)
        d = defaults(it, ENV)
        it.env = dict(ENV)

        def draw():
            k = r.random()
            if k < .15:
                return r.choice(["load", "parse"]), None
            st = {f: r.choice(VALUES[kind(f, s)]) for f, _, s in fields() if r.random() < .3}
            addr = [("h%d" % x, "n%d" % r.randrange(99)) for x in range(r.choice([0, 1, 2]))]
            c = {f: v[0] for f, v in st.items()}
            if k < .3:
                f, _, s = r.choice(fields())
                c[f] = r.choice(BAD[kind(f, s)])
                return (c, addr), None
            return (c, addr), expected(d, st, addr)
        it.file, cur = draw()
        while cur is None:
            it.file, cur = draw()
        held = []
        pending = None
        for k in range(14):
            it.now += r.choice([0.0, 0.3, 1.5, 4])
            c = get(it)
            s = snapshot(it, c)
            e = differ(s, cur)
            if e:
                raise Cut("call %d: %s" % (k, e))
            held.append((c, s))
            running = [t for t in it.threads if not t.done]
            if len(running) > 1:
                raise Cut("%d threads read the file at the same time" % len(running))
            if len([t for t in it.threads if t.done and not t.joined]) > 1:
                raise Cut("a thread is never joined")
            if running and r.random() < .7:
                it.file, e = draw()
                run_thread(it, running[0])
                if e is not None:
                    cur = e
            for c, s in held:
                e = differ(snapshot(it, c), s)
                if e:
                    raise Cut("settings change while they are in use: " + e)
            while held and r.random() < .5:
                it.call("laik_tcp_config_unref", [held.pop(r.randrange(len(held)))[0]])
        t = [t for t in it.threads if not t.done]
        if not t:
            it.now += 4
            c = get(it)
            held.append((c, None))
            if not [t for t in it.threads if not t.done]:
                raise Cut("the file is not read again")
        c = get(it)
        for x in held + [(c, 0)]:
            it.call("laik_tcp_config_unref", [x[0]])
        clean(it, [c])
    return body


def f_launch(it):
    for env, n in (({}, 1), ({"OMPI_COMM_WORLD_SIZE": "1"}, 1), ({"OMPI_COMM_WORLD_SIZE": "4"}, 4), ({"PMI_SIZE": "3"}, 3), ({"PMI_SIZE": "12", "OMPI_COMM_WORLD_SIZE": "0"}, 12),
                   ({"OMPI_COMM_WORLD_SIZE": "x"}, 1), ({"PMI_SIZE": "-1"}, 1)):
        a = []
        for again in range(2):
            i = GInterp(it.choose)
            i.covered = it.covered
            i.env = dict(env)
            if again and n > 1:
                i.handlers["getpid"] = lambda i_, x: 999     # another process of the same program
            c = get(i)
            a.append(snapshot(i, c)["addresses"])
            clean(i, [c])
        if len(a[0]) != n or len(set(a[0])) != n:
            raise Cut("addresses %r for %d processes (%r)" % (a[0], n, env))
        if a[0] != a[1]:
            raise Cut("processes of the same program use addresses %r and %r" % (a[0], a[1]))
        # another program on the same machine
        i = GInterp(it.choose)
        i.env = dict(env)
        i.handlers["getpid"] = i.handlers["getppid"] = lambda i_, x: 998
        if set(snapshot(i, get(i))["addresses"]) & set(a[0]):
            raise Cut("two programs use the same addresses")


ANCHOR = {}


def families(thorough):
    out = []

    def F(rule, name, body, anchor):
        ANCHOR[rule] = anchor
        out.append((rule, name, body))
    F("settings", "each one", f_each, "laik_tcp_config_new_custom")
    for s in range(60 if thorough else 15):
        F("settings", "file %d" % s, f_settings(s), "laik_tcp_config_new_custom")
    F("invalid files", "invalid settings", f_bad, "laik_tcp_config")
    for w in ("load", "parse"):
        F("invalid files", "cannot be %sed" % w.rstrip("e"), f_fail(w), "laik_tcp_config")
    for s in range(200 if thorough else 40):
        F("updates", "sequence %d" % s, f_updates(s), "laik_tcp_config")
    F("addresses", "launchers", f_launch, "laik_tcp_config_new_default")
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    return model.run_family(i, f, GInterp)


def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    model.run_rules(c, M, families(THOROUGH), ANCHOR, run_one, 1)
    return __doc__
