"""Models of the GLib containers and locks used by the TCP backend: reference
counted byte strings, arrays, hash tables over byte strings, queues, mutexes."""
from functools import cmp_to_key
from . import model
from .absint import Abort, Cut, Obj, NULL, Undecided, is_ptr
from .model import P


def struct(v, what):
    if v == NULL or v == 0 or not is_ptr(v):
        raise Abort("%s of nothing" % what)
    o = v[1]
    if not isinstance(o, Obj) or o.freed:
        raise Abort("%s of something already freed" % what)
    return o


def content(o, base=0, size=None):
    """bytes of an object as a hashable value"""
    n = size if size is not None else o.size
    return (n,) + tuple(sorted((k - base, c[0], repr(c[1])) for k, c in o.cells.items() if base <= k < base + (n or 0)))


def need_int(*vs):
    for v in vs:
        if not isinstance(v, int):
            raise Undecided("size of a GLib object")


# ---- byte strings -------------------------------------------------------------

def live(it):
    """GLib objects of this process"""
    return it.__dict__.setdefault("glive", [])


def new_bytes(it, d, n):
    need_int(n)
    b, o = Obj("GBytes"), Obj("bytes", n, fresh=True)
    b.rc, b.data, b.n, b.kind = 1, o, n, "byte string"
    if n and d not in (NULL, 0):
        it.memcpy(P(o), d, n)
    live(it).append(b)
    return P(b)


def bytes_take(it, a):
    d, n = a
    need_int(n)
    b = Obj("GBytes")
    o = d[1] if d not in (NULL, 0) else Obj("bytes", 0)
    if o.size is not None and n > o.size:
        raise Abort("byte string longer than its memory")
    b.rc, b.data, b.n, b.kind = 1, o, n, "byte string"
    if o in live(it):
        live(it).remove(o)
    live(it).append(b)
    return P(b)


def bytes_data(it, a):
    b = struct(a[0], "use of a byte string")
    if len(a) > 1 and a[1] not in (NULL, 0):
        it.storem(a[1], 8, b.n)
    return P(b.data) if b.n else NULL


def bytes_size(it, a):
    return struct(a[0], "use of a byte string").n


def ref(it, a):
    struct(a[0], "reference").rc += 1
    return a[0]


def unref(it, a):
    if a[0] in (NULL, 0):
        return None
    o = struct(a[0], "release")
    o.rc -= 1
    if o.rc == 0:
        o.freed = True
        if hasattr(o, "data") and o.kind == "byte string":
            o.data.freed = True
        if o.kind == "hash table":
            for k, v in list(o.tab.values()):
                destroy(it, o.kd, k)
                destroy(it, o.vd, v)
        if o.kind in ("array", "pointer array"):
            if o.kind == "pointer array":
                for k in range(o.len):
                    destroy(it, o.fd, o.buf.cells[8 * k][1])
            o.buf.freed = True
    return None


def destroy(it, f, v):
    if f in (NULL, 0) or f is None:
        return
    if is_ptr(f) and isinstance(f[1], tuple):
        it.call(f[1][1], [v])
        return
    raise Undecided("destroy function %r" % (f,))


# ---- hash tables: keyed by the content of byte strings ---------------------------

def tab_new(it, a):
    o = Obj("GHashTable")
    o.rc, o.kind, o.tab, o.kd, o.vd = 1, "hash table", {}, a[2] if len(a) > 2 else NULL, a[3] if len(a) > 3 else NULL
    live(it).append(o)
    return P(o)


def key(it, v):
    b = struct(v, "use of a key")
    if getattr(b, "kind", "") != "byte string":
        raise Undecided("key of a hash table")
    return content(b.data, 0, b.n)


def tab_insert(it, a):
    t = struct(a[0], "use of a table")
    k = key(it, a[1])
    if k in t.tab:
        ok, ov = t.tab[k]
        destroy(it, t.kd, a[1])
        t.tab[k] = (ok, a[2])
        destroy(it, t.vd, ov)
        return 0
    t.tab[k] = (a[1], a[2])
    return 1


def tab_lookup(it, a):
    t = struct(a[0], "use of a table")
    e = t.tab.get(key(it, a[1]))
    return (NULL if e[1] == 0 else e[1]) if e else NULL


def tab_lookup_ext(it, a):
    t = struct(a[0], "use of a table")
    e = t.tab.get(key(it, a[1]))
    if e is None:
        return 0
    for p, v in zip(a[2:4], e):
        if p not in (NULL, 0):
            it.storem(p, 8, NULL if v == 0 else v)
    return 1


def tab_contains(it, a):
    return int(key(it, a[1]) in struct(a[0], "use of a table").tab)


def tab_remove(it, a):
    t = struct(a[0], "use of a table")
    e = t.tab.pop(key(it, a[1]), None)
    if e:
        destroy(it, t.kd, e[0])
        destroy(it, t.vd, e[1])
    return int(e is not None)


# ---- arrays -----------------------------------------------------------------------

def arr_new(it, es, kind="array", fd=NULL):
    o = Obj("GArray", 16)
    o.rc, o.kind, o.es, o.buf, o.len, o.fd = 1, kind, es, Obj("array data", None, fresh=True), 0, fd
    o.cells[0] = (8, P(o.buf))
    o.cells[8] = (4, 0)
    live(it).append(o)
    return P(o)


def arr_len(o, n):
    o.len = n
    o.buf.size = n * o.es
    o.cells[8] = (4, n)


def arr_append(it, a):
    o = struct(a[0], "use of an array")
    need_int(a[2])
    n = o.len
    arr_len(o, n + a[2])
    it.memcpy(("p", o.buf, n * o.es), a[1], a[2] * o.es)
    return a[0]


def arr_remove(it, a):
    o = struct(a[0], "use of an array")
    need_int(a[1])
    if not 0 <= a[1] < o.len:
        raise Abort("element %d of an array of %d removed" % (a[1], o.len))
    if o.kind == "pointer array":
        r = o.buf.cells[8 * a[1]][1]
    x = Obj("x", None)
    x.cells = {}
    for k, c in o.buf.cells.items():
        if k >= (a[1] + 1) * o.es:
            x.cells[k - o.es] = c
        elif k < a[1] * o.es:
            x.cells[k] = c
    o.buf.cells = x.cells
    arr_len(o, o.len - 1)
    if o.kind == "pointer array":
        destroy(it, o.fd, r)
        return r
    return a[0]


def ptrarr_add(it, a):
    o = struct(a[0], "use of an array")
    n = o.len
    arr_len(o, n + 1)
    o.buf.cells[8 * n] = (8, a[1])
    return None


def arr_sort(it, a):
    o = struct(a[0], "use of an array")
    model.h_qsort(it, [P(o.buf), o.len, o.es, a[1]])


# ---- locks --------------------------------------------------------------------------

def mkey(v):
    return (id(v[1]) if isinstance(v[1], Obj) else v[1], v[2])


def lock(it, a):
    h = it.__dict__.setdefault("held", {})
    k = mkey(a[0])
    if k in h:
        raise Cut("a lock is taken while it is held")
    h[k] = it.cur.loc() if getattr(it, "cur", None) else "?"


def unlock(it, a):
    h = it.__dict__.setdefault("held", {})
    if h.pop(mkey(a[0]), None) is None:
        raise Cut("a lock is released that is not held")


# ---- queue of errors -------------------------------------------------------------------

def q_new(it, a):
    o = Obj("GQueue")
    o.q, o.rc, o.kind = [], 1, "queue"
    live(it).append(o)
    return P(o)


def q_free(it, a):
    o = struct(a[0], "release")
    o.freed = True


def err_push(it, a):
    o = struct(a[0], "use of an error stack")
    e = Obj("GError")
    e.rc, e.kind = 1, "error"
    live(it).append(e)
    o.q.insert(0, P(e))


def q_nth(it, a):
    q = struct(a[0], "use of an error stack").q
    return q[a[1]] if 0 <= a[1] < len(q) else NULL


def h_malloc(it, a):
    n = a[0] * a[1] if len(a) > 1 else a[0]
    need_int(n)
    o = Obj("heap", n, fresh=True)
    o.kind, o.rc = "memory", 1
    if n:
        live(it).append(o)
    return P(o) if n else NULL


def h_malloc0(it, a):
    n = a[0] * a[1] if len(a) > 1 else a[0]
    need_int(n)
    o = Obj("heap", n, lazy=lambda i, ob, f, s: 0)
    o.kind, o.rc = "memory", 1
    if n:
        live(it).append(o)
    return P(o) if n else NULL


def h_free(it, a):
    if a[0] in (NULL, 0):
        return None
    o = struct(a[0], "release")
    if a[0][2] != 0 or o.name.startswith("alloca") or getattr(o, "kind", "memory") != "memory":
        raise Abort("release of something not allocated this way")
    o.freed = True


def h_memdup(it, a):
    p = h_malloc(it, [a[1]])
    if p != NULL:
        it.memcpy(p, a[0], a[1])
    return p


def leaks(it, keep=()):
    """objects of this process neither freed nor kept"""
    return [o for o in live(it) if not o.freed and o not in keep]


HANDLERS = {
    "g_bytes_new": lambda it, a: new_bytes(it, a[0], a[1]), "g_bytes_new_take": bytes_take, "g_bytes_get_data": bytes_data, "g_bytes_get_size": bytes_size,
    "g_bytes_ref": ref, "g_bytes_unref": unref, "g_bytes_hash": lambda it, a: 0,
    "g_hash_table_new_full": tab_new, "g_hash_table_insert": tab_insert, "g_hash_table_lookup": tab_lookup, "g_hash_table_lookup_extended": tab_lookup_ext,
    "g_hash_table_contains": tab_contains, "g_hash_table_remove": tab_remove, "g_hash_table_unref": unref, "g_hash_table_ref": ref,
    "g_array_new": lambda it, a: arr_new(it, a[2]), "g_array_sized_new": lambda it, a: arr_new(it, a[2]), "g_array_append_vals": arr_append,
    "g_array_sort": arr_sort, "g_array_ref": ref, "g_array_unref": unref, "g_array_remove_index": arr_remove,
    "g_ptr_array_new": lambda it, a: arr_new(it, 8, "pointer array"), "g_ptr_array_new_with_free_func": lambda it, a: arr_new(it, 8, "pointer array", a[0]),
    "g_ptr_array_add": ptrarr_add, "g_ptr_array_remove_index": arr_remove, "g_ptr_array_unref": unref,
    "g_malloc": h_malloc, "g_malloc_n": h_malloc, "g_malloc0": h_malloc0, "g_malloc0_n": h_malloc0, "g_free": h_free, "g_memdup2": h_memdup, "g_memdup": h_memdup,
    "g_mutex_lock": lock, "g_mutex_unlock": unlock, "g_mutex_init": lambda it, a: None, "g_mutex_clear": lambda it, a: None,
    "g_cond_init": lambda it, a: None, "g_cond_clear": lambda it, a: None, "g_cond_broadcast": lambda it, a: None, "g_cond_signal": lambda it, a: None,
    "g_queue_new": q_new, "g_queue_free": q_free, "g_queue_is_empty": lambda it, a: int(not struct(a[0], "use of an error stack").q),
    "g_queue_get_length": lambda it, a: len(struct(a[0], "use of an error stack").q), "g_queue_peek_nth": q_nth, "g_queue_peek_head": lambda it, a: q_nth(it, [a[0], 0]),
    "g_queue_pop_head": lambda it, a: (lambda q: q.pop(0) if q else NULL)(struct(a[0], "use of an error stack").q),
    "g_queue_push_head": lambda it, a: struct(a[0], "use of an error stack").q.insert(0, a[1]),
    "g_error_free": unref, "g_error_copy": ref, "laik_tcp_errors_push": err_push, "g_quark_from_string": lambda it, a: 7,
    "laik_tcp_errors_show": lambda it, a: P(Obj("error text")),
    "laik_tcp_stats_change_real": lambda it, a: None, "laik_tcp_stats_store_real": lambda it, a: None, "laik_tcp_stats_remove_real": lambda it, a: None,
    "laik_tcp_debug_real": lambda it, a: None,
}
