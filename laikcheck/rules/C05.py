"""Range lists hold exactly the index sets given by a partitioner.

The construction (append, freeze with and without merging, single-index form),
the queries (per process, per mapping, full coverage, all/single/equal) and the
renumbering of a range list are interpreted over the order domain: borders and
indexes are opaque symbols, every relative order is one partition (refined on
demand, with successor relations for single indexes), for the enumerated
patterns of processes and tags.  In each partition the list after freezing is
compared with the given ranges: same index set per process and tag, offsets and
mapping numbers consistent, queries return exactly the stored ranges; coverage
is reported iff every elementary cell of the space is covered."""
import itertools
from concurrent.futures import ProcessPoolExecutor
from .. import model
from ..absint import Abort, Undecided, explore, sym, is_ptr, NULL, Cut, Obj
from ..build import AnalysisError
from ..model import P, V, Setup, TInterp, chain, fo, ordering, ranks, rd, ssize
from ..norm import Poly

M = None
THOROUGH = False


def call(it, name, *a):
    return it.call(M.fn(name).name, list(a))


def new_list(it, S, ntask):
    return call(it, "laik_rangelist_new", P(S.space), ntask)


def mkrange(S, lo, hi):
    r = Obj("range")
    S.rng_at(r, 0, (lo, hi))
    return P(r)


def entries(it, L, dims):
    o, off = it.deref(L)
    n = rd(o, off + fo("_Laik_RangeList", "count")[0])
    tr = rd(o, off + fo("_Laik_RangeList", "trange")[0])
    esz = ssize("_Laik_TaskRange_Gen")
    rb = fo("_Laik_TaskRange_Gen", "range")[0]
    out = []
    for i in range(n):
        b = tr[2] + i * esz
        g = lambda f: rd(tr[1], b + fo("_Laik_TaskRange_Gen", f)[0])
        lo = tuple(rd(tr[1], b + rb + fo("_Laik_Range", "from")[0] + 8 * d) for d in range(dims))
        hi = tuple(rd(tr[1], b + rb + fo("_Laik_Range", "to")[0] + 8 * d) for d in range(dims))
        sp = rd(tr[1], b + rb + fo("_Laik_Range", "space")[0])
        if not is_ptr(sp) or sp[1] is None:
            raise Cut("range %d has no space" % i)
        out.append((g("task"), lo, hi, g("tag"), g("mapNo")))
    return out


def offsets(it, L, n):
    o, off = it.deref(L)
    p = rd(o, off + fo("_Laik_RangeList", "off")[0])
    return [rd(p[1], p[2] + 4 * i) for i in range(n + 1)]


class Cells:
    def __init__(self, it, boxes, dims):
        self.it, self.dims = it, dims
        self.pos = []
        for d in range(dims):
            seen = []
            for lo, hi in boxes:
                for x in (lo[d], hi[d]):
                    if x not in seen:
                        seen.append(x)
            self.pos.append(ranks(it, seen))

    def idx(self, d, v):
        for i, cl in enumerate(self.pos[d]):
            if any(v == x for x in cl):
                return i
        if isinstance(v, (Poly, int)):
            for i, cl in enumerate(self.pos[d]):
                if self.it.cmpv(v, cl[0]) == 0:
                    return i
        raise Cut("border %r is none of the given borders" % (v,))

    def of(self, lo, hi):
        out = [()]
        for d in range(self.dims):
            out = [x + (i,) for x in out for i in range(self.idx(d, lo[d]), self.idx(d, hi[d]))]
        return out


def structure(it, L, dims, ntask, one_map=False):
    """offsets, grouping, mapping numbers; returns the entries"""
    E = entries(it, L, dims)
    off = offsets(it, L, ntask)
    if off[0] != 0 or off[-1] != len(E) or any(a > b for a, b in zip(off, off[1:])):
        raise Cut("offsets %s do not partition %d ranges" % (off, len(E)))
    for t in range(ntask):
        for e in E[off[t]:off[t + 1]]:
            if e[0] != t:
                raise Cut("range of process %s stored for process %d" % (e[0], t))
        nos = [e[4] for e in E[off[t]:off[t + 1]]]
        if nos != sorted(nos) or sorted(set(nos)) != list(range(len(set(nos)))):
            raise Cut("mapping numbers of process %d are %s" % (t, nos))
        for a, b in itertools.combinations(E[off[t]:off[t + 1]], 2):
            same = one_map or (a[3] == b[3] and a[3] != 0)
            if same != (a[4] == b[4]):
                raise Cut("ranges with tags %s/%s of a process are in mappings %s/%s" % (a[3], b[3], a[4], b[4]))
        if call(it, "laik_rangelist_tidrangecount", L, t) != len(nos):
            raise Cut("wrong range count for process %d" % t)
        if call(it, "laik_rangelist_tidmapcount", L, t) != len(set(nos)):
            raise Cut("wrong mapping count for process %d" % t)
        for n in range(-1, len(nos) + 1):
            r = call(it, "laik_rangelist_tidrange", L, t, n)
            tr_check(it, r, L, off[t] + n if 0 <= n < len(nos) else None, "range %d of process %d" % (n, t))
    return E, off


def tr_check(it, r, L, want, what):
    if not is_ptr(r) or r[1] is None:
        if want is not None:
            raise Cut(what + " is not found")
        return
    if want is None:
        raise Cut(what + " does not exist but is returned")
    o, b = it.deref(r)
    l, no = rd(o, b + fo("_Laik_TaskRange", "list")[0]), rd(o, b + fo("_Laik_TaskRange", "no")[0])
    if l != L or no != want:
        raise Cut("%s: entry %s returned instead of %s" % (what, no, want))


def by_map(it, L, E, off, tid):
    k = len({e[4] for e in E[off[tid]:off[tid + 1]]})
    for m in range(k):
        want = [i for i in range(off[tid], off[tid + 1]) if E[i][4] == m]
        if call(it, "laik_rangelist_tidmaprangecount", L, tid, m) != len(want):
            raise Cut("wrong number of ranges in mapping %d of process %d" % (m, tid))
        for n in range(-1, len(want) + 1):
            r = call(it, "laik_rangelist_tidmaprange", L, tid, m, n)
            tr_check(it, r, L, want[n] if 0 <= n < len(want) else None, "range %d in mapping %d of process %d" % (n, m, tid))
    for m in (-1, k):
        r = call(it, "laik_rangelist_tidmaprange", L, tid, m, 0)
        tr_check(it, r, L, None, "range in mapping %d of process %d with %d mappings" % (m, tid, k))


def f_freeze(dims, tasks, tags, merge):
    def body(it):
        n = len(tasks)
        S = Setup(it, dims, 3, (V(*["s"] * dims), V(*["e"] * dims)))
        given = []
        for i in range(n):
            lo = V(*["a%d%d" % (i, d) for d in range(dims)])
            hi = V(*["b%d%d" % (i, d) for d in range(dims)])
            for d in range(dims):
                chain(it, "s", "a%d%d" % (i, d), "b%d%d" % (i, d), "e")
            given.append((tasks[i], lo, hi, tags[i]))
        L = new_list(it, S, 3)
        for t, lo, hi, tag in given:
            call(it, "laik_rangelist_append", L, t, mkrange(S, lo, hi), tag, NULL)
        call(it, "laik_rangelist_freeze", L, int(merge))
        E, off = structure(it, L, dims, 3)
        by_map(it, L, E, off, tasks[0] if n else 0)
        if not merge:
            left = list(given)
            for e in E:
                for g in left:
                    if g[0] == e[0] and g[3] == e[3] and g[1] == e[1] and g[2] == e[2]:
                        left.remove(g)
                        break
                else:
                    raise Cut("frozen list holds a range that was not given")
            if left:
                raise Cut("a given range is missing after freezing")
        else:
            C = Cells(it, [(g[1], g[2]) for g in given], dims)
            sets = [{}, {}]
            for k, src in ((0, given), (1, E)):
                for e in src:
                    for c in C.of(e[1], e[2]):
                        d = sets[k].setdefault((e[0], e[3]), {})
                        d[c] = d.get(c, 0) + 1
            if {k: set(v) for k, v in sets[0].items()} != {k: set(v) for k, v in sets[1].items()}:
                raise Cut("merging changes the index set of a process and tag")
            if any(x > 1 for v in sets[1].values() for x in v.values()):
                raise Cut("merged ranges overlap")
        for t in range(3):
            seg = E[off[t]:off[t + 1]]
            for a, b in zip(seg, seg[1:]):
                if a[3] > b[3]:
                    raise Cut("ranges of a process are not ordered by tag")
                if a[3] == b[3]:
                    if it.cmpv(a[1][0], b[1][0]) > 0:
                        raise Cut("ranges of a process and tag are not ordered by start")
                    if merge and it.cmpv(a[2][0], b[1][0]) >= 0:
                        raise Cut("mergeable ranges are not merged")
    return body


def f_single(tasks):
    def body(it):
        S = Setup(it, 1, 2, (V("s"), V("e")))
        L = new_list(it, S, 2)
        for i, t in enumerate(tasks):
            chain(it, "s", "x%d" % i, "e")
            call(it, "laik_rangelist_append_single1d", L, t, sym("x%d" % i))
        call(it, "laik_rangelist_freeze", L, 1)
        E, off = structure(it, L, 1, 2, True)
        by_map(it, L, E, off, tasks[0])
        boxes = [((sym("x%d" % i),), (sym("x%d" % i) + Poly.const(1),)) for i in range(len(tasks))]
        C = Cells(it, boxes, 1)
        want, got = {}, {}
        for t, (lo, hi) in zip(tasks, boxes):
            want.setdefault(t, set()).update(C.of(lo, hi))
        for e in E:
            for c in C.of(e[1], e[2]):
                if c in got.setdefault(e[0], set()):
                    raise Cut("index stored twice")
                got[e[0]].add(c)
        # cells between two given indexes belong to nobody
        if got != want:
            raise Cut("index set of a process differs from the given indexes")
        for t in range(2):
            seg = E[off[t]:off[t + 1]]
            for a, b in zip(seg, seg[1:]):
                if it.cmpv(a[2][0], b[1][0]) >= 0:
                    raise Cut("neighbouring indexes are not merged or not in order")
    return body


def f_covers(dims, n, fixed=()):
    def body(it):
        box = (V(*["s%d" % d for d in range(dims)]), V(*["e%d" % d for d in range(dims)]))
        for d in range(dims):
            chain(it, "s%d" % d, "e%d" % d)
        S = Setup(it, dims, n, box)
        given = []
        for i in range(n):
            lo, hi = [], []
            for d in range(dims):
                if (i, d) in fixed:
                    lo.append(box[0][d])
                    hi.append(box[1][d])
                    continue
                a, b = "a%d%d" % (i, d), "b%d%d" % (i, d)
                it.order.add(a, -1, b)
                if it.cmpv(sym(a), box[0][d]) < 0 or it.cmpv(sym(b), box[1][d]) > 0:
                    raise Cut(None)
                lo.append(sym(a))
                hi.append(sym(b))
            given.append((tuple(lo), tuple(hi)))
        L = new_list(it, S, max(1, n))
        for i, (lo, hi) in enumerate(given):
            call(it, "laik_rangelist_append", L, i, mkrange(S, lo, hi), 0, NULL)
        call(it, "laik_rangelist_freeze", L, 0)
        r = bool(call(it, "laik_rangelist_coversSpace", L) & 1)
        C = Cells(it, given + [box], dims)
        want = set(C.of(*box)) <= {c for g in given for c in C.of(*g)}
        if r != want:
            raise Cut("coverage reported as %s, but the ranges %s the space" % (r, "cover" if want else "do not cover"))
        # the check must not depend on a previous one
        if bool(call(it, "laik_rangelist_coversSpace", L) & 1) != want:
            raise Cut("coverage differs when asked again")
    return body


def f_grid(dims, n, first=None):
    """space cut at one position per dimension, every choice of n grid boxes"""
    def body(it):
        box = (V(*["s%d" % d for d in range(dims)]), V(*["e%d" % d for d in range(dims)]))
        for d in range(dims):
            chain(it, "s%d" % d, "c%d" % d, "e%d" % d)
        S = Setup(it, dims, n, box)
        iv = (("s", "c"), ("c", "e"), ("s", "e"))
        given = []
        for i in range(n):
            k = [iv[first if i == 0 and first is not None else it.choose(3)] for d in range(dims)]
            given.append((V(*["%s%d" % (k[d][0], d) for d in range(dims)]), V(*["%s%d" % (k[d][1], d) for d in range(dims)])))
        L = new_list(it, S, n)
        for i, (lo, hi) in enumerate(given):
            call(it, "laik_rangelist_append", L, i, mkrange(S, lo, hi), 0, NULL)
        call(it, "laik_rangelist_freeze", L, 0)
        r = bool(call(it, "laik_rangelist_coversSpace", L) & 1)
        C = Cells(it, given + [box], dims)
        want = set(C.of(*box)) <= {c for g in given for c in C.of(*g)}
        if r != want:
            raise Cut("coverage reported as %s, but the ranges %s %s the space" % (r, given, "cover" if want else "do not cover"))
    return body


def f_shape(n, ntask, dims=2):
    """all / single"""
    def body(it):
        box = (V(*["s%d" % d for d in range(dims)]), V(*["e%d" % d for d in range(dims)]))
        for d in range(dims):
            chain(it, "s%d" % d, "e%d" % d)
        S = Setup(it, dims, ntask, box)
        L = new_list(it, S, ntask)
        given = []
        for i in range(n):
            t = it.choose(ntask)
            kind = it.choose(3)
            lo, hi = list(box[0]), list(box[1])
            if kind:
                a = "a%d" % i
                d = it.choose(dims)
                chain(it, "s%d" % d, a, "e%d" % d)
                (hi if kind == 1 else lo)[d] = sym(a)
            given.append((t, kind == 0))
            call(it, "laik_rangelist_append", L, t, mkrange(S, tuple(lo), tuple(hi)), 0, NULL)
        call(it, "laik_rangelist_freeze", L, 0)
        full = [t for t, k in given if k]
        want = sorted(full) == list(range(ntask)) and len(given) == ntask
        r = bool(call(it, "laik_rangelist_isAll", L) & 1)
        if r != want:
            raise Cut("'every process holds the full space' is %s for full ranges of processes %s out of %d ranges" % (r, sorted(full), n))
        ws = full[0] if len(given) == 1 and full else -1
        r = call(it, "laik_rangelist_isSingle", L)
        if r != ws:
            raise Cut("'one process holds the full space' is %s instead of %d" % (r, ws))
    return body


def f_equal():
    def body(it):
        S = Setup(it, 1, 2, (V("s"), V("e")))
        ls = []
        gs = []
        for k in range(2):
            n = it.choose(3)
            L = new_list(it, S, 2)
            g = []
            for i in range(n):
                t = it.choose(2)
                a, b = "a%d%d" % (k, i), "b%d%d" % (k, i)
                chain(it, "s", a, b, "e")
                if i and g[-1][0] == t:
                    chain(it, "b%d%d" % (k, i - 1), a)
                g.append((t, sym(a), sym(b)))
                call(it, "laik_rangelist_append", L, t, mkrange(S, (sym(a),), (sym(b),)), 0, NULL)
            call(it, "laik_rangelist_freeze", L, 0)
            ls.append(L)
            gs.append(sorted(g, key=lambda x: x[0]))
        r = bool(call(it, "laik_rangelist_isEqual", *ls) & 1)
        want = len(gs[0]) == len(gs[1]) and all(x[0] == y[0] and it.cmpv(x[1], y[1]) == 0 and it.cmpv(x[2], y[2]) == 0 for x, y in zip(*gs))
        if r != want:
            raise Cut("lists reported as %s" % ("equal although they differ" if r else "different although they are equal"))
    return body


def f_migrate(tasks, idmap, newcount, ntask):
    def body(it):
        S = Setup(it, 1, ntask, (V("s"), V("e")))
        L = new_list(it, S, ntask)
        for i, t in enumerate(tasks):
            chain(it, "s", "a%d" % i, "b%d" % i, "e")
            call(it, "laik_rangelist_append", L, t, mkrange(S, (sym("a%d" % i),), (sym("b%d" % i),)), i % 2, NULL)
        call(it, "laik_rangelist_freeze", L, 0)
        E, off = structure(it, L, 1, ntask)
        me = it.choose(ntask)
        if idmap[me] < 0:
            raise Cut(None)
        by_map(it, L, E, off, me)
        m = Obj("idmap")
        for i, x in enumerate(idmap):
            m.cells[4 * i] = (4, x)
        call(it, "laik_rangelist_migrate", L, P(m), newcount)
        F, off2 = structure(it, L, 1, newcount)
        if sorted((idmap[e[0]],) + e[1:4] for e in E) != sorted(e[:4] for e in F) if False else {repr((idmap[e[0]],) + e[1:4]) for e in E} != {repr(e[:4]) for e in F}:
            raise Cut("ranges after renumbering differ")
        by_map(it, L, F, off2, idmap[me])
    return body

# ---- partitioning objects: running partitioners, filtered runs, queries -------

LLP = {}


def enumc(n):
    v = LLP.get(n)
    if v is None:
        v = M.enum_const(n)
        if v is None:
            raise AnalysisError("no enumerator " + n)
        LLP[n] = v
    return v


def hit_any(it, r, own):
    """does range r intersect one of the ranges"""
    for o in own:
        if all(it.cmpv(r[1][d], o[2][d]) < 0 and it.cmpv(o[1][d], r[2][d]) < 0 for d in range(len(r[1]))):
            return True
    return False


def user_run(it, S, tag, given, single=False):
    """a partitioner of the application appending the given ranges"""
    name = "verif_run_" + tag

    def h(it, a):
        for t, lo, hi, g in given:
            if single:
                call(it, "laik_append_index_1d", a[0], t, lo[0])
            else:
                call(it, "laik_append_range", a[0], t, mkrange(S, lo, hi), g, NULL)
        return None
    it.handlers[name] = h
    return ("p", ("@", name), 0)


def partitioner(it, S, tag, given, flags, single=False):
    return call(it, "laik_new_partitioner", P(Obj("name")), user_run(it, S, tag, given, single), P(Obj("userdata-" + tag)), flags)


def out64(n):
    return [Obj("out%d" % i, 8) for i in range(n)]


def box_of(it, dims, tr):
    r = call(it, "laik_taskrange_get_range", tr)
    o, off = it.deref(r)
    fr, to = fo("_Laik_Range", "from")[0], fo("_Laik_Range", "to")[0]
    return tuple(rd(o, off + fr + 8 * d) for d in range(dims)), tuple(rd(o, off + to + 8 * d) for d in range(dims))


def same_box(it, a, b):
    return all(it.cmpv(x, y) == 0 for x, y in zip(a[0] + a[1], b[0] + b[1]))


def check_mine(it, p, dims, me, mine, maps, tags=True):
    """queries for the own ranges: mine is the list of boxes in order, maps their mapping numbers"""
    n = call(it, "laik_my_rangecount", p)
    if n != len(mine):
        raise Cut("%s own ranges reported instead of %d" % (n, len(mine)))
    k = len(set(maps))
    if call(it, "laik_my_mapcount", p) != k:
        raise Cut("wrong number of own mappings")
    get = "laik_my_range_%dd" % dims
    for i in range(-1, len(mine) + 1):
        want = mine[i] if 0 <= i < len(mine) else None
        r = call(it, "laik_my_range", p, i)
        if (not is_ptr(r) or r[1] is None) != (want is None):
            raise Cut("own range %d of %d is %s" % (i, len(mine), "returned" if want is None else "not found"))
        if want is not None:
            if not same_box(it, box_of(it, dims, r), want):
                raise Cut("own range %d has wrong borders" % i)
            if call(it, "laik_taskrange_get_task", r) != me:
                raise Cut("own range %d belongs to another process" % i)
            if call(it, "laik_taskrange_get_mapNo", r) != maps[i]:
                raise Cut("own range %d has a wrong mapping number" % i)
        if i < 0:
            continue
        os = out64(2 * dims)
        skip = (i * 3 + 1) % (2 * dims) if i else None
        r = call(it, get, p, i, *[P(o) if j != skip else NULL for j, o in enumerate(os)])
        if (not is_ptr(r) or r[1] is None) != (want is None):
            raise Cut("own range %d of %d is %s" % (i, len(mine), "returned" if want is None else "not found"))
        flat = [x for d in range(dims) for x in (want[0][d], want[1][d])] if want else [0] * (2 * dims)
        for j, o in enumerate(os):
            if j != skip and it.cmpv(rd(o, 0), flat[j]) != 0:
                raise Cut("border %d of own range %d is wrong" % (j, i))
    for m in range(k):
        sub = [mine[i] for i in range(len(mine)) if maps[i] == m]
        if call(it, "laik_my_maprangecount", p, m) != len(sub):
            raise Cut("wrong number of own ranges in mapping %d" % m)
        for i in range(-1, len(sub) + 1):
            r = call(it, "laik_my_maprange", p, m, i)
            want = sub[i] if 0 <= i < len(sub) else None
            if (not is_ptr(r) or r[1] is None) != (want is None):
                raise Cut("own range %d of %d in mapping %d is %s" % (i, len(sub), m, "returned" if want is None else "not found"))
            if want is not None and not same_box(it, box_of(it, dims, r), want):
                raise Cut("own range %d in mapping %d has wrong borders" % (i, m))


def own(it, L, dims, nt, me):
    E, off = structure(it, L, dims, nt)
    seg = E[off[me]:off[me + 1]] if me >= 0 else []
    return [(e[1], e[2]) for e in seg], [e[4] for e in seg]


def mkgroup(it, S, me):
    return P(S.group(me))


def given_ranges(it, dims, tasks, tags, chained=False):
    given = []
    for i, t in enumerate(tasks):
        lo, hi = [], []
        for d in range(dims):
            if d:
                lo.append(sym("s%d" % d))
                hi.append(sym("e%d" % d))
                continue
            a, b = "a%d" % i, "b%d" % i
            chain(it, "s0", a, b, "e0")
            if chained and i:
                chain(it, "b%d" % (i - 1), a)
            lo.append(sym(a))
            hi.append(sym(b))
        given.append((t, tuple(lo), tuple(hi), tags[i]))
    return given


def mkspace(it, dims, nt):
    for d in range(dims):
        chain(it, "s%d" % d, "e%d" % d)
    return Setup(it, dims, nt, (V(*["s%d" % d for d in range(dims)]), V(*["e%d" % d for d in range(dims)])))


def f_part(dims, tasks, tags, nt, merge=False):
    """full run: queries agree with the list of the run"""
    def body(it):
        S = mkspace(it, dims, nt)
        me = it.choose(nt + 1) - 1
        given = given_ranges(it, dims, tasks, tags)
        g = mkgroup(it, S, me)
        pr = partitioner(it, S, "p", given, enumc("LAIK_PF_NoFullCoverage") | (enumc("LAIK_PF_Merge") if merge else 0))
        p = call(it, "laik_new_partitioning", pr, g, P(S.space), NULL)
        if call(it, "laik_partitioning_get_space", p) != P(S.space) or call(it, "laik_partitioning_get_group", p) != g:
            raise Cut("partitioning has another space or group")
        L = call(it, "laik_partitioning_allranges", p)
        if L == NULL or call(it, "laik_partitioning_myranges", p) != L:
            raise Cut("ranges of all processes are not known after a full run")
        mine, maps = own(it, L, dims, nt, me)
        check_mine(it, p, dims, me, mine, maps)
        E = entries(it, L, dims)
        if not merge and len(E) != len(given):
            raise Cut("%d ranges stored of %d" % (len(E), len(given)))
        if call(it, "laik_partitioning_rangecount", p) != len(E):
            raise Cut("wrong number of ranges")
        for i in range(len(E) + 1):
            r = call(it, "laik_partitioning_get_taskrange", p, i)
            if (r == NULL) != (i == len(E)):
                raise Cut("range %d of %d is %s" % (i, len(E), "not found" if r == NULL else "returned"))
            if r != NULL:
                if call(it, "laik_taskrange_get_task", r) != E[i][0] or not same_box(it, box_of(it, dims, r), (E[i][1], E[i][2])):
                    raise Cut("range %d is wrong" % i)
                if call(it, "laik_taskrange_get_tag", r) != E[i][3]:
                    raise Cut("range %d has a wrong tag" % i)
        C = Cells(it, [(e[1], e[2]) for e in given] + [S_box(dims)], dims)
        want = set(C.of(*S_box(dims))) <= {c for e in given for c in C.of(e[1], e[2])}
        if bool(call(it, "laik_partitioning_coversSpace", p) & 1) != want:
            raise Cut("coverage of the space is reported wrongly")
        full = [e[0] for e in E if same_box(it, (e[1], e[2]), S_box(dims))]
        if bool(call(it, "laik_partitioning_isAll", p) & 1) != (full == list(range(nt)) and len(E) == nt):
            raise Cut("'every process holds the full space' is reported wrongly")
        if call(it, "laik_partitioning_isSingle", p) != (full[0] if len(E) == 1 and full else -1):
            raise Cut("'one process holds the full space' is reported wrongly")
        q = call(it, "laik_clone_empty_partitioning", p)
        if call(it, "laik_partitioning_get_space", q) != P(S.space) or call(it, "laik_partitioning_get_group", q) != g:
            raise Cut("clone has another space or group")
        if call(it, "laik_partitioning_allranges", q) != NULL or call(it, "laik_partitioning_myranges", q) != NULL:
            raise Cut("a partitioning never run has ranges")
        call(it, "laik_partitioning_store_allranges", q)
        if not call(it, "laik_partitioning_isEqual", p, q) & 1:
            raise Cut("the same partitioner run again gives a different partitioning")
        call(it, "laik_free_partitioning", q)
        check_mine(it, p, dims, me, mine, maps)
    return body


def S_box(dims):
    return V(*["s%d" % d for d in range(dims)]), V(*["e%d" % d for d in range(dims)])


def f_filter(dims, tasks, tags, nt):
    """runs keeping only own ranges"""
    def body(it):
        S = mkspace(it, dims, nt)
        me = it.choose(nt + 1) - 1
        given = given_ranges(it, dims, tasks, tags)
        g = mkgroup(it, S, me)
        pr = partitioner(it, S, "p", given, 0)      # an incomplete list must not be checked for coverage
        p = call(it, "laik_new_empty_partitioning", g, P(S.space), pr, NULL)
        call(it, "laik_partitioning_store_myranges", p)
        if call(it, "laik_partitioning_allranges", p) != NULL:
            raise Cut("own ranges are taken for those of all processes")
        L = call(it, "laik_partitioning_myranges", p)
        if me < 0:
            if L != NULL:
                raise Cut("own ranges of a process outside of the group")
            check_mine(it, p, dims, me, [], [])
            return
        if L == NULL:
            raise Cut("own ranges are not known after the run")
        E, off = structure(it, L, dims, nt)
        mine, maps = own(it, L, dims, nt, me)
        if len(mine) != len(E) or len(E) != sum(1 for x in given if x[0] == me):
            raise Cut("a run for own ranges keeps %d ranges, %d of them own" % (len(E), len(mine)))
        left = [x for x in given if x[0] == me]
        for b in mine:
            for x in left:
                if same_box(it, b, (x[1], x[2])):
                    left.remove(x)
                    break
            else:
                raise Cut("an own range was not given")
        check_mine(it, p, dims, me, mine, maps)
    return body


def f_inter(dims, t1, t2, nt, single=False):
    """runs keeping the ranges that intersect own ranges of two partitionings"""
    def body(it):
        S = mkspace(it, dims, nt)
        me = it.choose(nt)
        gs = []
        for k, ts in (("p", t1), ("q", t2)):
            given = []
            for i, t in enumerate(ts):
                a, b = "%sa%d" % (k, i), "%sb%d" % (k, i)
                if single:
                    chain(it, "s0", a, "e0")
                    lo, hi = (sym(a),), (sym(a) + Poly.const(1),)
                else:
                    chain(it, "s0", a, b, "e0")
                    lo, hi = (sym(a),), (sym(b),)
                lo += tuple(sym("s%d" % d) for d in range(1, dims))
                hi += tuple(sym("e%d" % d) for d in range(1, dims))
                given.append((t, lo, hi, 0))
            gs.append(given)
        g = mkgroup(it, S, me)
        ps = [call(it, "laik_new_empty_partitioning", g, P(S.space), partitioner(it, S, n, x, 0, single), NULL) for n, x in zip("pq", gs)]
        for p in ps:
            call(it, "laik_partitioning_store_myranges", p)
        mine = [own(it, call(it, "laik_partitioning_myranges", p), dims, nt, me) for p in ps]
        if any(call(it, "laik_partitioning_interranges", a, b) != NULL for a in ps for b in ps):
            raise Cut("intersecting ranges known before a run for them")
        call(it, "laik_partitioning_store_intersectranges", ps[0], ps[1])
        L = call(it, "laik_partitioning_interranges", ps[0], ps[1])
        if L == NULL:
            raise Cut("intersecting ranges are not known after the run")
        if call(it, "laik_partitioning_interranges", ps[1], ps[0]) != NULL or call(it, "laik_partitioning_interranges", ps[0], ps[0]) != NULL:
            raise Cut("intersecting ranges are taken for those of other partitionings")
        if call(it, "laik_partitioning_allranges", ps[0]) != NULL:
            raise Cut("intersecting ranges are taken for those of all processes")
        ref = [x for gg in gs for x in gg if x[0] == me]
        got = entries(it, L, dims)
        want = [x for x in gs[0] if hit_any(it, x, ref)]
        if single:
            # neighbouring indexes are merged: compare index sets
            C = Cells(it, [(x[1], x[2]) for gg in gs for x in gg], dims)
            ws = {(x[0], c) for x in want for c in C.of(x[1], x[2])}
            ss = {(x[0], c) for x in got for c in C.of(x[1], x[2])}
            if ws != ss:
                raise Cut("a run for intersecting ranges does not keep exactly these")
        else:
            left = list(want)
            for e in got:
                for x in left:
                    if x[0] == e[0] and same_box(it, (x[1], x[2]), (e[1], e[2])):
                        left.remove(x)
                        break
                else:
                    raise Cut("a range intersecting no own range is kept")
            if left:
                raise Cut("a range of process %d intersecting an own range is missing" % left[0][0])
        for p, (m, k) in zip(ps, mine):
            check_mine(it, p, dims, me, m, k)
    return body


def f_required(n):
    """a partitioner without the exception flag must cover the space"""
    def body(it):
        nt = 2
        S = mkspace(it, 1, nt)
        given = given_ranges(it, 1, [i % nt for i in range(n)], [0] * n) if n else []
        # borders may touch those of the space
        g2 = []
        for i, (t, lo, hi, tag) in enumerate(given):
            k = it.choose(4)
            g2.append((t, S_box(1)[0] if k & 1 else lo, S_box(1)[1] if k & 2 else hi, tag))
        C = Cells(it, [(e[1], e[2]) for e in g2] + [S_box(1)], 1)
        want = set(C.of(*S_box(1))) <= {c for e in g2 for c in C.of(e[1], e[2])}
        free = it.choose(2)
        pr = partitioner(it, S, "p", g2, enumc("LAIK_PF_NoFullCoverage") if free else 0)
        ok = True
        try:
            p = call(it, "laik_new_partitioning", pr, mkgroup(it, S, 0), P(S.space), NULL)
        except Abort:
            ok = False
        if ok != bool(want or free):
            raise Cut("partitioning %s the space (coverage %srequired) is %s" % ("covering" if want else "not covering", "not " if free else "", "accepted" if ok else "refused"))
    return body


def f_params():
    """a partitioner gets the space, group, base partitioning and its data"""
    def body(it):
        nt = 2
        S = mkspace(it, 1, nt)
        g = mkgroup(it, S, it.choose(2))
        base = call(it, "laik_new_partitioning", partitioner(it, S, "b", [(0, S_box(1)[0], S_box(1)[1], 0)], 0), g, P(S.space), NULL)
        T = mkspace2(it, nt)
        seen = []
        data = P(Obj("userdata"))

        def h(it, a):
            o, off = it.deref(a[1])
            f = lambda n: rd(o, off + fo("_Laik_PartitionerParams", n)[0])
            seen.append((f("space"), f("group"), f("other"), call(it, "laik_partitioner_data", f("partitioner"))))
            call(it, "laik_append_range", a[0], 1, mkrange(T, *S2_box()), 0, NULL)
            return None
        it.handlers["verif_run_x"] = h
        pr = call(it, "laik_new_partitioner", P(Obj("name")), ("p", ("@", "verif_run_x"), 0), data, 0)
        other = base if it.choose(2) else NULL
        p = call(it, "laik_new_partitioning", pr, g, P(T.space), other)
        if seen != [(P(T.space), g, other, data)]:
            raise Cut("partitioner is run with wrong parameters")
        if call(it, "laik_partitioning_isSingle", p) != 1:
            raise Cut("wrong result of a partitioner for another space")
        if call(it, "laik_partitioning_isSingle", base) != 0:
            raise Cut("base partitioning changed")
    return body


def S2_box():
    return (sym("u"),), (sym("v"),)


def mkspace2(it, nt):
    chain(it, "u", "v")
    return Setup(it, 1, nt, S2_box())



def families(thorough):
    out = []
    for merge in (False, True):
        w = "merging" if merge else "no merging"
        out.append(("freeze", "no range, " + w, f_freeze(1, (), (), merge)))
        out.append(("freeze", "one range, " + w, f_freeze(1, (1,), (0,), merge)))
        for tasks in ((0, 0, 0), (0, 1, 0), (2, 0, 2), (1, 1, 0), (2, 1, 0)):
            for tags in ((0, 0, 0), (1, 1, 1), (1, 2, 1), (0, 1, 1), (2, 1, 0), (1, 0, 1)):
                out.append(("freeze", "1-d, ranges of processes %s with tags %s, %s" % (tasks, tags, w), f_freeze(1, tasks, tags, merge)))
    for tasks in ((0, 0, 0), (1, 0, 1)):
        for tags in ((0, 0, 0), (1, 2, 1)):
            out.append(("freeze", "2-d, ranges of processes %s with tags %s" % (tasks, tags), f_freeze(2, tasks, tags, False)))
    if thorough:
        for tasks in ((0, 0, 0, 0), (0, 1, 0, 1), (1, 1, 1, 0)):
            for tags in ((0, 0, 0, 0), (1, 2, 1, 2), (3, 0, 0, 3)):
                out.append(("freeze", "1-d, ranges of processes %s with tags %s, merging" % (tasks, tags), f_freeze(1, tasks, tags, True)))
    for tasks in ((0,), (0, 0), (0, 1), (0, 0, 0), (1, 0, 1), (0, 1, 1)) + (((0, 0, 0, 0), (1, 0, 0, 1)) if thorough else ()):
        out.append(("single-index", "indexes of processes %s" % (tasks,), f_single(tasks)))
    for n in (0, 1, 2, 3) + ((4,) if thorough else ()):
        out.append(("coverage", "1-d, %d ranges" % n, f_covers(1, n)))
    out.append(("coverage", "2-d, 1 range", f_covers(2, 1)))
    out.append(("coverage", "2-d, 2 ranges", f_covers(2, 2)))
    out.append(("coverage", "2-d, 3 ranges, two of them rows", f_covers(2, 3, ((0, 1), (1, 1)))))
    out.append(("coverage", "2-d, 3 boxes of a grid", f_grid(2, 3)))
    out.append(("coverage", "2-d, 4 boxes of a grid", f_grid(2, 4, None if thorough else 0)))
    out.append(("coverage", "3-d, 2 boxes of a grid", f_grid(3, 2)))
    if thorough:
        out.append(("coverage", "3-d, 4 boxes of a grid", f_grid(3, 4, 0)))
    out.append(("coverage", "3-d, 1 range", f_covers(3, 1)))
    for d in range(3):
        oth = [x for x in range(3) if x != d]
        out.append(("coverage", "3-d, 2 ranges cut in dimension %d" % d, f_covers(3, 2, tuple((i, x) for i in range(2) for x in oth))))
    out.append(("coverage", "3-d, 2 ranges cut in different dimensions", f_covers(3, 2, ((0, 1), (0, 2), (1, 0)))))
    if thorough:
        out.append(("coverage", "2-d, 3 ranges", f_covers(2, 3, ((0, 0),))))
        out.append(("coverage", "3-d, 2 ranges", f_covers(3, 2, ((0, 0),))))
    for n, k in ((0, 1), (1, 1), (1, 2), (2, 2), (2, 1), (3, 3)):
        out.append(("shape", "%d ranges, %d processes" % (n, k), f_shape(n, k, 2 if n < 3 else 1)))
    out.append(("equality", "two lists of up to two ranges", f_equal()))
    for tasks, idmap, nc, nt in (((0, 1, 0), (1, 0), 2, 2), ((0, 2, 2), (0, -1, 1), 2, 3), ((2, 1, 2), (-1, 0, 1), 2, 3),
                                 ((0, 1, 1), (2, 0), 3, 2), ((1, 0, 0), (0, 1), 4, 2)):
        out.append(("renumbering", "ranges of processes %s, new ids %s of %d" % (tasks, idmap, nc), f_migrate(tasks, idmap, nc, nt)))
    for dims, tasks, tags, nt in ((1, (), (), 2), (1, (1,), (0,), 2), (1, (0, 1, 0), (0, 0, 0), 2), (1, (1, 0, 1), (2, 1, 1), 2), (1, (1, 1, 2), (1, 1, 2), 3),
                                  (2, (0, 1), (0, 0), 2), (2, (1, 1), (1, 2), 2), (3, (0, 1), (0, 0), 2), (3, (1, 1), (1, 1), 2)):
        out.append(("partitioning", "full run, %d-d, processes %s, tags %s" % (dims, tasks, tags), f_part(dims, tasks, tags, nt)))
        out.append(("partitioning", "own ranges, %d-d, processes %s, tags %s" % (dims, tasks, tags), f_filter(dims, tasks, tags, nt)))
    out.append(("partitioning", "full run with merging", f_part(1, (1, 0, 1), (0, 0, 0), 2, True)))
    out.append(("partitioning", "parameters of a partitioner", f_params()))
    for n in (0, 1, 2) + ((3,) if thorough else ()):
        out.append(("partitioning", "required coverage, %d ranges" % n, f_required(n)))
    for dims, t1, t2, nt in ((1, (0, 1), (1, 0), 2), (1, (0, 1), (0,), 2), (1, (1,), (0, 1), 2), (1, (0, 1, 2), (1,), 3)):
        out.append(("partitioning", "intersecting ranges, %d-d, processes %s and %s" % (dims, t1, t2), f_inter(dims, t1, t2, nt)))
    out.append(("partitioning", "intersecting indexes", f_inter(1, (0, 1), (1, 0), 2, True)))
    return out


def run_one(i):
    rule, name, f = families(THOROUGH)[i]
    n = 0
    cov = set()

    def body(ch):
        it = TInterp(ch)
        e = None
        try:
            f(it)
        except Cut as x:
            e = str(x) if x.args[0] else None
        except Abort as x:
            e = "fails: %s" % x
        except Undecided as x:
            return "?%s" % x
        cov.update(it.covered)
        return e and "%s (%s)" % (e, ordering(it))
    for e in explore(body, 400000):
        n += 1
        if e:
            return i, n, e, cov
    return i, n, None, cov


ANCHOR = {"freeze": "laik_rangelist_freeze", "single-index": "laik_rangelist_freeze", "coverage": "laik_rangelist_coversSpace",
          "shape": "laik_rangelist_isAll", "equality": "laik_rangelist_isEqual", "renumbering": "laik_rangelist_migrate",
          "partitioning": "laik_new_partitioning"}


def run(c):
    global M, THOROUGH
    M = model.load()
    THOROUGH = c.tier == "thorough"
    F = families(THOROUGH)
    for a in ANCHOR.values():
        M.fn(a)
    cov = set()
    with ProcessPoolExecutor(8) as ex:
        for i, n, e, cv in ex.map(run_one, range(len(F)), chunksize=2):
            cov |= cv
            rule, name, _ = F[i]
            c.count("order partitions examined", n)
            if e and e[0] == "?":
                raise AnalysisError("%s: not decided by the order of the borders: %s" % (name, e[1:]))
            c.check(e is None, rule, name, M.fn(ANCHOR[rule]).loc(), e or "")
    c.count("functions interpreted", len(cov))
    c.samples += sorted(cov)
    c.assumptions += ["up to 3 (thorough: 4) ranges stand for longer lists: the construction treats ranges pairwise in sorted order"]
    return __doc__
