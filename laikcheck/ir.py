"""In-memory model of the dumped IR: functions, blocks, instructions, CFG
facts (dominance, control dependence), field-resolved memory accesses and the
call graph."""
import re
from collections import defaultdict, deque


def strip_suffix(n):
    return re.sub(r"\.\d+$", "", n)


class Instr:
    __slots__ = ("fn", "blk", "idx", "id", "op", "ty", "line", "file", "ops", "raw", "callee",
                 "args", "aty", "name", "users", "inl_fn")

    def __init__(self, fn, blk, idx, r):
        self.fn, self.blk, self.idx = fn, blk, idx
        self.raw = r
        self.id = r["i"]
        self.op = r["o"]
        self.ty = r["t"]
        self.line = r.get("l", 0)
        self.file = r.get("fl") or fn.file
        self.inl_fn = r.get("ifn")
        self.ops = [tuple(o) if isinstance(o, list) else o for o in r.get("ops", ())]
        self.callee = r.get("f")
        self.args = [tuple(o) for o in r.get("a", ())]
        self.aty = r.get("aty", ())
        self.name = r.get("nm", "")
        self.users = []

    def loc(self):
        return "%s:%d" % (short(self.file), self.line)

    def operands(self):
        if self.op == "call":
            fo = self.raw.get("fp_op")
            return self.args + ([tuple(fo)] if fo else [])
        return self.ops

    def succs(self):
        if self.op == "br":
            return self.raw["s"]
        if self.op == "switch":
            return [c[1] for c in self.raw["cs"]] + [self.raw["d"]]
        return []

    def __repr__(self):
        return "<%s %%%d %s @%s>" % (self.fn.src, self.id, self.op + (" " + self.callee if self.callee else ""), self.loc())


def short(p):
    p = p or "?"
    for pre in ("/repo/",):
        i = p.find(pre)
        if i >= 0:
            p = p[i + len(pre):]
    return p


class Block:
    __slots__ = ("fn", "id", "instrs", "preds", "succs")

    def __init__(self, fn, i):
        self.fn, self.id = fn, i
        self.instrs, self.preds, self.succs = [], [], []

    @property
    def term(self):
        return self.instrs[-1] if self.instrs else None


class Function:
    def __init__(self, mod, r):
        self.mod = mod
        self.raw = r
        self.name = r["name"]
        self.src = r["src"] or strip_suffix(r["name"])
        self.file = r["file"]
        self.line = r["line"]
        self.internal = r["internal"]
        self.decl = r["decl"]
        self.ret = r["ret"]
        self.vararg = r["vararg"]
        self.noreturn = r["noreturn"]
        self.args = r["args"]
        self.ptypes = r.get("ptypes", [])
        self.blocks = []
        self.by_id = {}
        if not self.decl:
            for bi, b in enumerate(r["blocks"]):
                B = Block(self, bi)
                for k, ir in enumerate(b):
                    I = Instr(self, B, k, ir)
                    B.instrs.append(I)
                    self.by_id[I.id] = I
                self.blocks.append(B)
            for B in self.blocks:
                if B.term is not None:
                    seen = set()
                    for s in B.term.succs():
                        if s not in seen:
                            seen.add(s)
                            B.succs.append(self.blocks[s])
                            self.blocks[s].preds.append(B)
            for I in self.instrs():
                for o in I.operands():
                    if o and o[0] == "i" and o[1] in self.by_id:
                        self.by_id[o[1]].users.append(I)
        self._dom = self._pdom = None

    def __repr__(self):
        return "<fn %s>" % self.src

    def loc(self):
        return "%s:%d" % (short(self.file), self.line)

    def instrs(self):
        for b in self.blocks:
            yield from b.instrs

    def calls(self, name=None):
        for I in self.instrs():
            if I.op == "call" and I.callee is not None:
                if name is None or strip_suffix(I.callee) == name or (callable(name) and name(strip_suffix(I.callee))):
                    yield I

    def val(self, o):
        """operand tuple -> Instr or None"""
        if o and o[0] == "i":
            return self.by_id.get(o[1])
        return None

    def argname(self, n):
        return self.args[n][1] if n < len(self.args) else "?"

    # ---- dominance -------------------------------------------------------
    def dom(self):
        if self._dom is None:
            self._dom = dominators(self.blocks, self.blocks[0], lambda b: b.preds, lambda b: b.succs)
        return self._dom

    def dominates_block(self, a, b):
        d = self.dom()
        if b not in d:
            return True
        return a in d[b]

    def dominates(self, a, b):
        """instruction a dominates instruction b (strictly earlier on every path)"""
        if a.blk is b.blk:
            return a.idx < b.idx
        return self.dominates_block(a.blk, b.blk)

    def exits(self):
        return [b for b in self.blocks if b.term is not None and b.term.op == "ret"]

    def pdom(self):
        """post-dominators with respect to normal returns (blocks that cannot
        reach a return are post-dominated by nothing)."""
        if self._pdom is None:
            V = Block(self, -1)
            ex = self.exits()
            exs = set(ex)

            def preds(b):  # in reversed graph: predecessors = successors
                r = list(b.succs)
                if b in exs:
                    r.append(V)
                return r

            def succs(b):
                return list(ex) if b is V else list(b.preds)
            self._pdom = dominators([V] + self.blocks, V, preds, succs)
        return self._pdom

    def control_deps(self):
        """block -> set of (branch block, successor index) it is control dependent on (direct)"""
        pd = self.pdom()
        out = defaultdict(set)
        for A in self.blocks:
            t = A.term
            if t is None or len(A.succs) < 2:
                continue
            for si, B in enumerate(A.succs):
                # walk blocks that post-dominate B but not strictly post-dominate A
                if B in pd:
                    for X in pd[B]:
                        if X.id == -1:
                            continue
                        if A not in pd or X not in pd[A] or X is A:
                            out[X].add((A, B))
                else:
                    # B never returns: everything dominated by the edge depends on it
                    out[B].add((A, B))
        return out

    def reach_blocks(self, start, stop=lambda b: False, edge_ok=None):
        seen, w = set(), [start]
        while w:
            b = w.pop()
            if b in seen:
                continue
            seen.add(b)
            if stop(b):
                continue
            for s in b.succs:
                if edge_ok and not edge_ok(b, s):
                    continue
                w.append(s)
        return seen

    def loops(self):
        """natural loops: header block -> set of blocks"""
        d = self.dom()
        out = {}
        for b in self.blocks:
            for s in b.succs:
                if b in d and s in d[b]:
                    body = out.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body:
                            continue
                        body.add(x)
                        w.extend(x.preds)
        return out


def dominators(blocks, entry, preds, succs):
    # iterative set based dominators on reachable part, using RPO + idom
    order, seen = [], set()
    stack = [(entry, iter(succs(entry)))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(s))))
                adv = True
                break
        if not adv:
            order.append(b)
            stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds(b):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                changed = True
    res = {}
    for b in order:
        s = {b}
        x = b
        while idom[x] is not x:
            x = idom[x]
            s.add(x)
        res[b] = s
    return res


class Module:
    def __init__(self, dump):
        self.dump = dump
        self.structs = {}
        for s in dump["structs"]:
            self.structs.setdefault(s["name"], s)
        self.di = {}
        self.typedef = {}
        for t in dump["ditypes"]:
            if t["k"] == "comp":
                self.di[t["name"]] = t
            else:
                self.typedef[t["name"]] = t["of"]
                if not t["of"]:
                    self.di.setdefault(t["name"], t)
        self._fieldcache = {}
        self.functions = {}
        self.by_src = defaultdict(list)
        for f in dump["functions"]:
            F = Function(self, f)
            self.functions[F.name] = F
            if not F.decl:
                self.by_src[F.src].append(F)
        self.globals = {g["name"]: g for g in dump["globals"]}
        self._slots = None
        self._callers = None
        self.jobs = {}
        for j in dump.get("jobs", ()):
            if j.get("missing"):
                self.jobs[j["id"]] = None
            else:
                F = Function(self, j["fn"])
                self.jobs[j["id"]] = F

    # ---- types -----------------------------------------------------------
    def field(self, struct, idx):
        """struct: IR name like struct._Laik_Action; -> field name"""
        key = (struct, idx)
        if key in self._fieldcache:
            return self._fieldcache[key]
        name = str(idx)
        s = self.structs.get(struct)
        dn = struct.split(".", 1)[1] if "." in struct else struct
        d = self.di.get(dn)
        if s and d and idx < len(s["el"]):
            off = s["el"][idx][0]
            for m in d["m"]:
                if m[1] == off * 8:
                    name = m[0]
                    break
        self._fieldcache[key] = name
        return name

    def enum(self, name):
        """enum constants by name: tag name, typedef name"""
        d = self.di.get(name) or self.di.get(self.typedef.get(name, ""))
        if not d:
            return {}
        return {m[0]: m[1] for m in d["m"]}

    def enum_const(self, const):
        for d in self.di.values():
            if d.get("tag") == "enum":
                for m in d["m"]:
                    if m[0] == const:
                        return m[1]
        return None

    # ---- globals ---------------------------------------------------------
    def string(self, o):
        """constant string behind an operand, or None"""
        if not o:
            return None
        if o[0] == "g":
            g = self.globals.get(o[1])
            if g and g.get("init") and g["init"][0] == "s" and g.get("const"):
                return g["init"][1]
            if g and g.get("init") and g["init"][0] == "z" and g.get("const"):
                return ""
        return None

    def fn(self, src, file=None, required=True):
        c = [f for f in self.by_src.get(src, ()) if file is None or f.file.endswith(file)]
        if not c:
            if required:
                from .build import AnalysisError
                raise AnalysisError("anchor function '%s' not found" % src)
            return None
        return c[0]

    def defined(self):
        return [f for f in self.functions.values() if not f.decl]

    # ---- call graph --------------------------------------------------------
    def slots(self):
        """(struct, field) -> set of function names stored there (initialisers or stores)"""
        if self._slots is not None:
            return self._slots
        out = defaultdict(set)
        for g in self.globals.values():
            ini = g.get("init")
            if ini:
                self._scan_init(g["ty"], ini, out)
        for f in self.defined():
            for I in f.instrs():
                if I.op == "store" and I.ops[0] and I.ops[0][0] == "g" and I.ops[0][1] in self.functions:
                    a = access_field(f, I.ops[1])
                    if a:
                        out[(a[0], a[1])].add(I.ops[0][1])
        self._slots = out
        return out

    def _scan_init(self, ty, ini, out):
        if ini[0] != "A":
            return
        m = re.match(r"%(struct\.[\w.]+)$", ty)
        if m:
            sn = strip_suffix(m.group(1))
            s = self.structs.get(sn)
            for k, e in enumerate(ini[1:]):
                if e[0] == "g" and e[1] in self.functions:
                    out[(sn, self.field(sn, k))].add(e[1])
                elif e[0] == "A" and s:
                    self._scan_init(s["el"][k][1], e, out)
        else:
            m = re.match(r"\[\d+ x (.*)\]$", ty)
            if m:
                for e in ini[1:]:
                    self._scan_init(m.group(1), e, out)

    def targets(self, I):
        """possible callees (names) of a call instruction"""
        if I.callee is not None:
            return [I.callee]
        fo = I.raw.get("fp_op")
        if not fo:
            return []
        v = I.fn.val(tuple(fo))
        if v is not None and v.op == "load":
            a = access_field(I.fn, v.ops[0])
            if a:
                return sorted(self.slots().get((a[0], a[1]), ()))
        return []

    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.defined():
                for I in f.instrs():
                    if I.op == "call":
                        for t in self.targets(I):
                            c[t].append(I)
            self._callers = c
        return self._callers

    def address_taken(self, name):
        for f in self.defined():
            for I in f.instrs():
                for o in I.operands():
                    if o and o[0] == "g" and o[1] == name:
                        yield I


def strip_casts(fn, o):
    while True:
        v = fn.val(o)
        if v is not None and v.op in ("bitcast", "addrspacecast", "freeze"):
            o = v.ops[0]
            continue
        return o


def access_field(fn, ptr):
    """innermost struct field addressed by a pointer operand: (struct, field, gep instr) or None"""
    ptr = strip_casts(fn, ptr)
    v = fn.val(ptr)
    depth = 0
    while v is not None and v.op == "getelementptr" and depth < 20:
        for e in reversed(v.raw["fp"]):
            if len(e) == 2 and e[0] not in ("*", "[]"):
                return (e[0], fn.mod.field(e[0], e[1]), v)
        ptr = strip_casts(fn, v.ops[0])
        v = fn.val(ptr)
        depth += 1
    return None


def field_path(fn, ptr):
    """(base operand, ((struct, field) | '[]', ...)) for a pointer expression built of GEPs"""
    path = []
    ptr = strip_casts(fn, ptr)
    v = fn.val(ptr)
    while v is not None and v.op == "getelementptr":
        seg = []
        for e in v.raw["fp"]:
            if len(e) == 2:
                seg.append((e[0], fn.mod.field(e[0], e[1])))
            elif e[0] == "[]":
                seg.append("[]")
            else:
                idx = tuple(e[1])
                if not (idx[0] == "c" and idx[1] == 0):
                    seg.append("[]")
        path = seg + path
        ptr = strip_casts(fn, v.ops[0])
        v = fn.val(ptr)
    return ptr, tuple(path)


def const_int(o):
    if o and o[0] == "c":
        return o[1]
    if o and o[0] == "n":
        return 0
    return None
