"""C07: an argument may live in the container it is given to (may-read-after-change analysis over LLVM IR, interprocedural)."""
import re
from lib import build
from lib.ctx import *
from lib.ir import *
from lib.own import is_ctor, is_dtor, strip_templates
from rules import c15
from rules.c15 import formals, const_params, short

CFG = dict(c15.CFG, opaque=c15.CFG["opaque"] + [r"^Hash(Map|Table|Unique)<.*>::(add|remove|erase|clear|lookup|find|exists|addUnlessExist|addOrReplace|operator\[\])\("])
DEPTH = 8


def text(t, ref=r"[&*]"):
    t = re.sub(r"\s+", "", re.sub(r"\bconst\b|" + ref, "", t or ""))
    return t.replace("std::__cxx11::basic_string<char,std::char_traits<char>,std::allocator<char>>", "std::string")


def holds(key, t):
    """a type that keeps objects of type t themselves, not pointers to them"""
    return re.search(r"(?<![\w:])" + re.escape(t) + r"(?![\w:<*(])", text(key, "&"))


class Alias:
    """which events change or free what an argument taken by const reference may refer to"""

    def __init__(self, m):
        self.m = m
        self.eff = c15.Effects(m, {})
        self.memo = {}
        self.store = {}
        self.inner = {}

    # ---- storage of elements of type T below an object of class cls: offsets of the fields
    def storage(self, cls, t, base=0, depth=0):
        k = (cls, t)
        if depth > 4 or cls not in self.m.types:
            return []
        if k not in self.store:
            self.store[k] = []
            struct, plain = [], []
            for x in self.m.types[cls]["fields"]:
                key = x.get("pkey") or x.get("key") or x.get("type") or ""
                if x["size"] == 0 or "allocator<" in key[:20]:
                    continue
                if x["kind"] in ("class", "base") and key in self.m.types and self.m.types[key].get("file", "").startswith(self.m.repo):
                    struct += [x["off"] + o for o in self.storage(key, t, 0, depth + 1)]
                elif x["kind"] in ("ptr", "array") or x["kind"] == "class":
                    if key and any(self.lib_struct(s) for s in self.args_of(key)) and holds(key, t):
                        struct.append(x["off"])
                    elif holds(key, t):
                        plain.append(x["off"])
            self.store[k] = struct or plain
        return [base + o for o in self.store[k]]

    def args_of(self, key):
        return re.findall(r"[A-Za-z_]\w*(?=<)", key)

    def nodes(self, cls):
        """fields of a class that keeps its elements in nodes of its own: those that hold nodes, and the others"""
        if cls not in self.m.types:
            return None
        a, b = [], []
        for x in self.m.types[cls]["fields"]:
            if x["kind"] in ("class", "ptr", "array"):
                key = x.get("key") or ""
                (a if any(self.lib_struct(s) and not s.startswith(("HashMap", "HashTable<")) and "::" not in s for s in self.args_of(key)[1:] + self.args_of(key)[:1]) and x["kind"] != "ptr" and not self.m.types.get(key, {}).get("file", "").startswith(self.m.repo) else b).append((x["off"], x["size"]))
        return b if a else None

    def lib_struct(self, s):
        if s not in self.inner:
            self.inner[s] = any(k.split("<")[0].split("::")[-1] == s and t.get("file", "").startswith(self.m.repo) and "::" not in k.split("<")[0] for k, t in self.m.types.items())
        return self.inner[s]

    def is_link(self, p, t):
        """a place inside an element's node that is not the element: a chain link"""
        tail = []
        for s in reversed(p):
            if s[0] == "*":
                break
            tail.append(s)
        stride = [s[1] for s in tail if s[0] == "[]"]
        off = sum(s[1] for s in tail if s[0] == "+")
        if len(stride) != 1 or not off:
            return False
        for k, ty in self.m.types.items():
            if ty["size"] == stride[0] and ty.get("file", "").startswith(self.m.repo) and t in text(k):
                for x in ty["fields"]:
                    if x["off"] == off and x["kind"] == "scalar":
                        return True
        return False

    def events(self, f, depth=0):
        """[(inst, place, what, elements?, only when f's result is not null or false?)]: everything f does to memory reached
        through its parameters"""
        if f.name in self.memo:
            return self.memo[f.name]
        self.memo[f.name] = []
        out = []
        for i in f.insts():
            name = i.d.get("fn") or ""
            g = self.m.by_name.get(name) if i.is_call else None
            if g is not None and g.file.startswith(self.m.repo) and depth < DEPTH:
                for j, p, w, el, cond in self.events(g, depth + 1):
                    if p[0][0] != "param":
                        continue
                    k = [n for n, prm in enumerate(g.params) if g.plab[prm["id"]] == p[0][1]]
                    if not k or k[0] >= len(i.args) or not isinstance(i.args[k[0]], int):
                        continue
                    for q in f.roots(i.args[k[0]]):
                        if q[0][0] == "param":
                            r = q
                            for s in p[1:]:
                                r = add_off(r, s[1]) if s[0] == "+" else r + (s,)
                            out.append((i, r, w if " in " in w else "%s in %s" % (w, short(g.dem, 60)), el, cond))
                continue
            build_at = re.search(r"::construct<.*>\((\S.*?)\*, ", i.d.get("dem") or "") if i.is_call else None
            for v, w in self.eff.targets(f, i):
                if build_at and len(i.args) >= 2 and v != i.args[-2]:
                    continue        # constructing an element changes only where it is constructed
                if isinstance(v, int):
                    for p in f.roots(v):
                        if p[0][0] == "param":
                            out.append((i, p, w, self.element(f, p), False))
            if i.is_call and re.match(r"^_Zd[la]", name) and i.args and isinstance(i.args[0], int):
                for p in f.roots(i.args[0]):
                    if p[0][0] == "param":
                        out.append((i, p + (("[]", 1),), "is freed", self.element(f, p), False))
        out = sorted(set((i.id,) + tuple(x) for i, *x in out), key=str)
        out = [(f.inst[i],) + tuple(x) for i, *x in out]
        # callers see which of them happen only when the result is not null
        self.here = getattr(self, "here", {})
        self.here[f.name] = out
        self.memo[f.name] = [(i, p, w, el, self.only_when_found(f, i, c)) for i, p, w, el, c in out]
        return self.memo[f.name]

    def inside(self, f):
        """the events of f with the conditions of the calls they come from"""
        self.events(f)
        return self.here[f.name]

    def element(self, f, p):
        """may a place reached through the object's storage be (part of) an element?"""
        if p[0] != ("param", 0) or not f.this_class:
            return True
        cls, k = f.this_class, 1
        while True:
            off = 0
            if k < len(p) and p[k][0] == "+":
                off = p[k][1]
                k += 1
            x = None
            while cls in self.m.types:
                other = self.nodes(cls)
                if other is not None and any(a <= off < a + n for a, n in other):
                    return False
                xs = [x for x in self.m.types[cls]["fields"] if x["off"] <= off < x["off"] + max(x["size"], 1) and x["size"] and not (x["kind"] == "base" and x["size"] == 1)]
                if len(xs) < 1:
                    return True
                x = xs[-1]
                if x["kind"] not in ("class", "base"):
                    break
                off -= x["off"]
                cls = x.get("key") or ""
            if x is None or x["kind"] != "ptr" or k >= len(p) or p[k] != ("*",):
                return True
            cls, k = x.get("pkey") or "", k + 1

    def only_when_found(self, f, i, cond):
        """does f, having executed i, only return with a result that is neither null nor false?"""
        seen, st = set(), [i.block]
        while st:
            b = st.pop()
            if b not in seen:
                seen.add(b)
                st += f.succ[b]
        rets = [j for j in f.insts() if j.op == "ret" and j.block in seen]
        return bool(rets) and all(j.d.get("ops") and (cond and j.d["ops"][0] == i.id or self.set(f, j.d["ops"][0], seen, 0)) for j in rets)

    def set(self, f, v, blocks, depth):
        if isinstance(v, dict):
            c = cint(v)
            return c is not None and c != 0 or v.get("k") == "glob"
        i = f.inst.get(v)
        if i is None or depth > 8:
            return False
        if i.op == "phi":
            return all(self.set(f, x, blocks, depth + 1) for x, b in i.d["in"] if b in blocks)
        if i.op in ("trunc", "zext", "freeze"):
            return self.set(f, i.d["ops"][0], blocks, depth + 1)
        if i.is_call:
            return bool(i.d.get("rnn"))
        if i.op == "getelementptr":
            return bool(i.off) or self.set(f, i.base, blocks, depth + 1)
        return i.op == "alloca"

    def reads(self, f, i, k):
        """places reached through parameter k that i reads"""
        if i.op == "load":
            vs = [i.ptr]
        elif i.is_call:
            it = i.d.get("intr") or ""
            if it and not it.startswith("llvm.mem"):
                return
            vs = [a for a in i.args or [] if isinstance(a, int)]
            if it.startswith(("llvm.memcpy", "llvm.memmove")):
                vs = vs[1:2] if isinstance(i.args[0], int) else vs[:1]
        else:
            return
        for v in vs:
            for p in f.roots(v):
                if p[0] == ("param", k):
                    yield p


def leaf(m, cls, off, depth=0):
    """the innermost member of a library class that lies at an offset: (offset, size)"""
    t = m.types.get(cls)
    if t is None or depth > 6:
        return None
    for x in t["fields"]:
        if x["off"] <= off < x["off"] + max(x["size"], 1) and not (x["kind"] == "base" and x["size"] <= 1):
            key = x.get("key") or ""
            if x["kind"] in ("base", "class") and m.types.get(key, {}).get("file", "").startswith(m.repo):
                r = leaf(m, key, off - x["off"], depth + 1)
                if r is not None:
                    return (x["off"] + r[0], r[1])
            return (x["off"], x["size"])
    return None


def same_member(m, cls, read, is_load, event):
    """may the place read in one object be what the event changed in another object of the class?"""
    def first(p):
        return (p[1][1], p[2:]) if len(p) > 1 and p[1][0] == "+" else (0, p[1:])
    (a, ra), (b, rb) = first(read), first(event)
    if leaf(m, cls, a) != leaf(m, cls, b):
        return False
    # only what the member points to changed, and only the member itself is read
    return not (("*",) in rb and ("*",) not in ra and is_load)


def self_tests(f, k):
    """edges (block, successor) on which parameter k is known not to be the object itself"""
    out = set()
    for i in f.insts():
        if i.op != "br" or i.cond is None or not isinstance(i.cond, int):
            continue
        c = f.inst.get(i.cond)
        if c is None or c.op != "icmp" or c.pred not in ("eq", "ne"):
            continue
        ps = [f.roots(o) if isinstance(o, int) else set() for o in c.d["ops"]]
        if {frozenset(x) for x in ps} == {frozenset({(("param", 0),)}), frozenset({(("param", k),)})}:
            out.add((i.block, i.succ[1 if c.pred == "eq" else 0]))
    return out


def distinct(f, clean):
    """blocks reached only over such edges"""
    n = len(f.blocks)
    known = [True] * n
    known[0] = False
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            v = all(known[p] or (p, b) in clean for p in f.pred[b])
            if v != known[b]:
                known[b], ch = v, True
    return known


def empty_results(f):
    """edges (block, successor) -> calls whose result is null or false there"""
    out = {}
    for i in f.insts():
        if i.op != "br" or not isinstance(i.cond, int) or len(i.succ) != 2:
            continue
        v, falsy = i.cond, 1
        c = f.inst.get(v)
        while c is not None and c.op == "xor" and cint(c.d["ops"][1]) == -1:
            falsy = 1 - falsy
            c = f.inst.get(c.d["ops"][0]) if isinstance(c.d["ops"][0], int) else None
        if c is not None and c.op == "icmp" and c.pred in ("eq", "ne"):
            o = c.d["ops"]
            for x, y in (o, o[::-1]):
                if isinstance(x, int) and isinstance(y, dict) and (y.get("k") == "null" or cint(y) == 0):
                    c = f.inst.get(x)
                    if i.op == "br":
                        falsy = (0 if f.inst[v].pred == "eq" else 1) if f.inst[v].op == "icmp" else falsy
                    break
            else:
                continue
        if c is not None and c.is_call:
            out.setdefault((i.block, i.succ[falsy]), set()).add(c.id)
    return out


def analyse(f, al, k, hot, meet, r):
    """forward may-analysis: (event, read) pairs where the read of argument k may follow an event that meet() it"""
    n = len(f.blocks)
    out = [set() for _ in range(n)]
    known = distinct(f, self_tests(f, k))
    empty = empty_results(f)
    hits = {}
    order = sorted(range(n), key=lambda b: f.rpo[b] if isinstance(f.rpo, (list, dict)) else b)
    ch = True
    rd = {}
    for b in range(n):
        for i in f.blocks[b] if not known[b] else ():
            x = sorted(set(al.reads(f, i, k)), key=str)
            if x:
                rd[i.id] = x
    r.count("reads_of_arguments", len(rd))
    while ch:
        ch = False
        for b in order:
            s = set()
            for p in f.pred[b]:
                gone = empty.get((p, b), ())
                s |= {(q, x) for q, x in out[p] if not (q in gone and hot[q][x][2])}
            for i in f.blocks[b]:
                for p in rd.get(i.id, ()):
                    for (q, n_) in s:
                        if meet(p, i.op == 'load', hot[q][n_][0]):
                            hits[(i.id, q)] = (p, hot[q][n_][:2])
                for n_ in range(len(hot.get(i.id, ()))):
                    s.add((i.id, n_))
            if s != out[b]:
                out[b] = s
                ch = True
    return hits


def replaces(p, w):
    """does an event free or replace storage, rather than write a value into it?"""
    return w.startswith("is freed") or ("::" in w and not w.startswith("is written") and re.search(r"shared_ptr|vector|basic_string|::(swap|reset|clear|resize|reserve|push_back|assign|erase|insert)\(", w))


def late(f, al, lab, memo):
    """reads through parameter lab that may follow a replacement of storage of the object itself"""
    k = (f.name, lab)
    if k not in memo:
        memo[k] = {}
        hot = {}
        for i, p, w, el, cond in al.inside(f):
            if p[0] == ("param", 0) and replaces(p, w):
                hot.setdefault(i.id, []).append((p, w, cond))
        if hot and lab:
            class R:
                def count(self, *a):
                    pass
            memo[k] = analyse(f, al, lab, hot, lambda p, ld, q: True, R())
    return memo[k]


def stale_pointers(f, al, k, memo, r):
    """pointers taken out of argument k that are used after the object's own storage was replaced"""
    known = distinct(f, self_tests(f, k))
    hot = {}
    for i, p, w, el, cond in al.inside(f):
        if p[0] == ("param", 0) and replaces(p, w):
            hot.setdefault(i.id, []).append((p, w))
    if not hot:
        return {}

    def src(v):
        """the calls and loads a pointer value comes from"""
        return {p[0][1] for p in f.roots(v) if p[0][0] == "call"} if isinstance(v, int) else set()
    taken = {i.id for i in f.insts() if i.is_call and i.ty == "ptr" and any((("param", k),) == p[:1] for a in i.args or [] if isinstance(a, int) for p in f.roots(a))}
    r.count("pointers_into_arguments", len(taken))
    hits = {}
    n = len(f.blocks)
    out = [frozenset() for _ in range(n)]
    ch = bool(taken)
    while ch:
        ch = False
        for b in range(n):
            s = set()
            for p in f.pred[b]:
                s |= out[p]
            for i in f.blocks[b]:
                if not known[b]:
                    vs = [i.ptr] if i.op == "load" else [a for a in i.args or []] if i.is_call else []
                    for v in vs:
                        for d in src(v):
                            for x in [x for x in s if x[0] == d and x[1]]:
                                hits[(i.id, x[1])] = ((("param", k),), hot[x[1]][0])
                    g = al.m.by_name.get(i.d.get("fn") or "") if i.is_call else None
                    if g is not None and g.file.startswith(al.m.repo) and (("param", 0),) in (f.roots(i.args[i.this_arg]) if i.args and isinstance(i.args[i.this_arg], int) else ()):
                        for a, prm in zip(i.args, g.params):
                            if src(a) & taken:
                                for (rid, q), v in late(g, al, g.plab[prm["id"]], memo).items():
                                    hits[(i.id, i.id)] = (v[0], hot.get(i.id, [((), "is replaced in " + short(g.dem, 60))])[0])
                if i.id in hot:
                    s = {(d, i.id) for d, e in s}
                if i.id in taken:
                    s = {x for x in s if x[0] != i.id} | {(i.id, 0)}
            if s != out[b]:
                out[b] = frozenset(s)
                ch = True
    return hits


def run(ctx):
    r = Result()
    r.rules = ["no operation reads an element or key it was given by const reference after it changed, moved or freed the elements it keeps",
               "no operation given another object of its own kind reads a member of it after changing that member of its own, unless the two are known to differ"]
    m = ctx.module(ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_alias.cpp"), **CFG)
    al = Alias(m)
    controls = {}
    classes = set()
    memo = {}
    for f in m.fns:
        wit = f.relfile.endswith("w_alias.cpp")
        if not (f.file.startswith(m.repo) or wit) or not f.this_class or f.this_const or is_ctor(f):
            continue
        fm, _ = formals(f.dem)
        cls = text(f.this_class)
        for k in sorted(const_params(f) - {0}):
            t = text(fm[k - 1])
            same = t == cls
            found = {}
            if same:
                found = stale_pointers(f, al, k, memo, r)
            st = [] if same else al.storage(f.this_class, t)
            if not same and not st:
                continue
            classes.add(strip_templates(f.this_class).split("::")[-1])
            r.count("element_arguments" if not same else "same_kind_arguments")
            r.sample(short(f.dem))
            hot = {}
            for i, p, w, el, cond in al.inside(f):
                if p[0] != ("param", 0):
                    continue
                if same:
                    hot.setdefault(i.id, []).append((p, w, cond))
                    continue
                if len(p) < 2 or not el:
                    continue
                off = p[1][1] if p[1][0] == "+" else 0
                if not any(s <= off < s + 24 for s in st):
                    continue
                deep = any(s[0] == "*" for s in p)
                if not deep and "::" not in w and "is freed" not in w:
                    continue        # the object's own fields: where its elements are, how many there are
                if al.is_link(p, t):
                    continue
                hot.setdefault(i.id, []).append((p, w, cond))
            r.count("changes_of_elements", len(hot))
            meet = (lambda p, ld, q: same_member(m, f.this_class, p, ld, q)) if same else (lambda p, ld, q: True)
            if not (same and cls == "lintel::ByteBuffer"):      # what its members mean is C08's business
                found.update(analyse(f, al, k, hot, meet, r) if hot else {})
            for (rid, q), (p, (pl, w)) in sorted(found.items()):
                i, j = f.inst[rid], f.inst[q]
                if wit:
                    controls.setdefault(strip_templates(f.this_class).split("::")[-1] + "." + (f.d.get("sname") or ""), set()).add("alias")
                    continue
                r.violate("argument-in-container", i.where(), short(f.dem), "argument %d is read after %s: the element it may refer to %s" % (k, j.where(), w) if not same else
                          "%s is read from argument %d after %s changed it, which is wrong when the argument is the object itself" % ("a member", k, j.where()))
    if ctx.tier == "debug":
        for v in r.violations:
            print(v)
        print(sorted(classes), r.counts, controls)
    got = {k: sorted(v) for k, v in controls.items()}
    if got != WANT:
        raise build.AnalysisBroken("positive controls differ: %s" % got)
    r.counts["positive_controls_fired"] = len(controls)
    lost = {"Deque", "PriorityQueue", "HashTable", "HashMap", "HashUnique", "RotatingHashMap", "ByteBuffer", "Stats"} - classes
    if lost:
        raise build.AnalysisBroken("classes without judged operations: %s" % sorted(lost))
    r.need("element_arguments", 40)
    r.need("same_kind_arguments", 5)
    return r


WANT = {"BadBag." + n: ["alias"] for n in ("grow", "shift", "wipe", "twice", "by_helper", "join")}
