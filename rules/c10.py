"""C10: forgetting, reseeding, copying and merging cover every piece of state (modified-state against written-state, per class)."""
import re
from lib.ctx import *
from lib.ir import *
from lib.own import is_ctor, is_dtor, ctor_only, strip_templates
from rules import c16

CFG = dict(opaque=ASSERT_OPAQUE, inline=SMALL_STD + c16.VECTOR_CTOR + [r"^(double|.*) const& std::(max|min)<"], prepasses=PRE_PASSES, passes=c16.CFG["passes"], types=True, export_repo=True, max_insts=3000)
RESTORE = re.compile(r"^(reset|clear|init|initArray)$")
CONFIG = re.compile(r"^(set[A-Z]|enable|disable|reserve)")
CONST = re.compile(r"^_ZNK")


def leaves(ctx, m, cls, base=0, name="", depth=0):
    """[(offset, size, name, kind)] of every member, members with a class type of their own as one leaf; bases and plain structs opened"""
    t = m.types.get(cls)
    out = []
    if not t or depth > 6:
        return out
    for f in t["fields"]:
        off = base + f["off"]
        nm = (name + "." if name else "") + (f["name"] or "")
        key = f.get("key") or f["type"]
        if (f["name"] or "").startswith("_vptr"):
            continue
        if f["kind"] == "base":
            if key in m.types and m.types[key]["file"].startswith(m.repo):
                out += leaves(ctx, m, key, off, name, depth + 1)
            elif f["size"] > 8:
                out.append((off, f["size"], nm or key, "class"))
        elif f["kind"] == "class":
            if key in m.types and (m.types[key]["file"].startswith(m.repo) or "/witness/" in m.types[key]["file"]):
                if m.types[key]["fields"]:
                    out += leaves(ctx, m, key, off, nm, depth + 1)
            else:
                out.append((off, f["size"], nm, "class"))
        else:
            out.append((off, f["size"], nm, f["kind"]))
    return out


def at(lv, off):
    for k, l in enumerate(lv):
        if l[0] <= off < l[0] + max(l[1], 1):
            return k
    return None


def target(lv, p):
    """(leaf, in what it points to) of a place reached from this"""
    if p[0] != ("param", 0):
        return None
    off, rest = 0, p[1:]
    if rest and rest[0][0] == "+":
        off, rest = rest[0][1], rest[1:]
    k = at(lv, off)
    if k is None:
        return None
    deref = any(x[0] == "*" for x in rest)
    if deref and lv[k][3] == "class":
        deref = False
    return k, deref


def writes(f, lv):
    """(leaf, deref, inst, how) for everything f may write through this"""
    for i in f.insts():
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            for p in f.roots(i.ptr):
                t = target(lv, p)
                if t:
                    yield t + (i, "store")
        elif i.is_call:
            it = i.d.get("intr") or ""
            args = i.args or []
            if it.startswith("llvm.mem"):
                for p in f.roots(args[0]) if isinstance(args[0], int) else ():
                    t = target(lv, p)
                    if t:
                        n = cint(args[2])
                        if n and not t[1]:
                            o = lv[t[0]][0]
                            for k, l in enumerate(lv):
                                if o <= l[0] < o + n:
                                    yield (k, False, i, "mem")
                        else:
                            yield t + (i, "mem")
                continue
            if it:
                continue
            g = f.mod.by_name.get(i.d.get("fn") or "")
            name = i.d.get("fn") or ""
            if CONST.match(name) or re.match(r"_ZN?S?t?.*[CD][0-3]E", name) and False:
                continue
            for n, a in enumerate(args):
                if not isinstance(a, int) or (i.d.get("aattr") or [""] * 9)[n:n + 1] == ["readonly"]:
                    continue
                for p in f.roots(a):
                    t = target(lv, p)
                    if t is None or len(p) == 1 and n == i.this_arg and g is not None and g.this_class:
                        continue
                    if lv[t[0]][3] == "class" and n == i.this_arg or t[1] or lv[t[0]][3] == "array":
                        yield t + (i, "call")


# what forgetting keeps on purpose: storage and its size, the bin geometry a histogram has grown or rescaled to, scratch space that its user fills before reading,
# and the configuration of a table
KEPT = {
    "Deque": ("deque", "q_size"), "PriorityQueue": ("pq", "size_available"),
    "NoCopyByteBuffer": ("byte_data", "data_size"),
    "StatsHistogramUniform": ("num_bins", "bin_low", "bin_high"), "StatsHistogramUniformAccum": ("num_bins", "bin_low", "bin_high"),
    "StatsHistogramLog": ("smallest_bin", "bin_high", "bin_scaling"), "StatsHistogramLogAccum": ("smallest_bin", "bin_high", "bin_scaling"),
    "StatsQuantile": ("tmp_buffer", "collapse_pos"),
}


def sclass(c):
    return strip_templates(c).split("::")[-1]


class Must:
    """what is certainly written (leaf, in what it points to) at each return of f; `only` limits the writes counted"""

    def __init__(self, f, lv, lvmap, memo, only=None, skip_self=False):
        self.f, self.lv = f, lv
        bits = {}
        gen = {}
        self.memo, self.lvmap = memo, lvmap
        for k, d, i, how in writes(f, lv):
            if only is not None and not only(k, d, i, how):
                continue
            gen[i.id] = gen.get(i.id, frozenset()) | {(k, d)}
        # calls on the whole object that were not inlined
        for i in f.calls():
            g = f.mod.by_name.get(i.d.get("fn") or "")
            a = i.args or []
            if g is None and only is None and not i.d.get("fn") and a and isinstance(a[i.this_arg], int) and f.path(a[i.this_arg]) == (("param", 0),):
                # another (virtual) operation of the same object, judged there
                gen[i.id] = gen.get(i.id, frozenset()) | {("virtual", False)}
            if g is None or only is not None or i.this_arg >= len(a) or not isinstance(a[i.this_arg], int):
                continue
            if f.path(a[i.this_arg]) == (("param", 0),) and g.this_class and g is not f:
                gen[i.id] = gen.get(i.id, frozenset()) | must(g, lv, lvmap, memo)
        full = frozenset(x for v in gen.values() for x in v)
        may = {(k, d) for (k, d) in full if k != "virtual" and (d or lv[k][3] in ("array", "class"))}
        dead = set()
        if skip_self:
            for b, l in enumerate(f.blocks):
                t = l[-1]
                if t.op == "br" and isinstance(t.cond, int):
                    c = f.inst.get(t.cond)
                    if c is not None and c.op == "icmp" and c.pred in ("eq", "ne"):
                        ps = [f.path(o) for o in c.d["ops"]]
                        if sorted(ps, key=str) == [(("param", 0),), (("param", 1),)]:
                            dead.add((b, t.succ[0 if c.pred == "eq" else 1]))
        n = len(f.blocks)
        inn, out, outy = [full] * n, [full] * n, [frozenset()] * n
        iny = [frozenset()] * n
        order = sorted(range(n), key=lambda b: f.rpo[b])
        reach = {0}
        st = [0]
        while st:
            b = st.pop()
            for t in f.succ[b]:
                if (b, t) not in dead and t not in reach:
                    reach.add(t)
                    st.append(t)
        inn[0] = frozenset()
        ch = True
        while ch:
            ch = False
            for b in order:
                if b not in reach:
                    continue
                if b:
                    a, y = full, frozenset()
                    for p in f.pred[b]:
                        if p in reach and (p, b) not in dead:
                            a &= out[p]
                            y |= outy[p]
                    inn[b], iny[b] = a, y
                a, y = inn[b], iny[b]
                for i in f.blocks[b]:
                    g = gen.get(i.id)
                    if g:
                        a |= g
                        y |= g
                if (a, y) != (out[b], outy[b]):
                    out[b], outy[b] = a, y
                    ch = True
        self.ret = None
        self.retw = None
        for b in order:
            if b in reach and f.blocks[b] and f.blocks[b][-1].op == "ret":
                e = out[b] | (outy[b] & may)
                if self.ret is not None and self.ret - e:
                    pass
                self.ret = e if self.ret is None else self.ret & e
        self.gen = gen


def must(g, lv, lvmap, memo):
    key = (g.name, tuple(lv))
    if key not in memo:
        memo[key] = frozenset()
        x = Must(g, lv, lvmap, memo)
        memo[key] = x.ret if x.ret is not None else frozenset()
    return memo[key]


def slice_paths(f, v, depth=0, seen=None):
    """places whose contents the value v is computed from"""
    seen = seen if seen is not None else set()
    if not isinstance(v, int) or v in seen or depth > 40:
        return set()
    seen.add(v)
    i = f.inst.get(v)
    if i is None:
        return {("arg", f.plab.get(v))}
    if i.op == "load":
        return set(f.roots(i.ptr)) | slice_paths(f, i.ptr, depth + 1, seen)
    out = set()
    for o in operands(i):
        out |= slice_paths(f, o, depth + 1, seen)
    return out


def family(m, byclass, cls):
    fam, st, seen = [], [cls], set()
    while st:
        c = st.pop()
        if c in seen:
            continue
        seen.add(c)
        fam += byclass.get(c, [])
        for b in (m.types.get(c) or {}).get("fields", []):
            if b["kind"] == "base" and b["off"] == 0:
                st.append(b.get("key"))
    return fam, seen


def last_constants(f, lv, k):
    """constants leaf k may hold when f returns, None where not constant"""
    n = len(f.blocks)
    out = [None] * n
    st = {}
    for k2, d, i, how in writes(f, lv):
        if k2 == k and not d:
            c = cint(i.val) if how == "store" and len(f.roots(i.ptr)) == 1 else None
            if how == "store" and isinstance(i.val, dict) and c is None:
                c = str(sorted((a, str(b)) for a, b in i.val.items()))
            st[i.id] = ("c", c) if c is not None else ("?",)
    inn = [set() for _ in range(n)]
    outs = [set() for _ in range(n)]
    inn[0] = {("old",)}
    ch = True
    order = sorted(range(n), key=lambda b: f.rpo[b])
    while ch:
        ch = False
        for b in order:
            if b:
                inn[b] = set().union(*[outs[p] for p in f.pred[b]]) if f.pred[b] else set()
            cur = inn[b]
            for i in f.blocks[b]:
                if i.id in st:
                    cur = {st[i.id]}
            if cur != outs[b]:
                outs[b] = set(cur)
                ch = True
    r = set()
    for b, l in enumerate(f.blocks):
        if l and l[-1].op == "ret":
            r |= outs[b]
    return r


def run(ctx):
    r = Result()
    r.rules = ["reset, clear: every member that a mutating operation of the class (or of its bases) changes is given a value again on every returning path, and a constant one gets the constant the constructors give it",
               "copy construction and assignment give every member a value computed from the same member of the source, on every path on which the two objects differ",
               "adding one statistic to another updates each accumulated member from the same member of both, and nothing else",
               "every override of add(value) updates the base statistics exactly once on every returning path"]
    m = ctx.module(ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_state.cpp"), **CFG)
    byclass = {}
    for f in m.fns:
        if f.this_class and (f.file.startswith(m.repo) or f.relfile.endswith("w_state.cpp")):
            byclass.setdefault(f.this_class, []).append(f)
    controls = set()
    memo = {}
    for cls, fns in sorted(byclass.items()):
        wit = fns[0].relfile.endswith("w_state.cpp")
        lv = leaves(ctx, m, cls)
        if not lv:
            continue
        fam, bases = family(m, byclass, cls)
        restore(r, m, cls, fns, fam, lv, memo, wit, controls)
        copies(r, m, cls, fns, lv, memo, wit, controls)
        merges(r, m, cls, fns, lv, wit, controls)
        adders(r, m, cls, fns, bases, byclass, lv, wit, controls)
    want = {"reset BadReset.b", "reset BadReset.v", "value BadValue.lo", "copy BadCopy.b", "copy BadAssign.a", "merge BadMerge.s"}
    missing, extra = want - controls, {c for c in controls if "Good" in c}
    if missing or extra:
        raise AssertionError("positive controls not reported: %s, wrongly reported: %s" % (sorted(missing), sorted(extra)))
    r.counts["positive_controls_fired"] = len(controls)
    r.assumptions = ["kept on purpose: " + "; ".join("%s: %s" % (c, ", ".join(v)) for c, v in sorted(KEPT.items())),
                     "a loop that writes elements of owned storage or of an array covers the elements in use; its bounds are not decided",
                     "Deque copies element by element; that its copy has the same elements is not decided"]
    r.need("restoring_functions", 30)
    r.need("members_to_restore", 100)
    r.need("copying_functions", 10)
    return r


def bad(r, m, f, wit, controls, kind, rule, leaf, text):
    c = "%s %s.%s" % (kind, sclass(f.this_class), leaf)
    if wit:
        controls.add(c)
    else:
        r.violate(rule, "%s:%s" % (f.relfile, f.line), "%s::%s" % (sclass(f.this_class), leaf), text)


def restore(r, m, cls, fns, fam, lv, memo, wit, controls):
    gen = any((f.d.get("sname") or "") == "randInt" for f in fam)
    rs = [f for f in fns if re.match(r"^(reset|clear)$", f.d.get("sname") or "") and not is_ctor(f)]
    if not rs or gen:
        return
    mod = {}
    for f in fam:
        s = f.d.get("sname") or ""
        if is_ctor(f) or is_dtor(f) or f.this_const or re.match(r"^(reset|clear|assign|init)$", s) or CONFIG.match(s) or s.startswith("operator=") or ctor_only(m, f.name):
            continue
        for k, d, i, how in writes(f, lv):
            if d and lv[k][3] not in ("ptr",):
                continue
            mod.setdefault((k, d), "%s (%s)" % (s, i.where(m.repo)))
    kept = KEPT.get(sclass(cls), ())
    ctors = [f for f in fns if is_ctor(f) and "C2E" in f.name and not re.search(r"\b%s\(.*\b%s(<.*>)? const&\)" % (re.escape(sclass(cls)), re.escape(sclass(cls))), f.dem)]
    for f in rs:
        w = must(f, lv, None, memo)
        if Must(f, lv, None, memo).ret is None:
            if not wit:
                r.count("always_fatal")
            continue
        if not wit:
            r.count("restoring_functions")
            r.sample(short(f.dem, 120))
        for (k, d), by in sorted(mod.items()):
            nm = lv[k][2]
            if nm.split(".")[-1] in kept or nm in kept:
                continue
            if lv[k][3] == "ptr" and not d and (k, True) in mod:
                continue        # owned storage: what it holds is judged
            if not wit:
                r.count("members_to_restore")
            if (k, d) not in w and (k, False) not in w:
                bad(r, m, f, wit, controls, "reset", "state-survives", nm + ("[]" if d else ""),
                    "%s can return without giving %s a value again; %s changes it" % (short(f.dem), nm, by))
                continue
            if d or lv[k][3] in ("class", "array"):
                continue
            v = last_constants(f, lv, k)
            if not all(x[0] == "c" for x in v):
                continue
            for c in ctors:
                u = last_constants(c, lv, k)
                if u and all(x[0] == "c" for x in u) and u != v:
                    bad(r, m, f, wit, controls, "value", "other-initial-value", nm,
                        "%s leaves %s at %s, the constructor at %s" % (short(f.dem), nm, sorted(x[1] for x in v), sorted(x[1] for x in u)))


def copies(r, m, cls, fns, lv, memo, wit, controls):
    s = sclass(cls)
    if s == "Deque":
        return
    for f in fns:
        op = (f.d.get("sname") or "") == "operator="
        if not op and not (is_ctor(f) and "C2E" in f.name):
            continue
        ps = f.dem[f.dem.rfind("(") + 1:-1] if f.dem.endswith(")") else ""
        # the parameter is a const reference to the same class
        if not re.search(r"(^|::)%s(<.*>)?(::\w+)* const&$" % re.escape(s), f.dem.rstrip(")").split("(")[-1]) and "(%s const&)" % cls not in f.dem:
            continue
        if not re.sub(r" const&\)$", "", f.dem).endswith("(" + cls) and not re.sub(r" const&\)$", "", f.dem).endswith(cls):
            continue
        if len([p for p in f.params if not p.get("sret")]) != 2:
            continue
        if not wit:
            r.count("copying_functions")

        def only(k, d, i, how):
            if d:
                return False
            off = lv[k][0]
            srcs = set()
            if how == "store":
                srcs = slice_paths(f, i.val)
            else:
                for a in i.args or []:
                    if isinstance(a, int):
                        srcs |= set(f.roots(a)) | slice_paths(f, a)
            for p in srcs:
                if p[0] != ("param", 1):
                    continue
                o = p[1][1] if len(p) > 1 and p[1][0] == "+" else 0
                if lv[k][0] <= o < lv[k][0] + max(1, lv[k][1]) or how == "mem":
                    return True
            return False
        x = Must(f, lv, None, memo, only=only, skip_self=True)
        if x.ret is None:
            continue
        for k, l in enumerate(lv):
            if not wit:
                r.count("members_to_copy")
            if (k, False) not in x.ret:
                bad(r, m, f, wit, controls, "copy", "not-copied", l[2], "%s can finish without taking %s from the same member of its argument" % (short(f.dem), l[2]))


def merges(r, m, cls, fns, lv, wit, controls):
    for f in fns:
        if (f.d.get("sname") or "") != "add" or not re.search(r"\((%s|Stats) const&\)" % re.escape(cls), f.dem) or sclass(cls) not in ("Stats", "BadMerge", "GoodMerge"):
            continue
        if not wit:
            r.count("merging_functions")
        one = [g for g in fns if g.d.get("sname") == "add" and g.dem.endswith("::add(double)")]
        acc = {k for g in one for k, d, i, how in writes(g, lv) if not d}
        got = set()
        for k, d, i, how in writes(f, lv):
            if d or how != "store":
                continue
            src = {(p[0][1], at(lv, p[1][1] if len(p) > 1 and p[1][0] == "+" else 0)) for p in slice_paths(f, i.val) if p[0][0] == "param"}
            guard = set()
            for b, l in enumerate(f.blocks):
                t = l[-1]
                if t.op == "br" and isinstance(t.cond, int) and i.block in t.succ and len(f.pred[i.block]) == 1:
                    guard |= {(p[0][1], at(lv, p[1][1] if len(p) > 1 and p[1][0] == "+" else 0)) for p in slice_paths(f, t.cond) if p[0][0] == "param"}
            al = src | guard
            if al == {(0, k), (1, k)}:
                got.add(k)
            else:
                bad(r, m, f, wit, controls, "merge", "merged-from-elsewhere", lv[k][2], "%s computes %s from other members than %s of both statistics" % (short(f.dem), lv[k][2], lv[k][2]))
        for k in acc - got:
            bad(r, m, f, wit, controls, "merge", "not-merged", lv[k][2], "%s does not bring in %s" % (short(f.dem), lv[k][2]))


def adders(r, m, cls, fns, bases, byclass, lv, wit, controls):
    if "Stats" not in bases or cls == "Stats":
        return
    base = [g for g in byclass.get("Stats", []) if g.dem == "Stats::add(double)"]
    if not base:
        return
    blv = [k for k, l in enumerate(lv) if l[2] in ("number", "sum", "sumsq")]
    for f in fns:
        if f.d.get("sname") not in ("add", "addTimeSeq") or not re.search(r"::(add|addTimeSeq)\(double(, double)?\)$", f.dem):
            continue
        x = Must(f, lv, None, {})
        if x.ret is None:
            continue
        if not wit:
            r.count("adding_functions")
        for k in blv:
            ids = [i for i, g in x.gen.items() if (k, False) in g]
            if ("virtual", False) in x.ret:
                ids += [i for i, g in x.gen.items() if ("virtual", False) in g]
            elif (k, False) not in x.ret:
                bad(r, m, f, wit, controls, "add", "not-counted", lv[k][2], "%s can return without updating %s" % (short(f.dem), lv[k][2]))
            for a in ids:
                for b in ids:
                    ia, ib = f.inst[a], f.inst[b]
                    if a != b and (ia.block == ib.block and ia.idx < ib.idx or ia.block != ib.block and ib.block in f.reachable(ia.block)):
                        bad(r, m, f, wit, controls, "add", "counted-twice", lv[k][2], "%s can update %s twice for one value" % (short(f.dem), lv[k][2]))
