"""C16: construction leaves no member without a value (must-initialise dataflow over every constructor)."""
import concurrent.futures
import re
from lib import build
from lib.ctx import *
from lib.ir import *
from lib.own import is_ctor

# std::vector's own constructors, so that a vector known to be empty is known to have no capacity
VECTOR_CTOR = ["^std::vector<.*>::(vector\\(\\)|capacity)", "^std::_Vector_base<.*>::(_Vector_base\\(\\)|_Vector_impl::_Vector_impl\\(\\)|_Vector_impl_data::_Vector_impl_data\\(\\))"]
# members that every reader sets first (confirmed by reading; helpers a user of the library does not construct)
EXEMPT = {
    ("StatsMaker::statDefT", n): "parameters of the histogram factories, stored together with the factory that reads them"
    for n in ("histmode", "bins", "low", "high", "scalable", "growable")
}
EXEMPT.update({("(anonymous namespace)::BinSearchState", n): "results of calculateBounds(), which runs before each use" for n in ("split_lower", "split_upper")})
EXEMPT.update({("BinSearchState", n): "same" for n in ("split_lower", "split_upper")})
CFG = dict(opaque=ASSERT_OPAQUE, inline=SMALL_STD + VECTOR_CTOR, prepasses=PRE_PASSES, passes=STD_PASSES[:-1] + ",jump-threading,simplifycfg)", types=True, export_repo=True, max_insts=3000)
FOREIGN = re.compile(r"^(std|boost|__gnu_cxx)::")


def leaves(ctx, m, cls, base, out, name, top, depth=0):
    """(offset, size, name) of every scalar and pointer the constructor of cls is responsible for"""
    t = m.types.get(cls)
    if not t or depth > 6:
        return
    for f in t["fields"]:
        off = base + f["off"]
        nm = (name + "." if name else "") + (f["name"] or "")
        if f["kind"] == "base":
            if owns_ctor(ctx, m, f["key"]):
                continue
            leaves(ctx, m, f["key"], off, out, name, False, depth + 1)
        elif (f["name"] or "").startswith("_vptr"):
            continue
        elif f["kind"] in ("scalar", "ptr", "enum", "ref"):
            out.append((off, f["size"], nm))
        elif f["kind"] == "class":
            key = f.get("key") or f["type"]
            if f["type"] in OPAQUE_POD or f.get("tdef") in OPAQUE_POD:
                out.append((off, f["size"], nm + " (" + (f.get("tdef") or f["type"]) + ")"))
                continue
            if owns_ctor(ctx, m, key) or FOREIGN.match(key) or key not in m.types:
                continue
            leaves(ctx, m, key, off, out, nm, False, depth + 1)
        elif f["kind"] == "array":
            out.append((off, f["size"], nm + "[]"))


OPAQUE_POD = {"pthread_mutex_t", "pthread_cond_t", "pthread_attr_t", "pthread_rwlock_t", "pthread_mutexattr_t", "sigset_t", "__sigset_t"}


def owns_ctor(ctx, m, t):
    c = ctx.classes().get(t)
    if not c:
        return bool(FOREIGN.match(t)) or t in ("noncopyable",)
    return bool(c[0].get("user_ctor"))


def offset(p):
    """offset inside *this of a place, or None"""
    if p[0] != ("param", 0):
        return None
    if len(p) == 1:
        return 0
    if len(p) == 2 and p[1][0] == "+":
        return p[1][1]
    return None


class Init:
    """must-initialised leaves at each block (bit sets), merging by intersection; may-initialised by union"""

    def __init__(self, f, lv, m, memo):
        self.f, self.lv, self.m, self.memo = f, lv, m, memo
        full = (1 << len(lv)) - 1
        n = len(f.blocks)
        must = [full] * n
        may = [0] * n
        must[0] = 0
        self.reads = {}
        self.some = {}      # members read where only some paths have given them a value
        changed = True
        order = sorted(range(n), key=lambda b: f.rpo[b])
        outm, outy = [full] * n, [0] * n
        while changed:
            changed = False
            for b in order:
                if b != 0:
                    ps = [p for p in f.pred[b]]
                    a = full
                    y = 0
                    for p in ps:
                        a &= outm[p]
                        y |= outy[p]
                    if not ps:
                        a = full
                    must[b], may[b] = a, y
                a, y = must[b], may[b]
                for i in f.blocks[b]:
                    g = self.gen(i)
                    a |= g
                    y |= g
                if (a, y) != (outm[b], outy[b]):
                    outm[b], outy[b] = a, y
                    changed = True
        self.ret = None
        arrays = 0
        for k, (o, s, n) in enumerate(lv):
            if n.endswith("[]"):
                arrays |= 1 << k
        for b in order:
            a, y = must[b], may[b]
            for i in f.blocks[b]:
                if i.op == "load":
                    for k in self.reading(i):
                        if not (y >> k) & 1:
                            self.reads.setdefault(k, i)
                        elif not (a >> k) & 1:
                            self.some.setdefault(k, set()).add(i.id)
                g = self.gen(i)
                a |= g
                y |= g
                if i.op == "ret":
                    e = a | (y & arrays)      # arrays are filled by loops
                    self.ret = e if self.ret is None else self.ret & e

    def early(self, k):
        """a read of leaf k on a feasible path that has not written it"""
        bit, hit = 1 << k, []

        def step(ins, fact, env):
            if ins.op == "load" and not fact and ins.id in self.some[k]:
                hit.append(ins)
            if ins.op == "invoke":      # leaving by an exception, the callee may have stopped before storing
                return [(kind, 1 if fact or kind == "n" and self.gen(ins) & bit else 0, asm) for kind, _, asm in outcomes(ins, fact)]
            if not fact and self.gen(ins) & bit:
                fact = 1
            return outcomes(ins, fact)
        try:
            Explore(self.f, 0, step, limit=30000)
        except OverflowError:
            return None
        return hit[0] if hit else None

    def cover(self, off, size):
        r = 0
        for k, (o, s, n) in enumerate(self.lv):
            if off <= o and o + s <= off + size or (n.endswith("[]") and o <= off < o + s):
                r |= 1 << k
        return r

    def reading(self, i):
        p = self.f.path(i.ptr)
        o = offset(p)
        if o is None or i.ty is None:
            return []
        return [k for k, (lo, s, n) in enumerate(self.lv) if lo <= o < lo + s and not n.endswith("[]")]

    def gen(self, i):
        f = self.f
        if i.op == "store":
            p = f.path(i.ptr)
            if p[0] != ("param", 0):
                return 0
            o = offset(p)
            if o is None:
                if len(p) >= 2 and p[-1][0] == "[]" and not any(x[0] == "*" for x in p):
                    return self.cover(p[1][1] if p[1][0] == "+" else 0, 1)
                return 0
            if isinstance(i.val, dict) and i.val.get("k") in ("undef", "poison"):
                return 0
            return self.cover(o, tysize(i.d.get("vty") or "", f, i))
        if i.op in ("atomicrmw", "cmpxchg"):
            return 0
        if i.is_call:
            it = i.d.get("intr") or ""
            args = i.args or []
            if it.startswith("llvm.mem"):
                o = offset(f.path(args[0])) if isinstance(args[0], int) else None
                if o is None:
                    return 0
                n = cint(args[2])
                return self.cover(o, n) if n is not None else self.cover(o, 1 << 30) if o else self.cover(o, 1)
            if it:
                return 0
            r = 0
            for k, a in enumerate(args):
                if not isinstance(a, int):
                    continue
                p = f.path(a)
                if p[0] != ("param", 0) or any(x[0] == "*" for x in p[1:]):
                    continue
                o = offset(p)
                if o is None:
                    o = p[1][1] if p[1][0] == "+" else 0
                g = self.m.by_name.get(i.d.get("fn") or "")
                if g is not None and k < len(g.params):
                    r |= self.summary(g, k, o)
                elif o > 0 or (i.d.get("fn") and not re.search(r"[CD][0-3]E", i.d["fn"])):
                    # the address of one member, or the object, handed to code outside the library
                    r |= self.member(o)
            return r
        return 0

    def member(self, o):
        """an outside function given the address of a member initialises that member"""
        best = 0
        for k, (lo, s, n) in enumerate(self.lv):
            if lo <= o < lo + s:
                best |= 1 << k
        return best

    def summary(self, g, k, o):
        """leaves that g certainly initialises through its k-th parameter pointing at offset o"""
        key = (g.name, k, o, tuple(self.lv))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (1 << len(self.lv)) - 1      # recursion: the greatest fixed point
        if g.plab.get(g.params[k]["id"]) != 0:
            # not through 'this': any store through it counts
            r = 0
            for i in g.insts():
                if i.op == "store":
                    p = g.path(i.ptr)
                    if p[0] == ("param", g.plab[g.params[k]["id"]]) and len(p) <= 2 and all(x[0] == "+" for x in p[1:]):
                        r |= self.cover(o + (p[1][1] if len(p) > 1 else 0), tysize(i.d.get("vty") or "", g, i))
            self.memo[key] = r
            return r
        sub = [(lo - o, s, n) for lo, s, n in self.lv]
        while True:
            was = self.memo[key]
            e = Init(g, sub, self.m, self.memo)
            self.memo[key] = was & (e.ret if e.ret is not None else was)
            if self.memo[key] == was:
                return was


def tysize(t, f, i):
    mm = re.match(r"^i(\d+)$", t)
    if mm:
        return max(1, int(mm.group(1)) // 8)
    return {"ptr": 8, "double": 8, "float": 4, "x86_fp80": 16}.get(t, 8 if not t else vec(t))


def vec(t):
    mm = re.match(r"^<(\d+) x (\w+)>$", t)
    if mm:
        return int(mm.group(1)) * tysize(mm.group(2), None, None)
    return 8


def run(ctx):
    r = Result()
    r.rules = ["on every normal path through a constructor every scalar, pointer and array member the class declares (also inside members and bases that have no constructor of their own) is written",
               "a constructor never reads a member that no path has written yet",
               "no function reads a local variable that has no value (the compiler's definite analysis)"]
    bcs = ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_init.cpp")
    m = ctx.module(bcs, **CFG)
    controls = set()
    memo = {}
    done = set()
    for f in m.fns:
        if not is_ctor(f) or "C1E" in f.name and f.name.replace("C1E", "C2E") in m.by_name:
            continue
        wit = f.relfile.endswith("w_init.cpp")
        if not f.file.startswith(m.repo) and not wit:
            continue
        lv = []
        leaves(ctx, m, f.this_class, 0, lv, "", True)
        lv = [x for x in lv if x[1] > 0]
        e = Init(f, lv, m, memo)
        if not wit:
            r.count("constructors")
            r.count("members", len(lv))
        for k, (o, s, n) in enumerate(lv):
            if e.ret is not None and not (e.ret >> k) & 1:
                if (f.this_class, n) in EXEMPT:
                    r.count("exempt")
                    continue
                ctl(f, controls, n) or r.violate("member-without-value", "%s:%s" % (f.relfile, f.line), "%s::%s" % (f.this_class, n),
                                                 "%s can finish without giving %s a value" % (short(f.dem), n))
        for k in e.some:
            i = e.early(k) if k not in e.reads else None
            if i is not None:
                e.reads[k] = i
        for k, i in e.reads.items():
            ctl(f, controls, "read " + lv[k][2]) or r.violate("member-read-early", i.where(m.repo), "%s::%s" % (f.this_class, lv[k][2]),
                                                              "%s reads %s before anything gave it a value" % (short(f.dem), lv[k][2]))

    def check(s):
        fl = [x for x in ctx.work.flags(False) if x != "-w"]
        return build.sh(["clang++-18"] + fl + ["-fsyntax-only", "-Wno-everything", "-Wuninitialized", "-Wsometimes-uninitialized", "-fno-caret-diagnostics", s]).stdout
    srcs = ctx.work.lib_sources() + [build.VERIF + "/witness/w_all.cpp", build.VERIF + "/witness/w_init.cpp"]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for o in ex.map(check, srcs):
            for l in o.splitlines():
                mm = re.match(r"^(.*?):(\d+):\d+: (?:warning|error): (.*)$", l)
                if mm:
                    if mm.group(1).endswith("w_init.cpp"):
                        controls.add("local")
                    elif mm.group(1).startswith(m.repo):
                        r.violate("local-without-value", "%s:%s" % (mm.group(1).replace(m.repo, ""), mm.group(2)), "local variable", mm.group(3))
    r.counts["units_checked_for_locals"] = len(srcs)
    missing = {"BadInit.b", "BadInit.pod.y", "BadPath.p", "BadRead.read n", "local"} - controls
    extra = {c for c in controls if c.startswith("Good")}
    if missing or extra:
        raise AssertionError("positive controls not reported: %s, wrongly reported: %s" % (sorted(missing), sorted(extra)))
    r.counts["positive_controls_fired"] = len(controls)
    r.need("constructors", 60)
    r.need("members", 150)
    r.assumptions = ["a member of a library type with a constructor of its own is judged at that constructor; members of standard and boost types by their own",
                     "an array member counts as filled when any path of the constructor stores into it (loops fill arrays)",
                     "a function outside the library given the address of a member gives it a value",
                     "exempt by name: " + "; ".join(sorted({"%s::%s (%s)" % (a, b, t) for (a, b), t in EXEMPT.items() if t != "same"}))]
    return r


def ctl(f, controls, n):
    if f.relfile.endswith("w_init.cpp"):
        controls.add("%s.%s" % (f.this_class.split("::")[-1], n))
        return True
    return False
