"""C08: a byte buffer keeps its readable bytes and never changes another's (sharing typestate + linear region accounting)."""
import re
from lib import build
from lib.ctx import *
from lib.ir import *
from lib.lin import *
from lib.own import is_ctor, is_dtor, strip_templates

SHARED = r"(void )?(boost|std)::shared_ptr<"
CFG = dict(opaque=ASSERT_OPAQUE + [r"^(lintel|wit)::(\w+::)?(Bad|Good)?NoCopyByteBuffer::", "^" + SHARED], inline=SMALL_STD + [r"^(unsigned long|.*) const& std::(max|min)<"], prepasses=PRE_PASSES,
           passes=STD_PASSES, types=True, export_repo=True, max_insts=6000)
INNER_CFG = dict(opaque=ASSERT_OPAQUE + [r"^LintelLog::", r"^boost::"], inline=SMALL_STD, prepasses=PRE_PASSES, passes=STD_PASSES, types=True, export_repo=True, max_insts=3000)
REP = re.compile(r"^" + SHARED + r".*NoCopyByteBuffer>::")
INNER = re.compile(r"^(?:lintel|wit)::NoCopyByteBuffer::(~?\w+)\(")
SHARES = {"operator=", "swap"}          # operations whose purpose is to share or exchange
REPLACES = {"operator=", "swap", "detach"}
DROPS = {"reset", "purge", "assign", "detach", "operator=", "swap"}
RAW = re.compile(r"^(_Znwm|_Znam|_ZnwmRKSt9nothrow_t)$")


def owner(f):
    return strip_templates(f.this_class or "").split("::")[-1]


class Share(Explore):
    """status of every reference-counted pointer to a buffer: 'S' may be shared, 'U' sole owner (tested), 'F' freshly made here"""

    def __init__(self, f, m, r, report):
        self.f, self.m, self.r, self.report = f, m, r, report
        self.this_rep, self.allow = rep_places(m, f)
        Explore.__init__(self, f, (frozenset(), frozenset(), frozenset()), self.step, limit=60000)

    # fact = (places, bound, flags): places {(place, status)}, bound {(call id, place | 'stale' | 'fresh')}, flags
    def stat(self, fact, pl):
        for a, s in fact[0]:
            if a == pl:
                return s
        return "S"

    def setstat(self, fact, pl, s, stale):
        places = frozenset((a, t) for a, t in fact[0] if a != pl) | ({(pl, s)} if s != "S" else frozenset())
        bound = frozenset((c, "stale" if b == pl and stale else b) for c, b in fact[1])
        return (places, bound, fact[2])

    def flag(self, fact, *fl):
        return (fact[0], fact[1], fact[2] | frozenset(fl))

    def bound(self, fact, v):
        """what the buffer pointer v refers to"""
        out = set()
        for p in self.f.roots(v):
            if p[0][0] == "call":
                for c, b in fact[1]:
                    if c == p[0][1] and len(p) == 1:
                        out.add(b)
        return out.pop() if len(out) == 1 else None

    def desc(self, fact, v):
        """('readAvailable', place) for the result of a question to a buffer; the value itself otherwise"""
        i = self.f.inst.get(v) if isinstance(v, int) else None
        if i is not None and i.is_call:
            mm = INNER.match(i.d.get("dem") or "")
            if mm and i.args:
                b = self.bound(fact, i.args[i.this_arg])
                if b is not None:
                    return (mm.group(1), b) + tuple(self.desc(fact, a) for a in i.args[i.this_arg + 1:])
        if isinstance(v, dict):
            return ("const", cint(v))
        return ("val", v)

    def step(self, i, fact, env):
        f = self.f
        if i.op == "alloca" or not i.is_call:
            if i.op == "store":
                self.raw_write(fact, i, i.ptr)
            return [("n", fact, None)]
        dem = i.d.get("dem") or ""
        name = i.d.get("fn") or ""
        it = i.d.get("intr") or ""
        if RAW.match(name):
            g = (fact[0], fact[1] | {(i.id, "fresh")}, fact[2])
            return [("n", g, None), ("x", fact, None)]
        if REP.match(dem):
            return self.pointer_op(i, dem, fact)
        mm = INNER.match(dem)
        if mm and i.args:
            return self.buffer_op(i, mm.group(1), fact)
        if it.startswith("llvm.mem"):
            self.raw_write(fact, i, i.args[0])
            if it.startswith(("llvm.memcpy", "llvm.memmove")):
                d, s, n = (self.desc(fact, a) for a in i.args[:3])
                if d[0] in ("writeStart", "writeableReadStart") and s[0] == "readStart" and n == ("readAvailable", s[1]) and s[1] != d[1]:
                    if d[0] == "writeableReadStart" or d[2:] == (n,):
                        fact = self.flag(fact, ("copied", d[1], s[1]))
            return [("n", fact, None)]
        if dem.startswith("lintel::ByteBuffer::") or dem.startswith("wit::"):
            # an operation of its own kind that was not inlined: pointers taken before may be stale
            if i.args and (("param", 0),) in f.roots(i.args[i.this_arg]) and not name.startswith("_ZNK"):
                fact = (fact[0], frozenset((c, "stale" if b == self.this_rep else b) for c, b in fact[1]), fact[2])
        return outcomes(i, fact)

    def raw_write(self, fact, i, ptr):
        """a store through a pointer that came from a read-only view of the bytes"""
        if not isinstance(ptr, int):
            return
        for p in self.f.roots(ptr):
            if p[0][0] == "call":
                c = self.f.inst[p[0][1]]
                mm = INNER.match(c.d.get("dem") or "")
                if mm and c.d.get("fn", "").startswith("_ZNK"):
                    self.report("shared-write", i, "bytes are written through the read-only view %s()" % mm.group(1))
                if len(p) == 1 or p[1:] and p[1][0] == "+" and len(p) == 2:
                    if self.bound(fact, p[0][1]) is not None and REP.match(c.d.get("dem") or ""):
                        self.mutate(fact, i, p[0][1], "a field of it is written")

    def mutate(self, fact, i, v, what):
        self.r.count("buffer_changes_judged")
        b = self.bound(fact, v)
        if b == "fresh":
            return
        if b == "stale":
            self.report("shared-write", i, "%s on a buffer that was replaced or may be shared since the pointer was taken" % what)
        elif b is None:
            pl = {p for p in self.f.roots(v)}
            if all(p[0][0] == "call" and RAW.match(self.f.inst[p[0][1]].d.get("fn") or "") for p in pl):
                return
            self.report("shared-write", i, "%s on a buffer not known to be unshared" % what)
        elif self.stat(fact, b) == "S":
            self.report("shared-write", i, "%s while other copies may share the buffer" % what)

    def buffer_op(self, i, meth, fact):
        this = i.args[i.this_arg]
        if meth.startswith("~") or meth == "NoCopyByteBuffer":
            return outcomes(i, fact)
        if not i.d.get("fn", "").startswith("_ZNK"):
            self.mutate(fact, i, this, meth + "()")
        return outcomes(i, fact)

    def pointer_op(self, i, dem, fact):
        f = self.f
        meth = re.sub(r"<[^()]*$", "", dem[REP.match(dem).end():].split("(")[0])
        op = "operator" + dem.split("::operator")[-1].split("(")[0] if "::operator" in dem else meth
        if not isinstance(i.args[i.this_arg], int):
            return outcomes(i, fact)
        pl = self.one(f.roots(i.args[i.this_arg]))
        a = i.args[i.this_arg + 1:]
        self.r.count("sharing_operations")
        if op in ("operator->", "operator*", "get"):
            return [("n", (fact[0], frozenset(x for x in fact[1] if x[0] != i.id) | {(i.id, pl)}, fact[2]), None)]
        if op in ("unique", "use_count", "operator bool", "operator!"):
            return [("n", fact, None)]
        if op.startswith("~"):
            # dropping the local pointer that shared a fresh buffer
            sh = {x[2] for x in fact[2] if x[0] == "with" and x[1] == pl}
            g = self.setstat(fact, pl, "S", True)
            return [("n", (g[0], g[1], frozenset(x for x in g[2] if not (x[0] == "with" and x[1] == pl))), None)]
        if op in ("shared_ptr", "reset", "operator=") and not a:
            g = self.setstat(fact, pl, "F", True)
            return [("n", g, None)]
        if op in ("shared_ptr", "reset", "operator=") and a:
            src = a[0]
            if isinstance(src, dict) or self.raw(src):
                g = self.setstat(fact, pl, "F", True)
                g = self.took(g, pl, "fresh", i)
                for c in [x for x in f.roots(src)] if isinstance(src, int) else []:
                    if c[0][0] == "call":
                        g = (g[0], frozenset((k, pl if k == c[0][1] else b) for k, b in g[1]), g[2])
                return [("n", g, None), ("x", fact, None)]
            q = self.one(f.roots(src))
            s = self.stat(fact, q)
            g = self.setstat(fact, pl, "F" if s == "F" else "S", True)
            g = self.took(g, pl, q if s == "F" else "share", i)
            return [("n", g, None)] if "operator=" in op or i.d.get("nothrow") else [("n", g, None), ("x", fact, None)]
        if op == "swap" and a:
            q = self.one(f.roots(a[0]))
            s, t = self.stat(fact, pl), self.stat(fact, q)
            g = self.setstat(self.setstat(fact, pl, t, True), q, s, True)
            if pl == self.this_rep:
                g = self.took(g, pl, q if t == "F" else "share", i)
            elif q == self.this_rep:
                g = self.took(g, q, pl if s == "F" else "share", i)
            return [("n", g, None)]
        return outcomes(i, fact)

    def raw(self, v):
        return all(p[0][0] == "call" and RAW.match(self.f.inst[p[0][1]].d.get("fn") or "") for p in self.f.roots(v))

    def one(self, s):
        return next(iter(s)) if len(s) == 1 else ("many",)

    def took(self, fact, pl, src, i):
        if pl != self.this_rep or is_ctor(self.f) or is_dtor(self.f):
            return fact
        name = self.f.d.get("sname") or ""
        if src == "share":
            if name not in SHARES:
                self.report("shares", i, "starts to share another buffer's bytes, although it is to hold a copy of its own")
            return fact
        fl = fact[2]
        if name not in REPLACES and name != "forceUnique" and ("allowed",) not in fl:
            self.report("refusal", i, "a shared buffer is copied although copying may not be allowed")
        if name not in DROPS and ("copied", src, pl) not in fl:
            self.report("copy", i, "the bytes that were readable are not all copied to the buffer's own storage (readAvailable() bytes from readStart())")
        self.r.count("copies_on_write")
        # the new buffer is the one questions are asked of from now on
        return (fact[0], fact[1], frozenset(x for x in fl if x[0] != "copied"))

    def on_edge(self, ins, truth, fact, env):
        if not isinstance(truth, bool):
            return fact
        return self.cond(fact, ins.cond, truth)

    def cond(self, fact, v, truth):
        f = self.f
        i = f.inst.get(v) if isinstance(v, int) else None
        if i is None:
            return fact
        if i.op == "xor" and cint(i.d["ops"][1]) == -1:
            return self.cond(fact, i.d["ops"][0], not truth)
        if i.op in ("trunc", "freeze", "zext"):
            return self.cond(fact, i.d["ops"][0], truth)
        if i.op == "load":
            if f.path(i.ptr) == self.allow and truth:
                return self.flag(fact, ("allowed",))
            return fact
        if i.op in ("and", "or", "select") and i.ty == "i1":
            o = i.d["ops"]
            if i.op == "and" and truth or i.op == "or" and not truth:
                g = self.cond(fact, o[0], truth)
                return g and self.cond(g, o[1], truth)
            if i.op == "select":
                if truth and cint(o[1]) == -1:
                    return self.either(fact, self.cond(fact, o[0], True), self.cond(fact, o[2], True))
                if not truth and cint(o[2]) == 0:
                    return self.either(fact, self.cond(fact, o[0], False), self.cond(fact, o[1], False))
                if truth and cint(o[1]) == 0 or not truth and cint(o[2]) == -1:
                    g = self.cond(fact, o[0], not truth)
                    return g and self.cond(g, o[2] if truth else o[1], truth)
                if truth and cint(o[2]) == 0 or not truth and cint(o[1]) == -1:
                    g = self.cond(fact, o[0], truth)
                    return g and self.cond(g, o[1] if truth else o[2], truth)
            elif len(o) == 2:
                return self.either(fact, self.cond(fact, o[0], truth), self.cond(fact, o[1], truth))
            return fact
        if i.is_call and REP.match(i.d.get("dem") or "") and "::unique()" in i.d["dem"]:
            return self.known(fact, i, truth)
        if i.op == "icmp":
            a, b = i.d["ops"]
            c = cint(b)
            ai = f.inst.get(a) if isinstance(a, int) else None
            if ai is None or c is None:
                return fact
            if i.pred in ("eq", "ne"):
                eq = truth == (i.pred == "eq")
                if ai.is_call and "::use_count()" in (ai.d.get("dem") or "") and c == 1:
                    return self.known(fact, ai, eq)
                if c == 0 and ai.op == "load" and f.path(ai.ptr) == self.allow and not eq:
                    return self.flag(fact, ("allowed",))
                if c == 0 and eq and self.desc(fact, a)[:2] == ("bufferSize", self.this_rep):
                    return self.flag(fact, ("allowed",))
                if c == 0 and ai.ty == "i1":
                    return self.cond(fact, a, not eq)
            if ai.is_call and "::use_count()" in (ai.d.get("dem") or ""):
                p = i.pred
                if (p in ("sgt", "ugt") and c == 1 and not truth) or (p in ("slt", "ult") and c == 2 and truth):
                    return self.known(fact, ai, True)
            none = (i.pred == "ugt" and c == 0 and not truth) or (i.pred == "ult" and c == 1 and truth) or (i.pred == "ule" and c == 0 and truth) or (i.pred == "uge" and c == 1 and not truth)
            if none and self.desc(fact, a)[:2] == ("bufferSize", self.this_rep):
                return self.flag(fact, ("allowed",))
        return fact

    def either(self, fact, a, b):
        """what holds when one of two conditions does"""
        if a is None or b is None:
            return b if a is None else a
        if a[:2] == b[:2]:
            return (a[0], a[1], a[2] & b[2])
        return fact

    def known(self, fact, call, unique):
        pl = self.one(self.f.roots(call.args[call.this_arg]))
        s = self.stat(fact, pl)
        if not unique:
            # no one else can have got hold of a buffer this operation tested or made
            return None if s in ("U", "F") else fact
        if s == "S":
            return self.setstat(fact, pl, "U", False)
        return fact


def rep_places(m, f):
    t = m.types.get(f.this_class) or {"fields": []}
    rep = allow = None
    for x in t["fields"]:
        at = lambda o: (("param", 0),) + ((("+", o),) if o else ())
        if "shared_ptr" in (x.get("type") or "") + (x.get("key") or ""):
            rep = at(x["off"])
        elif x["size"] == 1 and (allow is None or x["name"] == "allow_copy_on_write"):
            allow = at(x["off"])
    return rep, allow


# ---- the regions of the underlying storage -------------------------------------------------------------------------

class Regions:
    """new values of the four members after each path, against their values before"""

    def __init__(self, m, f):
        t = m.types.get(f.this_class)
        self.off = {x["name"]: x["off"] for x in t["fields"]} if t else {}
        names = {"byte_data", "data_size", "front", "back"}
        if not names <= set(self.off):
            # members renamed: take their roles from the questions the class answers
            one = {}
            for g in m.fns:
                if g.this_class == f.this_class and g.d.get("sname") in ("bufferSize", "readAvailable"):
                    v = LinPaths(g).done[0].ret
                    for a, k in v[1] if v else []:
                        if a[0] == "in":
                            one[{("bufferSize", 1): "data_size", ("readAvailable", 1): "back"}.get((g.d["sname"], k), "front")] = a[1][1]
            for x in t["fields"] if t else []:
                if x["kind"] == "ptr":
                    one["byte_data"] = x["off"]
            self.off = one
        self.f, self.m = f, m

    def before(self, n):
        return lin(0, ("in", (("param", 0), self.off[n])))

    def after(self, p, n):
        return p.mem.get((("param", 0), self.off[n]), self.before(n))


def region_rules(r, m, f, report):
    name = f.d.get("sname") or ""
    R = Regions(m, f)
    if not {"byte_data", "data_size", "front", "back"} <= set(R.off):
        raise build.AnalysisBroken("members of %s not found" % f.this_class)
    L = LinPaths(f)
    p0, d0, f0, b0 = (R.before(n) for n in ("byte_data", "data_size", "front", "back"))
    arg = lin(0, ("arg", 1))
    have = add(b0, f0, -1)
    paths = 0
    for p in L.done:
        paths += 1
        P, D, F, B = (R.after(p, n) for n in ("byte_data", "data_size", "front", "back"))
        left = add(B, F, -1)
        frees = [e for e in p.events if e[0] in ("_ZdaPv", "_ZdaPvm")]
        news = {("val", e[1].id): e for e in p.events if e[0] == "_Znam"}
        moves = [e for e in p.events if e[0].startswith(("llvm.memcpy", "llvm.memmove"))]

        def bad(rule, text, i=None):
            report(rule, i or p.inst, text)
        # answers
        want = {"readAvailable": have, "readStart": add(p0, f0), "writeableReadStart": add(p0, f0), "writeAvailable": add(d0, b0, -1), "bufferSize": d0}.get(name)
        if want is not None and p.ret != want:
            bad("answer", "%s() does not answer from the current regions" % name)
        if name == "empty":
            v = p.inst.d["ops"][0]
            q = f.inst.get(v) if isinstance(v, int) else None
            ok = False
            if q is not None and q.op == "icmp" and q.pred in ("eq", "ne"):
                dd = add(L.ev(p, q.d["ops"][0]), L.ev(p, q.d["ops"][1]), -1)
                ok = q.pred == "eq" and dd in (have, add(f0, b0, -1))
            elif p.ret is not None and not p.ret[1]:
                dec = L.decide(p, "eq", f0, b0)
                ok = dec is not None and dec == bool(p.ret[0] & 1)
            if not ok:
                bad("answer", "empty() does not tell whether readable bytes are left")
        if name in ("readAvailable", "readStart", "writeAvailable", "bufferSize", "empty", "writeableReadStart"):
            if (P, D, F, B) != (p0, d0, f0, b0):
                bad("answer", "the question changes the regions")
            continue
        # what is freed, what is held
        if P == p0:
            if D != d0:
                bad("storage", "the recorded size of the storage changes but the storage does not")
            if frees:
                bad("storage", "the storage still in use is freed", frees[0][1])
        else:
            if not any(e[2][0] == p0 for e in frees) and not L.eq(p, p0, lin(0)):
                bad("storage", "the storage that is replaced is not freed")
            if P == lin(0):
                if D != lin(0):
                    bad("storage", "no storage is left but its recorded size is not 0")
            else:
                a = next(iter(P[1]))[0] if len(P[1]) == 1 and P[0] == 0 else None
                if a not in news:
                    bad("storage", "the new storage was not allocated here")
                elif news[a][2][0] != D:
                    bad("storage", "the recorded size differs from the size of the new storage", news[a][1])
        freed_at = min([p.events.index(e) for e in frees], default=10 ** 9)
        for e in moves:
            dst, src, n = e[2][:3]
            if p.events.index(e) > freed_at:
                bad("storage", "bytes are moved after the storage was freed", e[1])
            if src == add(p0, f0) and dst == add(P, F):
                if e[0].startswith("llvm.memcpy") and P == p0 and F != f0:
                    bad("keep", "overlapping bytes are moved with memcpy", e[1])
            else:
                bad("keep", "bytes are moved from or to a place that is not the start of the readable region", e[1])
        kept_all = False
        if P == p0 and F == f0 and not moves:
            kept_all = True
        elif any(e[2][0] == add(P, F) and e[2][1] == add(p0, f0) and e[2][2] == have for e in moves):
            kept_all = True
        none_before = L.eq(p, f0, b0)
        if name in ("reset", "purge"):
            if left != lin(0):
                bad("regions", "readable bytes are left after %s()" % name)
            if name == "purge" and (P != lin(0) or D != lin(0) or F != lin(0)):
                bad("storage", "purge() keeps storage or its recorded size")
            if name == "reset" and F != lin(0):
                bad("regions", "reset() leaves space at the front unavailable")
            continue
        delta = {"extend": arg, "writeStart": arg, "unextend": scale(arg, M64), "consume": scale(arg, M64)}.get(name, lin(0))
        if name == "consume":
            whole = L.eq(p, have, arg) and L.eq(p, F, B)
            if P != p0 or moves or not whole and (B != b0 or F != add(f0, arg)):
                bad("regions", "consume() does not drop exactly the bytes asked from the start of the readable region")
            continue
        if left != add(have, delta) and not (none_before and L.eq(p, left, delta)):
            bad("regions", "%s() does not leave %s readable bytes" % (name, "the old number of" if delta == lin(0) else "the old number %s amount" % ("+" if delta == arg else "-")))
        elif not kept_all and not (none_before and L.eq(p, left, delta)):
            bad("keep", "%s() does not keep every readable byte" % name)
        if name in ("extend", "writeStart") and not L.le(p, arg, add(d0, b0, -1)):
            bad("bounds", "%s() lets the readable region grow past the storage" % name)
        if name == "unextend" and not L.le(p, arg, have):
            bad("bounds", "unextend() removes more than is readable")
        if name == "writeStart" and p.ret != add(P, add(B, arg, -1)):
            bad("answer", "writeStart() does not return the start of the bytes it makes readable")
        if name in ("resizeBuffer", "shift") and F != lin(0):
            if not (L.eq(p, f0, lin(0)) or L.le(p, f0, lin(0)) and F == f0):
                bad("regions", "%s() leaves the readable region away from the start of the storage" % name)
        if name == "resizeBuffer":
            if not L.eq(p, D, arg):
                bad("storage", "resizeBuffer() does not give the storage the size asked for")
            if P != p0 and not L.le(p, have, arg) and not none_before:
                bad("bounds", "resizeBuffer() may make the storage smaller than the readable bytes")
            if P == p0 and not any(x == "eq" and not t and {a, b} == {p0, lin(0)} for x, a, b, t in p.conds):
                bad("storage", "after resizeBuffer() the buffer may have no storage")
    r.count("region_paths", paths)


def append_rules(r, f, m, report):
    """bytes the buffer takes in: exactly the ones made readable, and inside the region they go to"""
    for i in f.calls():
        dem = i.d.get("dem") or ""
        if (i.d.get("intr") or "").startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            d, n = i.args[0], i.args[2]
        elif re.match(r"^std::(basic_)?istream(<.*>)?::read(some)?\(|^fread|^read$", dem or i.d.get("fn") or ""):
            d, n = i.args[1], i.args[2]
        else:
            continue
        if not isinstance(d, int):
            continue
        for p in [p for p in f.roots(d)]:
            if p[0][0] != "call":
                continue
            c = f.inst[p[0][1]]
            mm = INNER.match(c.d.get("dem") or "")
            if not mm or mm.group(1) not in ("writeStart", "writeableReadStart"):
                continue
            r.count("bytes_taken_in")
            if mm.group(1) == "writeStart":
                k = c.args[c.this_arg + 1]
                if len(p) > 1:
                    report("taken-in", i, "bytes are written at a distance from the start of the new region")
                elif not same(f, k, n) and not (cint(k) == 0 and room(f, i, n)):
                    report("taken-in", i, "the number of bytes written is not known to fit in, or differs from the number made readable")
            else:
                g = f.inst.get(d)
                off = None
                if g is not None and g.op == "getelementptr" and g.off == 0 and len(g.var or []) == 1 and g.var[0][1] == 1:
                    off = g.var[0][0]
                elif not (len(p) == 1):
                    report("taken-in", i, "bytes are written to a place in the readable region that is not understood")
                    continue
                if not inside(f, i, off, n):
                    report("taken-in", i, "the bytes replaced are not known to lie inside the readable region")


def read_rules(r, f, report):
    """whoever is shown the readable bytes is told exactly how many there are"""
    for i in f.calls():
        it = i.d.get("intr") or ""
        if INNER.match(i.d.get("dem") or "") or REP.match(i.d.get("dem") or "") or it and not it.startswith("llvm.mem"):
            continue
        views = []
        for k, a in enumerate(i.args or []):
            if isinstance(a, int) and question(f, base(f, a)) == "readStart":
                views.append(k)
        if not views or it:
            continue
        r.count("bytes_shown")
        for k in views:
            c = f.inst[base(f, i.args[k])]
            if not any(isinstance(n, int) and question(f, n) == "readAvailable" and same_buffer(f, f.inst[n], c) or end_of(f, n, c) for n in i.args if n != i.args[k]):
                # both sizes known equal
                if not any(isinstance(n, int) and question(f, n) == "readAvailable" and equal_sizes(f, i, f.inst[n], c) for n in i.args):
                    report("shown", i, "the readable bytes are handed on without their exact number")


def base(f, v):
    i = f.inst.get(v) if isinstance(v, int) else None
    while i is not None and (i.op in ("bitcast", "freeze") or i.op == "getelementptr" and i.off == 0 and not i.var):
        v = i.d["ops"][0] if i.op != "getelementptr" else i.base
        i = f.inst.get(v) if isinstance(v, int) else None
    return v


def same_buffer(f, a, b):
    return objs(f, a) == objs(f, b)


def objs(f, c):
    o = set()
    for z in f.roots(c.args[c.this_arg]):
        if z[0][0] == "call" and len(z) == 1:
            o.add(frozenset(f.roots(f.inst[z[0][1]].args[f.inst[z[0][1]].this_arg])))
        else:
            o.add(z)
    return o


def end_of(f, v, c):
    g = f.inst.get(v) if isinstance(v, int) else None
    if g is None or g.op != "getelementptr" or len(g.var or []) != 1 or g.var[0][1] != 1:
        return False
    n = g.var[0][0]
    return question(f, base(f, g.base)) == "readStart" and same_buffer(f, f.inst[base(f, g.base)], c) and question(f, n) == "readAvailable" and same_buffer(f, f.inst[n], c)


def equal_sizes(f, at, n, c):
    """on every way to `at` readAvailable() of n's buffer was found equal to that of c's"""
    for b, l in enumerate(f.blocks):
        t = l[-1]
        if t.op != "br" or not isinstance(t.cond, int):
            continue
        q = f.inst.get(t.cond)
        if q is None or q.op != "icmp" or q.pred not in ("eq", "ne"):
            continue
        x, y = q.d["ops"]
        if question(f, x) != "readAvailable" or question(f, y) != "readAvailable":
            continue
        s = t.succ[0] if q.pred == "eq" else t.succ[1]
        if t.succ[0] == t.succ[1] or not f.dominates(s, at.block) or not all(z == b for z in f.pred[s]):
            continue
        o = [objs(f, f.inst[x]), objs(f, f.inst[y])]
        if objs(f, n) in o and objs(f, c) in o:
            return True
    return False


def room(f, i, n):
    """n bytes fit behind the readable region: n is writeAvailable() itself, or the rest of an amount that was checked to fit"""
    x = f.inst.get(n) if isinstance(n, int) else None
    if x is None:
        return False
    if x.is_call and (INNER.match(x.d.get("dem") or "") or [0, ""])[1] == "writeAvailable":
        return True
    if x.op == "sub":
        a, k = x.d["ops"]
        if not any(le and u == a and question(f, v) == "writeAvailable" for u, v, le in facts_at(f, i)):
            return False
        if not any(le and u == k and v == a for u, v, le in facts_at(f, i)):
            return False
        ph = f.inst.get(k)
        if ph is None or ph.op != "phi":
            return False
        steps = []
        for v, b in ph.d["in"]:
            if cint(v) == 0:
                continue
            y = f.inst.get(v) if isinstance(v, int) else None
            if y is None or y.op != "add" or k not in y.d["ops"]:
                return False
            g = [o for o in y.d["ops"] if o != k]
            steps.append((y, g[0] if g else None))
        for y, g in steps:
            q = f.inst.get(g) if isinstance(g, int) else None
            if q is None or not q.is_call or "::gcount()" not in (q.d.get("dem") or ""):
                return False
            ex = [c for c in f.calls() if INNER.match(c.d.get("dem") or "") and INNER.match(c.d["dem"]).group(1) == "extend"]
            ex = [c for c in ex if (f.inst.get(c.args[c.this_arg + 1]) if isinstance(c.args[c.this_arg + 1], int) else None) is not None and "::gcount()" in (f.inst[c.args[c.this_arg + 1]].d.get("dem") or "")]
            if len(ex) != 1:
                return False
        return bool(steps)
    return False


def question(f, v):
    x = f.inst.get(v) if isinstance(v, int) else None
    if x is not None and x.is_call:
        mm = INNER.match(x.d.get("dem") or "")
        return mm.group(1) if mm else None
    return None


def facts_at(f, i):
    """(a, b, True) for every a <= b that a branch dominating i established"""
    out = []
    for b, l in enumerate(f.blocks):
        t = l[-1]
        if t.op != "br" or t.cond is None or not isinstance(t.cond, int):
            continue
        for n, s in enumerate(t.succ):
            if t.succ[0] != t.succ[1] and f.dominates(s, i.block) and all(q == b or f.dominates(s, q) for q in f.pred[s]):
                st = [(t.cond, n == 0)]
                while st:
                    v, truth = st.pop()
                    c = f.inst.get(v) if isinstance(v, int) else None
                    if c is None:
                        continue
                    if c.op == "xor" and cint(c.d["ops"][1]) == -1:
                        st.append((c.d["ops"][0], not truth))
                    elif c.op == "and" and truth or c.op == "or" and not truth:
                        st += [(o, truth) for o in c.d["ops"]]
                    elif c.op == "select" and (truth and cint(c.d["ops"][2]) == 0):
                        st += [(o, truth) for o in c.d["ops"][:2]]
                    elif c.op == "select" and (not truth and cint(c.d["ops"][1]) == -1):
                        st += [(c.d["ops"][0], truth), (c.d["ops"][2], truth)]
                    elif c.op == "select" and truth and cint(c.d["ops"][1]) == 0:
                        st += [(c.d["ops"][0], False), (c.d["ops"][2], True)]
                    elif c.op == "select" and not truth and cint(c.d["ops"][2]) == -1:
                        st += [(c.d["ops"][0], True), (c.d["ops"][1], False)]
                    elif c.op == "phi" and c.ty == "i1":
                        # a && b through control flow: the way the value can be truth
                        live = [(v2, q) for v2, q in c.d["in"] if cint(v2) is None or bool(cint(v2)) == truth]
                        if len(live) == 1:
                            v2, q = live[0]
                            st.append((v2, truth))
                            for q2 in f.pred[q] if len(f.pred[q]) == 1 else []:
                                u = f.blocks[q2][-1]
                                if u.op == "br" and u.cond is not None and u.succ[0] != u.succ[1]:
                                    st.append((u.cond, u.succ[0] == q))
                    elif c.op == "icmp":
                        x, y = c.d["ops"]
                        p = c.pred
                        if p in ("ult", "ule") and truth:
                            out.append((x, y, True))
                        elif p in ("ugt", "uge") and truth:
                            out.append((y, x, True))
                        elif p in ("ult", "ule") and not truth:
                            out.append((y, x, True))
                        elif p in ("ugt", "uge") and not truth:
                            out.append((x, y, True))
    return out


def inside(f, i, off, n):
    """off + n <= readAvailable() without wrapping"""
    fs = facts_at(f, i)
    def avail(v):
        return question(f, v) == "readAvailable"
    def rest(v, a):
        x = f.inst.get(v) if isinstance(v, int) else None
        return x is not None and x.op == "sub" and avail(x.d["ops"][0]) and x.d["ops"][1] == a
    if off is None or cint(off) == 0:
        return any(u == n and avail(v) for u, v, _ in fs)
    for a, b in ((off, n), (n, off)):
        if any(u == a and avail(v) for u, v, _ in fs) and any(u == b and rest(v, a) for u, v, _ in fs):
            return True
    return False


def same(f, a, b):
    if a == b:
        return True
    x = f.inst.get(a) if isinstance(a, int) else None
    y = f.inst.get(b) if isinstance(b, int) else None
    if x is not None and y is not None and x.is_call and y.is_call and x.d.get("dem") == y.d.get("dem") and INNER.match(x.d.get("dem") or ""):
        p, q = f.roots(x.args[x.this_arg]), f.roots(y.args[y.this_arg])
        def obj(ps):
            o = set()
            for z in ps:
                if z[0][0] == "call" and len(z) == 1:
                    o.add(frozenset(f.roots(f.inst[z[0][1]].args[f.inst[z[0][1]].this_arg])))
                else:
                    o.add(z)
            return o
        return obj(p) == obj(q)
    return False


def run(ctx):
    r = Result()
    r.rules = ["no operation changes the stored bytes or regions unless it has made sure, on that path, that no other buffer shares them",
               "a shared buffer with storage is only copied when copying is allowed, and then all readable bytes are copied; nothing else starts to share",
               "each region operation leaves exactly the readable bytes it promises, inside the storage, for every state and argument"]
    m = ctx.module(ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_buf.cpp"), **CFG)
    controls = {}
    seen = set()

    def reporter(f):
        wit = f.relfile.endswith("w_buf.cpp")

        def rep(rule, i, text):
            if wit:
                controls.setdefault(owner(f) + "." + f.d.get("sname"), set()).add(rule)
                return
            w = i.where()
            r.violate(rule, w, short(f.dem), text)
        return rep
    private = {}
    for u in ctx.ast() + ctx.work.ast([build.VERIF + "/witness/w_buf.cpp"]):
        for c in u["classes"]:
            private[norm(c["name"])] = set(c["private_methods"])
    for f in m.fns:
        if f.d.get("sname") in private.get(norm(f.this_class or ""), ()):
            continue        # helpers are judged inside the operations that use them
        if owner(f) not in ("ByteBuffer", "BadBuffer", "GoodBuffer") or is_dtor(f):
            continue
        if is_ctor(f) and not f.relfile.endswith("w_buf.cpp") and "ByteBuffer const&)" in f.dem:
            continue
        rep, allow = rep_places(m, f)
        if rep is None or allow is None:
            raise build.AnalysisBroken("members of %s not found" % f.this_class)
        r.count("buffer_operations")
        r.sample(short(f.dem))
        seen.add(f.d.get("sname"))
        report = reporter(f)
        x = Share(f, m, r, report)
        r.count("states", x.n_states)
        append_rules(r, f, m, report)
        if f.this_const:
            read_rules(r, f, report)
        if (f.d.get("sname") or "") == "forceUnique":
            for ins, fact, env, k in x.rets:
                if x.stat(fact, x.this_rep) == "S":
                    report("unique", ins, "forceUnique() can return while the buffer is still shared")
    for f in m.fns:
        if not f.this_class and "lintel::ByteBuffer const&" in f.dem and f.file.startswith(m.repo):
            read_rules(r, f, reporter(f))
    mi = ctx.module(ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_buf.cpp"), **INNER_CFG)
    inner = set()
    for f in mi.fns:
        if owner(f) not in ("NoCopyByteBuffer", "BadStore", "GoodStore") or is_ctor(f) or is_dtor(f):
            continue
        r.count("region_operations")
        inner.add(f.d.get("sname"))
        region_rules(r, mi, f, reporter(f))
        r.sample(short(f.dem))
    need = {"append", "assign", "consume", "extend", "unextend", "writeStart", "writeableReadStart", "resizeBuffer", "shift", "reset", "purge", "detach", "forceUnique", "replace", "appendEntireStream", "appendFromStream"}
    lost = (need - seen) | ({"resizeBuffer", "shift", "extend", "unextend", "consume", "reset", "purge", "empty", "readStart"} - inner)
    if lost:
        raise build.AnalysisBroken("operations without code: %s" % sorted(lost))
    got = {k: sorted(v) for k, v in controls.items()}
    if got != WANT:
        raise build.AnalysisBroken("positive controls differ: %s" % got)
    r.counts["positive_controls_fired"] = len(controls)
    r.assumptions = ["reading a member through a const reference (log message arguments) does not change it",
                     "the copy constructor, assignment and swap share on purpose; a pointer handed out earlier is the caller's responsibility"]
    r.need("buffer_operations", 28)
    r.need("region_operations", 12)
    r.need("buffer_changes_judged", 20)
    return r


WANT = {'BadBuffer.extend': ['shared-write'], 'BadBuffer.consume': ['shared-write'], 'BadBuffer.unextend': ['shared-write'], 'BadBuffer.poke': ['shared-write'], 'BadBuffer.shift': ['refusal'],
        'BadBuffer.resizeBuffer': ['copy', 'taken-in'], 'BadBuffer.assign': ['shares'], 'BadBuffer.forceUnique': ['unique'], 'BadBuffer.append': ['taken-in'], 'BadBuffer.replace': ['taken-in'],
        'BadBuffer.writeStart': ['refusal'], 'BadBuffer.grow': ['shared-write'], 'BadBuffer.fill': ['taken-in'], 'BadBuffer.late': ['taken-in'], 'BadStore.readAvailable': ['answer'],
        'BadStore.empty': ['answer'], 'BadStore.extend': ['bounds'], 'BadStore.consume': ['regions'], 'BadStore.resizeBuffer': ['bounds'], 'BadStore.shift': ['keep'], 'BadStore.purge': ['storage'],
        'BadStore.writeStart': ['answer']}
