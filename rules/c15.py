"""C15: asking changes nothing (interprocedural effect analysis of every read-only operation over LLVM IR)."""
import re
from lib import build
from lib.ctx import *
from lib.ir import *
from lib.own import is_ctor, is_dtor, strip_templates
from rules import c16

CFG = dict(opaque=ASSERT_OPAQUE, inline=SMALL_STD + [r"^(double|.*) const& std::(max|min)<"], prepasses=PRE_PASSES, passes=c16.CFG["passes"], types=True, export_repo=True, max_insts=3000)
QUERY = re.compile(r"^(lookup|find|exists|size|empty|top|front|back|begin|end|at|capacity|memoryUsage|keys|mean|stddev|variance|min|max|count|total|print\w*|get[A-Z]\w*|readStart\w*|matches|operator(==|!=|<|>|<=|>=))$")


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def formals(dem):
    """(parameter types, trailing qualifiers) of a demangled signature"""
    d = dem
    e = d.rfind(")")
    if e < 0:
        return None, ""
    tail, depth, k = d[e + 1:], 0, e
    while k >= 0:
        if d[k] == ")":
            depth += 1
        elif d[k] == "(":
            depth -= 1
            if depth == 0:
                break
        k -= 1
    return split_args(d[k + 1:e]), tail


def is_const_ref(t):
    return bool(re.search(r" const( ?[&*]| ?\* const| ?&&)?$", t)) and not re.search(r"[*&] const[&*]$", t)


def const_params(f):
    """labels of what f may only read"""
    fm, tail = formals(f.dem)
    out = set()
    memb = bool(f.this_class)
    if memb and f.this_const:
        out.add(0)
    for n, t in enumerate(fm or []):
        if is_const_ref(t):
            out.add(n + (1 if memb else 0))
    return out


QUERIES = {l.strip() for l in open(__file__[:-3] + "_queries.txt") if l.strip()}
# working on purpose in scratch space of the object, or caching: stated in the property
SCRATCH = [(re.compile(r"^StatsQuantile$"), re.compile(r"^(getQuantile\w*|printRome|printText\w*|printFile|printTail|dump\w*)$")),
           (re.compile(r"^AssertBoostException$"), re.compile(r"^what$"))]
# std member functions that have no const form taken through a pointer to non-const, but change nothing
ACCESS = re.compile(r"::(begin|end|rbegin|rend|cbegin|cend|operator\[\]|at|front|back|data|find|lower_bound|upper_bound|size|get|c_str|base|operator\*|operator->|rdbuf|good|fail|key_comp)\(")
# user code: what it may change is its own business
CALLBACK = re.compile(r"^(boost|std)::function\d*<.*>::operator\(\)\(")
PRINTS = re.compile(r"^(v?f?printf|v?sn?printf|f?puts|f?putc|putchar|fwrite|write|str\w+|mem(cmp|chr)|pthread_attr_get\w+|pthread_(kill|join|equal|detach)|free)$")
PRINTS_INTO = {"sprintf": 1, "snprintf": 1, "vsprintf": 1, "vsnprintf": 1, "strcpy": 1, "strcat": 1, "strncpy": 1, "strncat": 1, "strtok": 1, "free": 1}
SYNC = re.compile(r"^pthread_(mutex|cond|rwlock|spin)_")
WRITER_OBJECTS = re.compile(r"ostream|basic_ios|_IO_FILE|\bFILE\b|ofstream|stringstream")


def qname(f):
    return strip_templates(f.this_class or "") + "::" + strip_templates(f.d.get("sname") or "")


def scratch(f):
    c, n = strip_templates(f.this_class or "").split("::")[-1], strip_templates(f.d.get("sname") or "")
    return any(a.match(c) and b.match(n) for a, b in SCRATCH)


class Effects:
    def __init__(self, m, vcalls):
        self.m, self.vcalls, self.memo = m, vcalls, {}

    def direct(self, f):
        """[(label, place, inst, text)] of everything f may change through its parameters"""
        if f.name in self.memo:
            return self.memo[f.name]
        self.memo[f.name] = []
        out = []
        for i in f.insts():
            for v, text in self.targets(f, i):
                if not isinstance(v, int):
                    continue
                for p in f.roots(v):
                    if p[0][0] == "param":
                        out.append((p[0][1], p, i, text))
                    elif "virtual function" in text and p[0][0] in ("alloca", "val", "call") and sum(x[0] == "*" for x in p) >= 2 - (p[0][0] != "alloca"):
                        # an object found through a local copy of a pointer to it
                        out.append(("elsewhere", p, i, text))
        self.memo[f.name] = out
        return out

    def targets(self, f, i):
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            yield i.ptr, "is written"
            return
        if not i.is_call or i.d.get("onlyread") or i.d.get("nomem"):
            return
        it = i.d.get("intr") or ""
        if it.startswith("llvm.mem"):
            yield i.args[0], "is written"
            return
        name, dem = i.d.get("fn") or "", i.d.get("dem") or ""
        if it or SYNC.match(name) or CALLBACK.match(dem):
            return
        args = i.args or []
        if PRINTS.match(name):
            args = args[:max(PRINTS_INTO.get(name, 0), 0)]
        if not name:
            # virtual call: the static type says whether it may change the object
            w = self.virtual(f, i) if args else None
            if w:
                yield args[i.this_arg], "is passed to the changing virtual function " + w
            return
        ro = set(i.d.get("ro") or ())
        g = self.m.by_name.get(name)
        if g is not None and g.file.startswith(self.m.repo):
            labels = {}
            for lab, p, j, text in self.direct(g):
                labels.setdefault(lab, (p, j, text))
            for prm in g.params:
                lab = g.plab[prm["id"]]
                k = g.pid[prm["id"]]
                if lab in labels and k < len(args) and lab not in const_params(g):
                    yield args[k], "is changed by " + short(g.dem)
            return
        if name.startswith("_ZNK"):
            first = i.this_arg
        else:
            first = None
        fm, tail = formals(dem)
        memb = name.startswith("_ZN") and fm is not None and len(args) - i.this_arg == len(fm) + 1
        for k, a in enumerate(args):
            if k in ro or k == first or (i.d.get("aattr") or [""] * 99)[k:k + 1] == ["sret"]:
                continue
            n = k - i.this_arg
            if memb:
                n -= 1
            if n < 0:
                if ACCESS.search(dem) or re.search(r"::~?\w+\[?\]?[^:]*$", "") :
                    continue
                yield a, "is changed by " + short(dem)
            elif fm is not None and 0 <= n < len(fm):
                t = fm[n]
                if is_const_ref(t) or not re.search(r"[*&]", t) and not re.search(r"iterator", t):
                    continue
                if WRITER_OBJECTS.search(t):
                    continue
                yield a, "may be changed by " + short(dem)
            elif fm is None and not name.startswith("_Z"):
                yield a, "may be changed by %s()" % name

    def virtual(self, f, i):
        p = f.path(i.d["callee"]) if isinstance(i.d.get("callee"), int) else ()
        if p[-1:] != (("*",),):
            return None
        slot = p[-2][1] if p[-2][0] == "+" else 0
        for l in i.d.get("loc") or []:
            p, _, n = l.rpartition(":")
            w = self.vcalls.get((p, int(n), slot)) if n.isdigit() else None
            if w:
                return w
            if p.startswith(self.m.repo):
                return None
        return None


def run(ctx):
    r = Result()
    r.rules = ["no store, call or virtual call on any path of a read-only operation changes the object, or anything reached through it",
               "no function changes what it is given by const reference or pointer to const, or anything reached through it"]
    m = ctx.module(ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_query.cpp"), **CFG)
    vc = {}
    for u in ctx.ast() + ctx.work.ast([build.VERIF + "/witness/w_query.cpp"]):
        for v in u["vcalls"]:
            for l in (v["line"], v["line2"]):
                vc.setdefault((v["file"], l, v["slot"]), v["callee"])
    e = Effects(m, vc)
    controls = set()
    for f in m.fns:
        wit = f.relfile.endswith("w_query.cpp")
        if not (f.file.startswith(m.repo) or wit):
            continue
        sc = const_params(f)
        if f.this_class and (qname(f) in QUERIES or wit and (f.d.get("sname") or "") == "lookup"):
            sc.add(0)
        if f.this_class and (is_ctor(f) or is_dtor(f) or scratch(f)):
            sc.discard(0)
        # a private accessor that hands out changing access is judged where it is used
        if not sc:
            continue
        r.count("functions")
        r.count("read_only_parameters", len(sc))
        if f.this_class and 0 in sc:
            r.count("query_operations")
        for i in f.insts():
            if i.op in ("store", "atomicrmw", "cmpxchg") or i.is_call:
                r.count("effects_judged")
        for lab, p, i, text in e.direct(f):
            if lab not in sc and not (lab == "elsewhere" and f.this_class and 0 in sc):
                continue
            if wit:
                controls.add("%s.%s" % (sclass(f.this_class) if f.this_class else "", f.d.get("sname")))
                continue
            what = "an object it reaches" if lab == "elsewhere" else "the object" if f.this_class and lab == 0 else "its read-only argument %d" % (lab if not f.this_class else lab)
            if len(p) > 2 or any(x[0] == "*" for x in p):
                what = "something that belongs to " + what
            r.violate("query-changes", i.where(), short(f.dem), "%s %s" % (what, text))
        r.sample(short(f.dem))
    want = {"BadQuery.size", "BadQuery.mean", "BadQuery.total", "BadQuery.front", "BadQuery.lookup", "BadQuery.describe", ".bad_arg"}
    if controls != want:
        raise build.AnalysisBroken("positive controls: not reported %s, wrongly reported %s" % (sorted(want - controls), sorted(controls - want)))
    r.counts["positive_controls_fired"] = len(controls)
    r.assumptions = ["user-supplied comparison, hash and copy operations take their arguments by const reference and honour it",
                     "places reached only through a local copy of a standard iterator or smart pointer are not followed",
                     "scratch space: quantile and printing functions of StatsQuantile; cached text: AssertBoostException::what"]
    r.need("query_operations", 180)
    r.need("read_only_parameters", 300)
    return r


def sclass(c):
    return strip_templates(c).split("::")[-1]
