"""C18: every formatted message has a format string that matches its arguments (typestate of boost::format objects; the compiler's printf checker)."""
import concurrent.futures
import re
from lib import build
from lib.ctx import *
from lib.ir import *

CFG = dict(opaque=ASSERT_OPAQUE, inline=SMALL_STD, prepasses=PRE_PASSES, passes=STD_PASSES, types=False, export_repo=True, max_insts=1500, globals=True)
BF = r"boost::basic_format<char, std::char_traits<char>, std::allocator<char> ?>"
CTOR = re.compile(r"^" + BF + r"::basic_format\((.*)\)$")
FEED = re.compile(r"(^|[& ])" + BF + r"::operator%")
DTOR = re.compile(r"^" + BF + r"::~basic_format\(\)")
METHOD = re.compile(r"(^|[& ])" + BF + r"::(exceptions|modify_item|bind_arg|clear|clear_binds|clear_bind|parse|operator=|swap|size|expected_args|bound_args|fed_args|remaining_args)\b")
PRINTF = re.compile(r"^(v?(f|s|sn|as)?printf|v?(f|s)?scanf|__isoc(99|23)_v?[fs]?scanf|__v?(f|s|sn)?printf_chk)$")
CAP = 40


def parse(s):
    """number of arguments a boost::format string takes, or a description of what is wrong with it"""
    n, seq, top, pos = len(s), 0, 0, 0
    i = 0
    while i < n:
        if s[i] != "%":
            i += 1
            continue
        if i + 1 >= n:
            return "ends in a lone %"
        if s[i + 1] == "%":
            i += 2
            continue
        i += 1
        bar = s[i] == "|"
        if bar:
            i += 1
        m = re.match(r"(\d+)([%$])", s[i:])
        num = None
        if m:
            num = int(m.group(1))
            i += m.end()
            if m.group(2) == "%":
                if num == 0:
                    return "names argument 0"
                top = max(top, num)
                pos = 1
                continue
        m = re.match(r"[-+ #0'_=]*(\*|\d+)?(\.(\*|\d+)?)?(hh|h|ll|l|L|j|z|t|q|w|I64)?", s[i:])
        spec = m.group(0)
        i += m.end()
        if "*" in spec:
            return None         # run-time widths: not decided
        if bar:
            m = re.match(r"[a-zA-Z]?\|", s[i:])
            if not m:
                j = s.find("|", i)
                if j < 0:
                    return "has an unterminated %| directive"
                i = j + 1
            else:
                i += m.end()
        else:
            if i >= n:
                return "ends inside a directive"
            if s[i] == "n":
                i += 1
                continue
            if s[i] not in "diouxXeEfFgGaAcCsSpbtT":
                return "has the unknown directive %%%s%s" % (spec, s[i])
            if s[i] in "tT":
                return None
            i += 1
        if num is None:
            seq += 1
        else:
            top = max(top, num)
            pos = 1
    if pos and seq:
        return "mixes numbered and unnumbered arguments"
    return max(seq, top)


def obj(f, v, depth=0):
    """the format object a value denotes"""
    if isinstance(v, int):
        memo = f.__dict__.setdefault("_obj", {})
        if v not in memo:
            memo[v] = ("v", v)
            memo[v] = obj1(f, v, depth)
        return memo[v]
    return None


def obj1(f, v, depth):
    if not isinstance(v, int) or depth > 80:
        return None
    i = f.inst.get(v)
    if i is None:
        return ("p", v)
    if i.op == "alloca":
        return ("a", v)
    if i.op in ("getelementptr",) and i.off == 0 and not i.var:
        return obj(f, i.base, depth + 1)
    if i.op in ("bitcast", "freeze"):
        return obj(f, i.d["ops"][0], depth + 1)
    if i.is_call:
        d = i.d.get("dem") or ""
        if FEED.search(d) or METHOD.search(d):
            return obj(f, i.args[0], depth + 1)
        if i.ty == "ptr":
            g = f.mod.by_name.get(i.d.get("fn") or "")
            k = returns_arg(g) if g is not None else None
            if k is not None and k < len(i.args):
                return obj(f, i.args[k], depth + 1)
        return ("v", v)
    if i.op == "phi":
        r = {obj(f, x[0], depth + 1) for x in i.d["in"]}
        return r.pop() if len(r) == 1 else ("v", v)
    return ("v", v)


def returns_arg(g):
    for b in g.blocks:
        if b and b[-1].op == "ret" and b[-1].d.get("ops"):
            o = obj(g, b[-1].d["ops"][0])
            if o and o[0] == "p":
                return g.pid.get(o[1])
    return None


class Feed(Explore):
    """how many arguments one format object has been given at each point"""

    def __init__(self, f, site, start, o, r):
        self.site, self.start, self.o, self.r = site, start, o, r
        self.used = {}      # ins -> set of counts
        Explore.__init__(self, f, -1, self.step, limit=40000)

    def step(self, ins, k, env):
        if ins.id == self.site.id:
            return [("n", self.start, None), ("x", -1, None)] if ins.may_throw else [("n", self.start, None)]
        if k < 0 or not ins.is_call or (ins.d.get("intr") or "").startswith("llvm.lifetime"):
            return outcomes(ins, k)
        hits = [n for n, a in enumerate(ins.args or []) if isinstance(a, int) and obj(self.fn, a) == self.o]
        if not hits:
            return outcomes(ins, k)
        d = ins.d.get("dem") or ""
        if FEED.search(d) and hits[0] == 0:
            k2 = min(k + 1, CAP)
            return [("n", k2, None)] + ([("x", k2, None)] if ins.may_throw else [])
        if DTOR.match(d):
            return outcomes(ins, -1)
        if METHOD.search(d):
            if re.search(r"::(clear|clear_binds|bind_arg|clear_bind|parse|operator=|swap)\b", d) and hits[0] == 0:
                return outcomes(ins, -1)
            return outcomes(ins, k)
        self.used.setdefault(ins.id, (ins, set()))[1].add(k)
        return outcomes(ins, k)


def touching(f):
    """calls per format object"""
    if getattr(f, "_touch", None) is None:
        t = {}
        for i in f.calls():
            if (i.d.get("intr") or "").startswith("llvm."):
                continue
            for n, a in enumerate(i.args or []):
                if isinstance(a, int):
                    t.setdefault(obj(f, a), {}).setdefault(i.id, (i, n))
        f._touch = t
    return f._touch


class Quick:
    """the same without branch correlation: enough when it finds nothing to report"""

    def __init__(self, f, site, start, o):
        self.used = {}
        t = touching(f).get(o, {})
        blocks = {}
        for i, n in t.values():
            blocks.setdefault(i.block, []).append((i.idx, i, n))
        for b in blocks:
            blocks[b].sort(key=lambda x: x[0])
        seen = set()
        st = [(site.block, site.idx + 1, start)]
        if site.op == "invoke":
            st = [(site.succ[0], 0, start)]
        while st:
            b, at, k = st.pop()
            if (b, at, k) in seen:
                continue
            seen.add((b, at, k))
            dead = False
            for idx, i, n in blocks.get(b, []):
                if idx < at:
                    continue
                if i.id == site.id:
                    dead = True
                    break
                d = i.d.get("dem") or ""
                if FEED.search(d) and n == 0:
                    k = min(k + 1, CAP)
                elif DTOR.match(d) or (METHOD.search(d) and n == 0 and re.search(r"::(clear|clear_binds|bind_arg|clear_bind|parse|operator=|swap)\b", d)):
                    dead = True
                    break
                elif not METHOD.search(d):
                    self.used.setdefault(i.id, (i, set()))[1].add(k)
            if not dead:
                for x in f.succ[b]:
                    st.append((x, 0, k))


APPEND = re.compile(r"::(append|operator\+=|assign|insert|replace|operator=)\(")
CONCAT = re.compile(r"std::operator\+<char|std::operator\+ ?\(")


def run_time_text(m, f, v, depth=0):
    """does this string certainly contain text that is not part of the program (a parameter, a member, a variable)?"""
    if depth > 8:
        return False
    if isinstance(v, dict):
        return v.get("k") == "glob" and m.globals.get(v["n"], {}).get("str") is None and not m.globals.get(v["n"], {}).get("const")
    i = f.inst.get(v)
    if i is None:
        return True             # a parameter
    if i.op == "getelementptr":
        return i.base in f.pid or run_time_text(m, f, i.base, depth + 1)
    if i.op == "load":
        return isinstance(i.ptr, int) and i.ptr in f.inst and f.inst[i.ptr].op == "getelementptr" and f.inst[i.ptr].base in f.pid
    if i.is_call and CONCAT.search(i.d.get("dem") or ""):
        return False
    if i.is_call and re.search(r"::(c_str|data)\(", i.d.get("dem") or "") and i.args:
        return run_time_text(m, f, i.args[0], depth + 1)
    if i.op == "alloca":
        for u in f.uses.get(v, []):
            if not u.is_call or not u.args or u.args[0] != v:
                continue
            d = u.d.get("dem") or ""
            if CONCAT.search(d) or APPEND.search(d) or re.match(r"^std::(__cxx11::)?basic_string<.*>::basic_string(<.*>)?\(", d):
                if any(run_time_text(m, f, a, depth + 1) for a in u.args[1:] if strlike(f, a)):
                    return True
    return False


def strlike(f, a):
    if isinstance(a, dict):
        return a.get("k") == "glob"
    if a in f.pid:
        return f.params[f.pid[a]]["ty"] == "ptr"
    i = f.inst.get(a)
    return i is not None and i.ty == "ptr"


def strings(m, f, v, depth=0):
    """constant strings a char pointer may be, or None"""
    if isinstance(v, dict):
        if v.get("k") == "glob":
            s = m.globals.get(v["n"], {}).get("str")
            return {s.rstrip("\0")} if s is not None else None
        return None
    i = f.inst.get(v)
    if i is None or depth > 8:
        return None
    if i.op in ("phi", "select"):
        vs = [x[0] for x in i.d["in"]] if i.op == "phi" else i.d["ops"][1:]
        out = set()
        for x in vs:
            s = strings(m, f, x, depth + 1)
            if s is None:
                return None
            out |= s
        return out
    if i.op == "alloca":        # a std::string built from one constant
        out = set()
        for u in f.uses.get(v, []):
            if u.is_call and re.match(r"^std::(__cxx11::)?basic_string<.*>::basic_string(<.*>)?\(", u.d.get("dem") or "") and u.args[0] == v:
                s = strings(m, f, u.args[1], depth + 1) if len(u.args) > 1 else None
                if s is None:
                    return None
                out |= s
            elif u.is_call and u.this_arg == 0 and u.args and u.args[0] == v and re.search(r"::(append|operator\+=|operator=|assign|insert|push_back|replace)\(", u.d.get("dem") or ""):
                return None
        return out or None
    return None


def run(ctx):
    r = Result()
    r.rules = ["the number of arguments a format object has been given when it is used is the number its format string takes, on every path; the string is well formed and no part of it is text given at run time",
               "the compiler's printf/scanf checker (-Wformat, every specifier against the type of its argument) finds no mismatch in any unit"]
    bcs = ctx.work.compile(ctx.work.lib_sources(), ndebug=False) + \
        ctx.work.compile([build.VERIF + "/witness/w_all.cpp"], ndebug=False, extra=("-femit-all-decls",)) + ctx.work.compile([build.VERIF + "/witness/w_format.cpp"], ndebug=False)
    m = ctx.module(bcs, **CFG)
    controls = set()
    seen, sites, unknown = {}, set(), set()
    for f in m.fns:
        for i in f.calls():
            mm = CTOR.match(i.d.get("dem") or "")
            if not mm:
                continue
            wit = f.relfile.endswith("w_format.cpp")
            where = i.where(m.repo)
            o = obj(f, i.args[0])
            if mm.group(1).startswith(("boost::basic_format", BF)):
                continue        # copies are followed from their source
            if not wit and not (i.d.get("loc") or [""])[0].startswith(m.repo):
                continue        # made inside boost
            lits = strings(m, f, i.args[1])
            if lits is None:
                helper = f.d.get("linkage") == 7 or f.d.get("access") in ("private", "protected")
                if not helper and run_time_text(m, f, i.args[1]):
                    ctl(f, controls) or r.violate("run-time-format-string", where, short(f.dem),
                                                  "the format string contains text given at run time: any % in it changes the number of arguments")
                    continue
                unknown.add(where)
                r.count("format_strings_not_constant", 0)
                continue
            want = {}
            for s in lits:
                n = parse(s)
                if isinstance(n, str):
                    ctl(f, controls) or r.violate("bad-format-string", where, short(f.dem), "the format string %r %s" % (s, n))
                elif n is not None:
                    want[n] = s
            if not want:
                continue
            sites.add((where, tuple(sorted(want.values()))))
            follow(r, m, f, i, 0, o, want, where, controls)
    r.counts["format_objects"] = len(sites)
    r.counts["format_strings_not_constant"] = len(unknown)
    for s in sorted(unknown):
        r.sample("format string chosen at run time (not decided): " + s)
    # printf family
    calls = set()
    for f in m.fns:
        for i in f.calls():
            if PRINTF.match(i.d.get("fn") or "") or "stringPrintF" in (i.d.get("dem") or ""):
                if (i.d.get("loc") or [""])[0].startswith(m.repo):
                    calls.add(i.where(m.repo))
    r.counts["printf_calls"] = len(calls)

    def check(s):
        fl = [x for x in ctx.work.flags(False) if x != "-w"]
        return build.sh(["clang++-18"] + fl + ["-fsyntax-only", "-Wno-everything", "-Wformat", "-Wformat-extra-args", "-Wformat-type-confusion", "-fno-caret-diagnostics", s]).stdout
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for o in ex.map(check, ctx.work.lib_sources() + [build.VERIF + "/witness/w_all.cpp", build.VERIF + "/witness/w_format.cpp"]):
            for l in o.splitlines():
                mm = re.match(r"^(.*?):(\d+):\d+: (?:warning|error): (.*)$", l)
                if mm:
                    if mm.group(1).endswith("w_format.cpp"):
                        controls.add("printf")
                    else:
                        r.violate("printf-mismatch", "%s:%s" % (mm.group(1).replace(m.repo, ""), mm.group(2)), "printf-style call", mm.group(3))
    missing = {"bad_few", "bad_many", "bad_named", "bad_string", "bad_path", "bad_text", "printf"} - controls
    if missing:
        raise AssertionError("positive controls not reported: %s" % sorted(missing))
    r.counts["positive_controls_fired"] = len(controls)
    r.need("format_objects", 250)
    r.need("printf_calls", 8)
    return r


def ctl(f, controls):
    if f.relfile.endswith("w_format.cpp"):
        controls.add(f.d.get("sname"))
        return True
    return False


def follow(r, m, f, site, start, o, want, where, controls, depth=0):
    e = Quick(f, site, start, o)
    if any(k not in want for _, ks in e.used.values() for k in ks):
        try:
            e = Feed(f, site, start, o, r)
        except OverflowError:
            r.count("not_followed")
            return
    for ins, counts in e.used.values():
        if CAP in counts or len(counts) > 6:
            r.count("fed_in_a_loop")
            continue
        d = ins.d.get("dem") or ""
        mm = CTOR.match(d)
        if mm and depth < 4:
            for k in counts:
                follow(r, m, f, ins, k, obj(f, ins.args[0]), want, where, controls, depth + 1)
            continue
        g = m.by_name.get(ins.d.get("fn") or "")
        if g is not None and feeds_param(g, ins, f, o):
            r.count("fed_further_by_callee")
            continue
        r.count("uses_checked")
        for k in sorted(counts):
            if k not in want:
                exp = "/".join(str(x) for x in sorted(want))
                ctl(f, controls) or r.violate("argument-count", ins.where(m.repo), short(f.dem), "the format string %r takes %s argument%s but %d %s given" % (
                    next(iter(want.values()))[:120], exp, "" if exp == "1" else "s", k, "is" if k == 1 else "are"))


def feeds_param(g, ins, f, o):
    for n, a in enumerate(ins.args or []):
        if isinstance(a, int) and obj(f, a) == o and n < len(g.params):
            for i in g.calls():
                if FEED.search(i.d.get("dem") or "") and obj(g, i.args[0]) == ("p", g.params[n]["id"]):
                    return True
    return False
