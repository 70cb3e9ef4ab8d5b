"""Ownership typestate shared by the handle (C05) and heap (C06) rules.

A resource is what one acquiring call yields, or what an owning field holds when a member function starts.
Its state along a path: (status, places that hold it, SSA values that are it)."""
import re
from collections import defaultdict
from lib.ir import *

NONE, LIVE, GONE, AWAY, GUARD = "none", "live", "released", "handed-on", "guarded"

# calls that look at a pointer without keeping it
LOOK = re.compile(r"^(mem(cpy|move|set|cmp|chr)|str\w*|f(gets|read|write|scanf|printf|puts|putc|eof|error|flush|seek|seeko|tell|tello|ileno|getc)|getc|fgetc|rewind|setvbuf|setbuf|"
                  r"clearerr|feof_unlocked|__isoc\d+_fscanf|vfprintf|qsort|readdir\w*|dirfd|rewinddir|read|write|pread|pwrite|lseek\w*|fstat\w*|fcntl|ioctl|isatty|poll|"
                  r"ftruncate\w*|fsync|fdatasync|flock|dup\w*|gai_strerror|xmlStr\w+|__\w+_chk|fputc|ungetc|puts|sysconf|atoi|atof|getline|getdelim)$")
LOOK_DEM = re.compile(r"^(std::(__)?(sort|copy\w*|fill\w*|find\w*|lower_bound|upper_bound|equal|mismatch|swap|accumulate|reverse|rotate|unique|max_element|min_element|move\w*|advance|distance|"
                      r"__introsort_loop|__final_insertion_sort|nth_element|partial_sort|stable_sort|uninitialized_\w+|char_traits)|"
                      r"std::basic_ostream|std::ostream|std::operator<<|operator<<|std::basic_string|std::__cxx11::basic_string|boost::(io|format|basic_format)|"
                      r"std::char_traits|__dynamic_cast|std::addressof)")


class Own(Explore):
    """One resource through one function."""

    def __init__(self, fn, cfg, site=None, field=None, limit=40000):
        self.cfg = cfg
        self.site = site
        self.field = field          # access path tuple of the owning place
        self.events = {}            # (kind, ins.id) -> (kind, ins, text, block key)
        self.cur = None
        ptrs = []
        for i in fn.insts():
            if i.op == "load" and i.ty == "ptr":
                ptrs.append(i.id)
        nulltested = set()
        for i in fn.insts():
            if i.op == "icmp" and i.pred in ("eq", "ne") and isinstance(i.d["ops"][0], int):
                nulltested.add(i.d["ops"][0])
        extra = [site.id] if site is not None and site.ty != "void" else []
        extra += [x for x in ptrs if x in nulltested or (field is not None and fn.path(x) == field + (("*",),))]
        self.ctor, self.dtor = is_ctor(fn), is_dtor(fn)
        if site is not None:
            init = (NONE, frozenset(), frozenset())
        else:
            init = (LIVE, frozenset([field]), frozenset())
        Explore.__init__(self, fn, init, self.step, limit=limit, extra_track=extra)

    # -- value membership ------------------------------------------------------
    def isres(self, v, vals, depth=0):
        if not isinstance(v, int) or depth > 30:
            return False
        if v in vals:
            return True
        i = self.fn.inst.get(v)
        if i is None:
            return False
        if i.op == "getelementptr":
            return not (i.var or []) and i.off is not None and self.isres(i.base, vals, depth + 1)
        if i.op in ("bitcast", "freeze", "addrspacecast", "sext", "zext", "trunc"):
            return self.isres(i.d["ops"][0], vals, depth + 1)
        if i.op == "select":
            return any(self.isres(o, vals, depth + 1) for o in i.d["ops"][1:])
        return False

    def pointsinto(self, v, vals, depth=0):
        """v is an address inside the resource"""
        if not isinstance(v, int) or depth > 30:
            return False
        if v in vals:
            return True
        i = self.fn.inst.get(v)
        if i is None:
            return False
        if i.op == "getelementptr":
            return self.pointsinto(i.base, vals, depth + 1)
        if i.op in ("bitcast", "freeze", "addrspacecast"):
            return self.pointsinto(i.d["ops"][0], vals, depth + 1)
        if i.op == "select":
            return any(self.pointsinto(o, vals, depth + 1) for o in i.d["ops"][1:])
        return False

    def on_phis(self, b, t, fact):
        st, locs, vals = fact
        add, rem = set(), set()
        for i in self.fn.blocks[t]:
            if i.op != "phi":
                break
            if i.ty != "ptr" and not self.cfg.ints:
                continue
            for v, p in i.d["in"]:
                if p == b:
                    (add if self.isres(v, vals) else rem).add(i.id)
                    break
        if add or (rem & vals):
            return (st, locs, frozenset((vals - rem) | add))
        return fact

    def on_edge(self, ins, truth, fact, env):
        st, locs, vals = fact
        if st == LIVE:
            if any(env.get(v) == 0 for v in vals) or (self.cfg.ints and any(env.get(v) == -1 for v in vals)):
                return (NONE, frozenset(), frozenset())
            if self.cfg.ints and isinstance(truth, bool) and self.neg(ins.cond, truth, vals):
                return (NONE, frozenset(), frozenset())
        if st == GONE and self.field is not None and any(env.get(v) == 0 for v in vals):
            return None     # it was not null when it was released
        return fact

    def kept(self, ins, vals):
        """the previous resource is in a register that is still read after ins"""
        fn = self.fn
        for v in vals:
            if v == ins.id:
                continue
            d = fn.inst[v].block if v in fn.inst else -1
            uses = {}
            for u in fn.uses.get(v, []):
                if u.op == "phi":
                    for x, p in u.d["in"]:
                        if x == v:
                            uses.setdefault(p, []).append(1 << 30)
                else:
                    uses.setdefault(u.block, []).append(u.idx)
            if any(k > ins.idx for k in uses.get(ins.block, [])):
                return True
            seen, st = set(), list(fn.succ[ins.block])
            while st:
                b = st.pop()
                if b in seen or b == d:
                    continue
                seen.add(b)
                if uses.get(b):
                    return True
                st += fn.succ[b]
        return False

    def neg(self, c, truth, vals):
        """this edge says the handle number is negative"""
        i = self.fn.inst.get(c) if isinstance(c, int) else None
        if i is None:
            return False
        if i.op == "xor" and cint(i.d["ops"][1]) == -1:
            return self.neg(i.d["ops"][0], not truth, vals)
        if i.op != "icmp":
            return False
        a, b = i.d["ops"]
        k = cint(b)
        if k is None or not self.isres(a, vals):
            return False
        return (i.pred == "slt" and k <= 0 and truth) or (i.pred == "sle" and k < 0 and truth) or (i.pred == "sgt" and k >= -1 and k < 1 and not truth) or \
            (i.pred == "sge" and k <= 0 and not truth) or (i.pred == "eq" and k < 0 and truth) or (i.pred == "ne" and k < 0 and not truth)

    # -- events -----------------------------------------------------------------
    def ev(self, kind, ins, text):
        self.events.setdefault((kind, ins.id), (kind, ins, text))

    def step(self, ins, fact, env):
        st, locs, vals = fact
        fn, cfg = self.fn, self.cfg
        op = ins.op
        if self.site is not None and ins.id == self.site.id:
            if st == LIVE and not locs and not self.kept(ins, vals):
                self.ev("leak", ins, "is acquired again while the previous one is still held")
            new = (LIVE, frozenset(), frozenset([ins.id]))
            out = [("n", new, {ins.id: NZ} if not cfg.ints else None)]
            if cfg.can_fail(ins):
                out.append(("n", (NONE, frozenset(), frozenset()), {ins.id: -1 if cfg.ints else 0}))
            if ins.may_throw:
                out.append(("x", (NONE, frozenset(), frozenset()), None))
            return out
        if st in (NONE, AWAY):
            return outcomes(ins, fact)
        if op == "load":
            p = fn.path(ins.ptr)
            if st == GONE and self.pointsinto(ins.ptr, vals):
                self.ev("use", ins, "is read after it was released")
            if p in locs:
                if ins.id not in vals:
                    vals = vals | {ins.id}
            elif ins.id in vals:
                vals = vals - {ins.id}
            return [("n", (st, locs, vals), None)]
        if op == "store":
            p = fn.path(ins.ptr)
            if self.isres(ins.val, vals) and not (st == GONE):
                root = p[0][0]
                if (root == "alloca" or root == "param") and not any(x[0] == "[]" for x in p):
                    return [("n", (st, locs | {p}, vals), None)]
                if root == "null":
                    return [("n", fact, None)]
                if any(x[0] == "[]" for x in p):
                    # one of many elements: the element rule decides what becomes of it
                    return [("n", (AWAY, frozenset(), frozenset()), None)]
                return [("n", (AWAY, frozenset(), frozenset()), None)]
            if self.isres(ins.val, vals):
                return [("n", (st, locs | {p}, vals), None)]
            if st == GONE and self.pointsinto(ins.ptr, vals):
                self.ev("use", ins, "is written after it was released")
            if p in locs and ("[]", 0) not in p and not any(s[0] == "[]" for s in p):
                locs = locs - {p}
                if st == LIVE and self.field is not None and not locs and not self.anyheld(vals, ins):
                    self.ev("leak", ins, "is overwritten while it still holds memory")
                    return [("n", (NONE, frozenset(), frozenset()), None)]
            return [("n", (st, locs, vals), None)]
        if ins.is_call:
            return self.call(ins, fact)
        return [("n", fact, None)]

    def anyheld(self, vals, ins):
        return bool(vals)

    def call(self, ins, fact):
        st, locs, vals = fact
        fn, cfg = self.fn, self.cfg
        name = ins.d.get("fn") or ""
        args = ins.args or []
        hit = [k for k, a in enumerate(args) if self.isres(a, vals)]
        rel = cfg.release(ins)
        if rel is not None and rel < len(args):
            if self.isres(args[rel], vals):
                if st in (GONE, GUARD):
                    self.ev("twice", ins, "is released twice")
                form = cfg.form(ins)
                if form is not None:
                    self.forms = getattr(self, "forms", {})
                    self.forms[form] = ins
                g = (GONE, locs, vals)
                return [("n", g, None)] + ([("x", g, None)] if ins.may_throw and cfg.counted(ins) else [])
            return self.out(ins, fact)
        if ins.d.get("intr"):
            if st == GONE and ins.d["intr"].startswith("llvm.mem") and any(self.pointsinto(a, vals) for a in args[:2]):
                self.ev("use", ins, "is used after it was released")
            if ins.d["intr"].startswith(("llvm.memcpy", "llvm.memmove")):
                # a block copy of a place holding the resource: treat as handing it on
                sp = fn.path(args[1])
                if any(under(l, sp) for l in locs):
                    return [("n", (AWAY, frozenset(), frozenset()), None)]
            return [("n", fact, None)]
        if hit or any(self.pointsinto(a, vals) for a in args):
            if st == GONE:
                self.ev("use", ins, "is passed to %s after it was released" % (ins.d.get("dem") or "a callback")[:60])
                return self.out(ins, fact)
        if hit and st == GUARD:
            return self.out(ins, fact)
        if hit and any(isinstance(a, dict) and a.get("k") == "fn" and cfg.closer(a["n"]) for a in args):
            # given to an owner together with the function that releases it
            form = [cfg.closer(a["n"]) for a in args if isinstance(a, dict) and a.get("k") == "fn" and cfg.closer(a["n"])][0]
            self.forms = getattr(self, "forms", {})
            self.forms[form] = ins
            return self.out(ins, (GUARD, frozenset(), vals))
        if hit and any(not self.keeps_not(ins, k) for k in hit):
            g = (AWAY, frozenset(), frozenset())
            return self.out(ins, g)
        # address of a local place that holds it
        for k, a in enumerate(args):
            if not isinstance(a, int) or fn.inst.get(a) is None and a not in fn.pid:
                continue
            p = fn.path(a)
            if p[0][0] == "alloca" and any(under(l, p) for l in locs) and not self.pure(ins, k):
                return self.out(ins, (AWAY, frozenset(), frozenset()))
            if p[0][0] == "param" and st == LIVE and destructor_call(ins) and any(under(l, p) for l in locs):
                return self.out(ins, (AWAY, frozenset(), frozenset()))
        return self.out(ins, fact)

    def pure(self, ins, k):
        d = ins.d.get("dem") or ""
        return bool(LOOK.match(ins.d.get("fn") or "")) or bool(re.match(r"^(std::basic_ostream|std::operator<<|AssertBoost)", d))

    def keeps_not(self, ins, k):
        """the callee does not keep or release the pointer"""
        name, d = ins.d.get("fn") or "", ins.d.get("dem") or ""
        if LOOK.match(name) or LOOK_DEM.match(d):
            return True
        if k == ins.this_arg and member_call(ins):
            return True
        g = self.fn.mod.by_name.get(name)
        if g is not None and k < len(g.params):
            return not self.cfg.captures(g, k)
        if not name and k == ins.this_arg:
            return True     # virtual call on the object itself
        return False

    def out(self, ins, fact):
        thr = ins.may_throw and self.cfg.counted(ins)
        if ins.noreturn:
            return [("x", fact, None)] if thr else []
        return [("n", fact, None), ("x", fact, None)] if thr else [("n", fact, None)]

    # -- verdicts ---------------------------------------------------------------
    def persistent(self, locs, leaving_ctor):
        for l in locs:
            if l[0][0] == "param":
                if leaving_ctor and l[0][1] == 0:
                    continue
                return True
        return False

    def verdicts(self):
        """[(kind, ins, text, key)] for the exits and the events on the way"""
        res = [(k, i, t, None) for (k, i, t) in self.events.values()]
        for ins, fact, env, k in self.rets:
            st, locs, vals = fact
            if st == LIVE:
                if ins.d.get("ops") and self.isres(ins.d["ops"][0], vals):
                    continue
                if self.dtor and self.field is not None:
                    res.append(("leak", ins, "is not released by the destructor", k))
                elif not self.persistent(locs, False) or (self.dtor and not any(l[0][1] != 0 for l in locs if l[0][0] == "param")):
                    res.append(("leak", ins, "is not released when the function returns", k))
            elif st == GONE and not self.dtor:
                if any(l[0][0] == "param" for l in locs):
                    res.append(("dangling", ins, "was released but is still referred to when the function returns", k))
        for ins, fact, env, k in self.excs:
            st, locs, vals = fact
            if self.dtor:
                continue
            if st == LIVE and not self.persistent(locs, self.ctor):
                res.append(("leak", ins, "is not released when the function is left by an exception", k))
            elif st == GONE and not self.ctor and any(l[0][0] == "param" for l in locs):
                res.append(("dangling", ins, "was released but is still referred to when the function is left by an exception", k))
        return res


def under(loc, p):
    """place loc lies in the object at p"""
    if loc == p:
        return True
    if loc[:len(p)] == p:
        return True
    # p = root(+n), loc = root+m...
    if p[-1][0] == "+" and len(loc) >= len(p) and loc[:len(p) - 1] == p[:-1] and loc[len(p) - 1][0] == "+":
        return 0 <= loc[len(p) - 1][1] - p[-1][1] < 4096 and False
    if len(loc) == len(p) + 1 and loc[:len(p)] == p and loc[-1][0] == "+":
        return True
    return False


def strip_templates(n):
    """name without its template arguments"""
    out, d = [], 0
    for c in n:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


def is_ctor(fn):
    n = fn.d.get("sname") or ""
    c = strip_templates(fn.this_class or "").split("::")[-1]
    return bool(fn.this_class) and bool(re.search(r"C[1-3]E", fn.name)) and n.split("<")[0] == c


def is_dtor(fn):
    return bool(fn.this_class) and (fn.d.get("sname") or "").startswith("~")


def destructor_call(ins):
    return "::~" in (ins.d.get("dem") or "")


def member_call(ins):
    """a member function of the pointed-to object (its own constructor, destructor, methods): argument 0 is 'this'"""
    n = ins.d.get("fn") or ""
    if not re.match(r"^_ZN", n):
        return False
    d = ins.d.get("dem") or ""
    m = re.match(r"^(.*?)\(", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", d))))
    if not m:
        return False
    parts = m.group(1).split("::")
    if len(parts) < 2:
        return False
    # namespaces are lower case in this code base and in std; a class name precedes the method
    return parts[-2] not in ("std", "boost", "lintel", "__gnu_cxx", "io", "posix", "detail")


def ctor_only(m, name, seen=None):
    """a helper that only constructors (directly or through such helpers) call"""
    seen = seen if seen is not None else set()
    if name in seen:
        return True
    seen.add(name)
    g = m.by_name.get(name)
    if g is None or (g.d.get("access") not in ("private", "protected") and g.d.get("linkage") != 7):
        return False
    cs = m.callers.get(name)
    if not cs:
        return False
    for c in cs:
        if re.search(r"C[1-3]E", c) and (m.by_name.get(c) is None or is_ctor(m.by_name[c])):
            continue
        if not ctor_only(m, c, seen):
            return False
    return True


class Throws:
    """Which calls can throw something other than memory exhaustion inside the standard library."""

    def __init__(self, m):
        self.m = m
        self.memo = {}

    LIB = re.compile(r"^(std::|boost::|__gnu_cxx::|void std::|operator new|operator delete|__cxa_|_Unwind)")
    USERCODE = re.compile(r"^(boost::function|std::function|void std::(for_each|sort|__introsort|__insertion)|std::for_each|boost::_bi|std::__throw_(?!bad_alloc|length))|function[0-9]*<.*>::operator\(\)|boost::throw_exception|boost::bad_function_call")

    def call(self, ins):
        if not ins.may_throw:
            return False
        name = ins.d.get("fn")
        if not name:
            return True
        return self.fn(name, ins.d.get("dem") or name)

    def fn(self, name, dem):
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = False
        if name == "__cxa_throw" or name == "__cxa_rethrow":
            r = True
        elif dem.startswith(("AssertBoostFail", "AssertFatal", "AssertException")) or "AssertBoostFail" in dem:
            r = True
        elif self.USERCODE.search(dem):
            r = True
        elif name in self.m.by_name:
            f = self.m.by_name[name]
            r = any(self.call(i) for i in f.calls())
        elif self.LIB.match(dem) or re.match(r"^[\w:<>, *&]+ (std|boost|__gnu_cxx)::", dem):
            r = False
        else:
            r = True    # declared only: user code
        self.memo[name] = r
        return r


def captures_fn(m, release):
    memo = {}

    def cap(g, k):
        key = (g.name, k)
        if key in memo:
            return memo[key]
        memo[key] = False
        st = [g.params[k]["id"]]
        seen = set(st)
        r = False
        while st and not r:
            v = st.pop()
            for u in g.uses.get(v, []):
                if u.op in ("getelementptr", "bitcast", "phi", "select", "freeze"):
                    if u.id not in seen:
                        seen.add(u.id)
                        st.append(u.id)
                elif u.op == "store" and u.val == v:
                    p = g.path(u.ptr)
                    if p[0][0] != "alloca":
                        r = True
                elif u.is_call:
                    kk = [n for n, a in enumerate(u.args or []) if a == v]
                    if release(u) is not None and release(u) in kk:
                        r = True
                        continue
                    for n in kk:
                        nm, d = u.d.get("fn") or "", u.d.get("dem") or ""
                        if LOOK.match(nm) or LOOK_DEM.match(d) or (n == u.this_arg and member_call(u)) or u.d.get("intr"):
                            continue
                        h = m.by_name.get(nm)
                        if h is not None and n < len(h.params):
                            r = r or cap(h, n)
                        else:
                            r = True
                elif u.op == "ret":
                    r = True
        memo[key] = r
        return r
    return cap
