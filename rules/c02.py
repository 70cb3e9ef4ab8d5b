"""C02: process-wide mutable state is only touched under its lock (lockset analysis)."""
import re
from lib.ctx import *
from lib.ir import *

LOCK = {"pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_spin_lock"}
TRY = {"pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_spin_trylock", "pthread_mutex_clocklock"}
UNLOCK = {"pthread_mutex_unlock", "pthread_rwlock_unlock", "pthread_spin_unlock"}

# Files whose process-wide state is documented (or by the nature of the interface can only be) set up
# and used by one thread; the property statement excludes them.
EXEMPT_FILES = {
    "src/AssertBoost.cpp": "hook registration and the failure path of an aborting process",
    "src/ProgramOptions.cpp": "command-line parsing at start-up",
    "include/Lintel/ProgramOptions.hpp": "command-line parsing at start-up",
    "src/ConstantString.cpp": "interface documented as not thread safe",
    "src/StatsMaker.cpp": "configuration interface used at start-up",
    "src/drawRandomLogNormal.cpp": "stand-alone generator program",
    "src/MersenneTwisterRandom.cpp": "the global generator MTRandom is an object the caller synchronises",
}
# Clock.cpp: calibration happens once, before the clock is used (documented); only the rate itself is
# checked and set under clockRateMutex.
EXEMPT_GLOBALS = {"may_have_frequency_scaling", "allow_unsafe_frequency_scaling", "Clock::estimated_todtfrac_quanta",
                  "Clock::estimated_cycles_per_quanta", "Clock::max_recalibrate_measure_time",
                  # precision of floating point comparison, chosen at start-up
                  "Double::default_epsilon",
                  }
READ_EXEMPT = {"Clock::clock_rate", "Clock::inverse_clock_rate_tfrac", "did_per_thread_init", "Clock::per_thread_clock"}
# members of a shared heap object whose reads are lock free by design: (global, member)
LOCKFREE_READ_MEMBERS = {("LintelLog::instance", "debug_levels")}
# entry points documented as single threaded: the table capacity is configured before threads start
INIT_FN = re.compile(r"^(__cxx_global_var_init|_GLOBAL__sub_I|__cxx_global_array_dtor|__tls_init)")
MTUNSAFE = {"localtime", "gmtime", "asctime", "ctime", "strtok", "gethostbyname", "gethostbyaddr", "inet_ntoa", "rand", "srand48x",
            "getpwnam", "getpwuid", "ttyname", "tmpnam", "getservbyname", "getservbyport", "getprotobyname"}


def gl_paths(fn, v):
    """paths of v rooted in a global variable"""
    return [p for p in fn.roots(v) if p and p[0][0] == "glob"]


def split_params(dem):
    # parameter types of a demangled name
    end = dem.rfind(")")
    if end < 0:
        return []
    depth, i = 0, end
    while i >= 0:
        if dem[i] == ")":
            depth += 1
        elif dem[i] == "(":
            depth -= 1
            if depth == 0:
                break
        i -= 1
    s = dem[i + 1:end]
    out, cur, d = [], "", 0
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip() and cur.strip() != "void":
        out.append(cur.strip())
    return out


ALWAYS_READ = re.compile(r"^(std::)?(strlen|memcmp|strcmp|operator==|operator<|operator\+)")


def call_access(ins, n):
    """'r' / 'w' / None: what the call may do to the object its n-th argument points to"""
    d = ins.d.get("dem") or ""
    intr = ins.d.get("intr") or ""
    c = ins.d.get("callee")
    if isinstance(c, dict) and c.get("k") == "asm":
        # one locked/exchanging instruction, or one plain load (C03 judges the operations themselves)
        return "atomic" if re.match(r"\s*(lock\b|xchg\b|mov\s+\S+,\s*\$0\s*$)", c.get("v") or "") else "w"
    if intr:
        if intr.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            return "w" if n == 0 else "r"
        return None
    f = ins.d.get("fn") or ""
    if d.startswith("lintel::Atomic<") or d.startswith("std::atomic<") or d.startswith("std::__atomic_"):
        return "atomic"
    if d.startswith("boost::basic_format<") or "operator%" in d:
        return "r"
    if n in (ins.d.get("ro") or ()):
        return "r"
    if f in ("memcpy", "memmove", "memset", "strcpy", "strncpy"):
        return "w" if n == 0 else "r"
    if f in ("__cxa_atexit", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort") or f.startswith("pthread_mutex") or f.startswith("pthread_cond"):
        return None
    ps = split_params(d)
    args = ins.args
    lead = len(args) - len(ps)
    if n >= lead and ps:
        t = ps[n - lead]
        if t.endswith(("&", "*")) and " const" not in t and "const " not in t and "char const" not in t:
            return "w"
        return "r"
    if lead <= 0:
        return "r"
    if d.endswith(" const"):
        return "r"
    if re.search(r"::~?[A-Za-z_0-9]+(<.*>)?\(|operator", d):
        return "w"
    return "w"


class Access:
    __slots__ = ("res", "kind", "locks", "ins", "fn", "member", "const0")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


def keyname(m, p):
    out = ""
    for s in p:
        if s[0] == "glob":
            out += m.gname(s[1])
        elif s[0] == "*":
            out += "->"
        elif s[0] == "+":
            out += "+%d" % s[1]
        elif s[0] == "once":
            out += "one-time initialisation of " + s[1]
        else:
            out += "[]"
    return out


def run(ctx):
    r = Result()
    r.rules = ["lockset: every variable with static storage (and every heap object a static pointer owns) that some function other than its "
               "one-time initialisation writes has one mutex held at all its accesses, on every path, or is only accessed atomically",
               "double-checked creation: a static pointer published with a fresh object is re-checked to be null under the lock the store holds, "
               "and the object is not written through after publication except under its own lock",
               "lock-free readers of the log level table: no path of the category registration can make the table's storage move "
               "(partial evaluation with size == capacity reaches no growing call)",
               "no call of a C library function returning shared static storage"]
    bcs = ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",))
    m = ctx.module(bcs, opaque=ASSERT_OPAQUE + ["^LintelLog::log\\("], inline=SMALL_STD + ["^std::vector<.*>::capacity\\(", "^std::_Bit_"],
                   export_repo=True, export_if_globals=True, prepasses=PRE_PASSES, passes=STD_PASSES, types=True, globals=True)
    analyse(ctx, r, m)
    storage_never_moves(ctx, r, m)
    r.need("shared_variables", 5)
    r.need("accesses", 20)
    r.need("functions_with_accesses", 10)
    return r


def is_repo_global(m, n):
    g = m.globals.get(n)
    if not g or g.get("const") or g.get("tls") or g.get("decl"):
        return None
    f = g.get("file") or ""
    dem = g.get("dem") or n
    if dem.startswith(("guard variable for ", "vtable for", "typeinfo", "VTT for", "construction vtable")):
        return None
    if not f.startswith(m.repo) and not (f == "" and False):
        return None
    return f[len(m.repo):]


def resources_of(m, fn, p, pub):
    """(resource key, member) of a path; None when not shared"""
    if p[0][0] == "call" and p[0] in pub:
        p = (("glob", pub[p[0]]), ("*",)) + p[1:]
        if len(p) > 2 and p[2][0] == "+" and False:
            pass
    if p[0][0] != "glob":
        return None
    n = p[0][1]
    if len(p) > 1 and p[1][0] == "*" :
        return (n, "*"), p
    return (n, ""), p


def analyse(ctx, r, m):
    # which globals are of interest
    cand = {}
    for n in m.globals:
        f = is_repo_global(m, n)
        if f is not None:
            cand[n] = f
    callers = {}
    for f in m.fns:
        for i in f.insts():
            for s in (i.d.get("scope") or [])[:-1]:
                callers.setdefault(s, set()).add(f.name)
    instance_cls = find_pointee_types(m)
    acc = []
    nonnull_viol = []
    nf = 0
    undecided = []
    pubs = {}
    for f in m.fns:
        if INIT_FN.match(f.name) or f.relfile.startswith("/verif/") or not (f.file.startswith(m.repo)):
            continue
        if f.relfile in EXEMPT_FILES:
            continue
        nm = f.d.get("sname") or f.dem
        helper = (f.d.get("linkage") == 7 or f.d.get("access") in ("private", "protected")) and callers.get(nm, set()) - {f.name}
        if helper:
            continue
        fa = interesting(m, f, cand)
        for i in f.calls():
            if (i.d.get("fn") or "") in MTUNSAFE:
                r.violate("mt-unsafe-call", i.where(m.repo), f.dem, "calls %s, whose result is shared by all threads" % i.d["fn"])
        if not fa:
            continue
        nf += 1
        # fresh objects published through a pointer global
        pub = {}
        for i in f.insts():
            if i.op == "store" and isinstance(i.ptr, dict) and i.ptr.get("k") == "glob" and i.ptr["n"] in cand:
                if isinstance(i.val, int):
                    for rp in f.roots(i.val):
                        ci = f.inst.get(rp[0][1]) if rp[0][0] == "call" else None
                        if ci is not None and len(rp) == 1 and (ci.d.get("fn") or "").startswith(("_Znwm", "_Znam", "malloc", "calloc")):
                            pub[rp[0]] = (i.ptr["n"], i.id)
        try:
            explore(m, f, cand, pub, acc, r, nonnull_viol)
        except OverflowError:
            undecided.append(f.dem)
    r.counts["functions_with_accesses"] = nf
    # group
    by = {}
    for a in acc:
        by.setdefault(a.res, []).append(a)
    shared = 0
    once_pub = {res[0] for res in by if res[1] == "" and any(a.kind == "pub" for a in by[res])}
    for res, l in sorted(by.items()):
        n, deep = res
        dem = m.gname(n)
        if cand[n] in EXEMPT_FILES or dem in EXEMPT_GLOBALS or re.sub(r"^\(anonymous namespace\)::", "", dem) in EXEMPT_GLOBALS:
            continue
        writes = [a for a in l if a.kind in ("w", "pub") and not in_once_init(a)]
        if not writes:
            continue
        shared += 1
        r.count("accesses", len(l))
        once_writes_only = False
        common = None
        consider = []
        for a in l:
            if in_once_init(a):
                continue
            if a.kind == "r" and deep == "" and (n in once_pub):
                # reading a pointer that is stored once, under its lock, after the object is complete
                if all(x.kind == "pub" or x.kind in ("r", "atomic") for x in l):
                    continue
            if a.kind == "r" and deep == "" and dem in READ_EXEMPT:
                continue
            if a.kind == "w" and deep == "" and dem == "Clock::clock_rate" and a.const0:
                continue
            if a.kind == "r" and deep and (dem, a.member) in LOCKFREE_READ_MEMBERS:
                continue
            if a.kind == "atomic":
                continue
            consider.append(a)
            common = a.locks if common is None else common & a.locks
        r.sample("%s%s: %d accesses, %d writes, guarded by %s" % (
            dem, "->" if deep else "", len(l), len(writes), [keyname(m, p) for p in (common or ())] or ("atomic/one-time" if not consider else "NOTHING")))
        if consider and not common:
            # report the accesses whose lockset does not contain the most common lock
            tally = {}
            for a in consider:
                for p in a.locks:
                    tally[p] = tally.get(p, 0) + 1
            best = max(tally, key=lambda p: (tally[p], str(p))) if tally else None
            for a in consider:
                if best is None or best not in a.locks:
                    r.violate("unguarded-access", a.ins.where(m.repo), "%s%s" % (dem, "->" + (a.member or "") if deep else ""),
                              "%s %s %s%s without holding %s" % (short(a.fn.dem), "reads" if a.kind == "r" else "writes", dem,
                                                                 "->" + (a.member or "") if deep else "",
                                                                 keyname(m, best) if best else "any lock (other threads may be updating it)"))
        elif any(a.kind == "atomic" for a in l) and consider:
            for a in consider:
                r.violate("mixed-atomic", a.ins.where(m.repo), dem, "%s accesses %s non-atomically although it is updated atomically elsewhere" % (short(a.fn.dem), dem))
    r.counts["shared_variables"] = shared
    for args in nonnull_viol:
        r.violate(*args)
    if undecided and not r.violations:
        raise AssertionError("functions not decided (too many states): %s" % undecided)


def find_pointee_types(m):
    return {}


def in_once_init(a):
    return any(p[0][0] == "init" for p in a.locks)


def interesting(m, f, cand):
    for i in f.insts():
        for o in operands(i):
            st = [o]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get("k") == "glob" and x["n"] in cand:
                        if cand[x["n"]] not in EXEMPT_FILES:
                            return True
                    st += [v for v in x.values() if isinstance(v, (dict, list))]
                elif isinstance(x, list):
                    st += x
    return False


def member_of(m, n, p):
    # path (glob)(*)(+off)... -> member name of the pointee class
    g = m.globals.get(n) or {}
    off = p[2][1] if len(p) > 2 and p[2][0] == "+" else 0
    t = pointee_class(m, n)
    return m.field_name(t, off) if t else "+%d" % off


def pointee_class(m, n):
    dem = m.gname(n)
    if dem == "LintelLog::instance":
        for c in m.types:
            if c.endswith("LintelLog::instance_data") or c == "LintelLog::instance_data":
                return c
    return None


def once_guards(m, f, cand):
    """guards whose region initialises some other variable of the program"""
    acq = [i for i in f.calls() if i.d.get("fn") == "__cxa_guard_acquire"]
    rel = [i for i in f.calls() if i.d.get("fn") == "__cxa_guard_release"]
    out = set()
    for a in acq:
        g = str(f.path(a.args[0])[0][-1])
        for s in f.insts():
            if s.op != "store":
                continue
            for p in f.roots(s.ptr):
                if p[0][0] == "glob" and p[0][1] in cand and "_ZGV" + p[0][1][2:] != g and f.inst_dominates(a, s) and \
                        not any(str(f.path(x.args[0])[0][-1]) == g and f.inst_dominates(x, s) for x in rel):
                    out.add(g)
    return out


def explore(m, f, cand, pub, acc, r, viol):
    seen = set()
    once = once_guards(m, f, cand)
    lds = {i.id for i in f.insts() if i.op == "load" and isinstance(i.ptr, dict) and i.ptr.get("k") == "glob" and any(g == i.ptr["n"] for g, _ in pub.values())}
    rootsof = {}

    def shared_roots(v):
        if isinstance(v, dict):
            if v.get("k") not in ("glob", "cexpr"):
                return ()
            k = str(v)
        else:
            k = v
        if k not in rootsof:
            rootsof[k] = tuple(p for p in f.roots(v) if (p[0][0] == "glob" and p[0][1] in cand) or p[0] in pub)
        return rootsof[k]

    def norm(p, published):
        if p[0] in pub and pub[p[0]][0] in published:
            return (("glob", pub[p[0]][0]), ("*",)) + p[1:]
        return p

    def record(p, kind, fact, ins, const0=False):
        locks, loads, published = fact
        if p[0][0] != "glob" or p[0][1] not in cand:
            return
        n = p[0][1]
        res = (n, "*") if len(p) > 1 and any(s[0] == "*" for s in p[1:]) else (n, "")
        if (len(p) > 1 and p[1][0] != "*" and res[1] == "*"):
            # content of a container object that is itself the global: same resource
            res = (n, "")
        member = member_of(m, n, p) if res[1] == "*" else None
        # only a mutex every thread shares excludes other threads (not one on the stack or in an argument)
        locks = frozenset(q for q in locks if q[0][0] in ("glob", "init", "once"))
        key = (ins.id, res, kind, locks)
        if key in seen:
            return
        seen.add(key)
        if res[1] == "*" and member == "mutex":
            return
        acc.append(Access(res=res, kind=kind, locks=frozenset(locks), ins=ins, fn=f, member=member, const0=const0))

    def step(ins, fact, env):
        locks, loads, published = fact
        op = ins.op
        if ins.is_call:
            name = ins.d.get("fn") or ""
            if name in LOCK or name in TRY:
                p = norm(f.path(ins.args[0]), published)
                held = (frozenset(locks | {p}), loads, published)
                out = [("n", held, {ins.id: 0}), ("n", fact, {ins.id: NZ})]
                return out
            if name in UNLOCK:
                p = norm(f.path(ins.args[0]), published)
                return [("n", (frozenset(x for x in locks if x != p), frozenset(x for x in loads if x[1] != p), published), {ins.id: 0})]
            if name == "__cxa_guard_acquire":
                g = f.path(ins.args[0])
                nl = locks | {(("once", str(g[0][-1])),)} if str(g[0][-1]) in once else locks
                return [("n", (frozenset(locks | {(("init", str(g[0][-1])),)}), loads, published), {ins.id: 1}),
                        ("n", (frozenset(nl), loads, published), {ins.id: 0})]
            if name in ("__cxa_guard_release", "__cxa_guard_abort"):
                g = f.path(ins.args[0])
                nl = frozenset(x for x in locks if x != (("init", str(g[0][-1])),))
                if name.endswith("release") and str(g[0][-1]) in once:
                    nl = frozenset(nl | {(("once", str(g[0][-1])),)})
                return [("n", (nl, loads, published), None)]
            if ins.d.get("intr") in (None, "") or (ins.d.get("intr") or "").startswith("llvm.mem"):
                for n, a in enumerate(ins.args or []):
                    for p in shared_roots(a):
                        k = call_access(ins, n)
                        p = norm(p, published)
                        if k is not None and p[0][0] == "glob" and is_ptr_arg(f, ins, n):
                            record(p, k, fact, ins)
            return outcomes(ins, fact)
        if op == "load":
            for p in shared_roots(ins.ptr):
                p = norm(p, published)
                if p[0][0] == "glob" and p[0][1] in cand:
                    record(p, "atomic" if ins.d.get("atomic") else "r", fact, ins)
                    if len(p) == 1 and ins.id in lds:
                        return [("n", (locks, frozenset(loads | {(ins.id, q) for q in locks}), published), None)]
            return [("n", fact, None)]
        if op in ("store", "atomicrmw", "cmpxchg"):
            tgt = ins.ptr if ins.ptr is not None else (ins.d.get("ops") or [None])[0]
            if tgt is None:
                return [("n", fact, None)]
            for p in shared_roots(tgt):
                p = norm(p, published)
                if p[0][0] != "glob" or p[0][1] not in cand:
                    continue
                n = p[0][1]
                if op != "store" or ins.d.get("atomic"):
                    record(p, "atomic", fact, ins)
                    continue
                fresh = [k for k, (g, sid) in pub.items() if g == n and sid == ins.id]
                if fresh and len(p) == 1:
                    record(p, "pub", fact, ins)
                    rechecked = any(q in locks and f.path(f.inst[x].ptr) == p and env.get(x) == 0 for x, q in loads)
                    init = any(x[0][0] == "init" for x in locks)
                    if not init and locks and not rechecked:
                        viol.append(("publish-unchecked", ins.where(m.repo), m.gname(n),
                                     "%s stores a new object into %s without having seen it null under the lock: a second thread may replace an object in use" % (short(f.dem), m.gname(n))))
                    return [("n", (locks, loads, frozenset(published | {n})), None)]
                v = ins.val
                c0 = isinstance(v, dict) and v.get("k") == "fp" and float_zero(v.get("v"))
                record(p, "w", fact, ins, const0=c0)
            return [("n", fact, None)]
        return [("n", fact, None)]

    Explore(f, (frozenset(), frozenset(), frozenset()), step, extra_track=lds)



def float_zero(s):
    try:
        return float(s) == 0.0
    except (TypeError, ValueError):
        return False


def is_ptr_arg(f, ins, n):
    a = ins.args[n]
    if isinstance(a, dict):
        return True
    if a in f.pid:
        return f.params[f.pid[a]]["ty"] == "ptr"
    i = f.inst.get(a)
    return i is not None and i.ty == "ptr"


GROW = re.compile(r"^std::vector<.*>::(_M_realloc_insert|_M_default_append|_M_fill_insert|_M_range_insert|_M_insert_aux|resize|push_back|insert|reserve|emplace_back|assign|operator=|shrink_to_fit|swap|_M_realloc_append)")


def storage_never_moves(ctx, r, m):
    """No path of category registration may move the storage of the level table, whatever its fill state: partial evaluation of
    every function that grows it with the table full, one short of full, and half full."""
    cls = pointee_class(m, next((n for n in m.globals if m.gname(n) == "LintelLog::instance"), ""))
    g = next((n for n in m.globals if m.gname(n) == "LintelLog::instance"), None)
    if not cls or g is None:
        raise AssertionError("LintelLog::instance or its class not found")
    fld = [x for x in m.types[cls]["fields"] if x["name"] == "debug_levels"]
    if not fld:
        raise AssertionError("instance_data::debug_levels not found")
    off = fld[0]["off"]
    at = lambda o: (("glob", g), ("*",), ("+", o)) if o else (("glob", g), ("*",))
    B = (at(off), at(off + 8), at(off + 16))
    base = B[0]
    checked = 0
    for f in m.fns:
        if not f.file.startswith(m.repo) or INIT_FN.match(f.name):
            continue
        if (f.d.get("sname") or "") == "reserveCategories":
            continue    # the documented way of enlarging the table, before threads start
        grows, writes = {}, {}
        for i in f.calls():
            d = i.d.get("dem") or ""
            mt = GROW.match(d)
            if mt and i.args and "unsigned char" in d:
                for n, a in enumerate(i.args[:2]):
                    if base in f.roots(a) and (n == 0 or mt.group(1) == "swap"):
                        grows[i.id] = mt.group(1)
        for i in f.insts():
            if i.op == "store" and base in {p for p in f.roots(i.ptr)}:
                writes[i.id] = i
        if not grows and not writes:
            continue
        checked += 1
        hit = []
        lo, cap = 1 << 20, 4000
        for size in (cap, cap - 1, cap // 2):
            vals = {B[0]: lo, B[1]: lo + size, B[2]: lo + cap}
            ext = [i.id for i in f.insts() if i.op == "load" and f.path(i.ptr) in vals]
            ext += [i.id for i in f.insts() if i.op in DERIV and derived(f, i, set(ext))]

            def step(ins, fact, env):
                if ins.op == "load":
                    p = f.path(ins.ptr)
                    if p in vals:
                        return [("n", fact, {ins.id: vals[p]})]
                if ins.op in ("ptrtoint", "inttoptr"):
                    v = evalv(f, env, ins.d["ops"][0])
                    if isinstance(v, int):
                        return [("n", fact, {ins.id: v})]
                if ins.op in DERIV:
                    v = evalv(f, env, ins.id)
                    if isinstance(v, int):
                        return [("n", fact, {ins.id: v})]
                if ins.id in writes:
                    hit.append(ins)
                if ins.id in grows:
                    how = grows[ins.id]
                    n = None
                    if how in ("_M_default_append", "resize", "reserve") and len(ins.args) > 1:
                        n = evalv(f, env, ins.args[1])
                        n = n if isinstance(n, int) else None
                    elif how in ("push_back", "emplace_back", "_M_insert_aux"):
                        n = 1
                    fits = n is not None and (n <= cap if how in ("resize", "reserve") else size + n <= cap)
                    if not fits:
                        hit.append(ins)
                return outcomes(ins, fact)
            Explore(f, (), step, extra_track=ext)
        for i in sorted(set(hit), key=lambda i: i.id):
            r.violate("table-storage-moves", i.where(m.repo), f.dem,
                      "%s can move the storage of the log level table, which other threads read without a lock" % short(f.dem))
    r.counts["table_growth_functions"] = checked
    r.need("table_growth_functions", 1)


DERIV = ("ptrtoint", "sub", "add", "mul", "shl", "trunc", "icmp", "zext", "ashr", "lshr")


def derived(f, i, base):
    st, seen = [i.id], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in base:
            return True
        j = f.inst.get(x)
        if j is None or j.op not in DERIV:
            continue
        st += [o for o in j.d["ops"] if isinstance(o, int)]
    return False
