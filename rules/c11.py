"""C11: seeded random streams and hash values are functions of the seed and the hashed value (state coverage, effect and range analysis)."""
import re
from fractions import Fraction
from lib.ctx import *
from lib.ir import *
from lib.own import is_ctor, is_dtor
from rules import c10, c16
from rules.c10 import sclass

PASSES = ("function(lower-expect,sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate),loop-mssa(licm),"
          "sroa,early-cse<memssa>,simplifycfg,jump-threading,simplifycfg,adce,instsimplify,loop-simplify)")
CFG = dict(opaque=ASSERT_OPAQUE, inline=SMALL_STD, prepasses=PRE_PASSES, passes=PASSES, types=True, export_repo=True, max_insts=3000, globals=True,
           array_noalias=True, scev=True)
SEEDERS = re.compile(r"^(init|initArray)$")
# what a deterministic function may call outside the library
PURE_C = re.compile(r"^(mem(cpy|move|set|cmp|chr)|str\w+|abort|log|exp|sqrt|pow|floor|ceil|fabs|log1p|expm1|_Unwind_Resume|__cxa_\w+|__clang_call_terminate|__gxx_personality_v0|__assert_fail|_?exit)$")
IMPURE_CPP = re.compile(r"chrono|random_device|this_thread|thread::id|getenv|basic_i?fstream|std::rand\b")
HASHY = re.compile(r"(^|::)(hashType|hashBytes|bobJenkinsHash|BobJenkinsHashMix\w*|hash)(<.*>)?\(|::hash\(\)( const)?$")


def hash_fn(f):
    if f.relfile.endswith("HashFns.hpp") or f.relfile.endswith("HashFns.cpp"):
        return True
    d = f.dem
    return bool(HASHY.search(d)) or (f.d.get("sname") == "operator()" and re.search(r"Hash(er)?\w*$", sclass(f.this_class or "")) is not None)


def mutable_globals(m):
    """globals that some function may change after start-up"""
    const = {n for n, g in m.globals.items() if g.get("const")}
    out = {}
    for f in m.fns:
        for i in f.insts():
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                for p in f.roots(i.ptr):
                    if p[0][0] == "glob" and p[0][1] not in const:
                        out.setdefault(p[0][1], i)
            elif i.is_call:
                ro = set(i.d.get("ro") or ())
                if i.d.get("onlyread") or i.d.get("nomem"):
                    continue
                for k, a in enumerate(i.args or []):
                    if k in ro:
                        continue
                    if (i.d.get("intr") or "").startswith("llvm.mem") and k != 0:
                        continue
                    if not isinstance(a, (int, dict)):
                        continue
                    for p in f.roots(a):
                        if p[0][0] == "glob" and p[0][1] not in const and not any(x[0] == "*" for x in p):
                            out.setdefault(p[0][1], i)
    return out


def impurities(m, f, mutg, seen=None):
    """(inst, text) of every way f depends on something other than its arguments and object"""
    for i in f.insts():
        if i.op == "load" or i.op in ("atomicrmw", "cmpxchg"):
            for p in f.roots(i.ptr):
                if p[0][0] == "glob" and p[0][1] in mutg:
                    yield i, "reads %s, which changes while the program runs" % m.gname(p[0][1])
        elif i.op == "ptrtoint":
            for u in f.uses[i.id]:
                if u.op not in ("sub", "icmp", "sdiv", "ashr"):
                    r = {p for p in f.roots(i.d["ops"][0]) if not any(x[0] == "*" for x in p)}
                    if any(x[0] == ("param", 0) or x[0][0] == "alloca" for x in r):
                        yield i, "uses the address of an object as a number"
                        break
        elif i.is_call:
            if i.d.get("intr"):
                if re.search(r"readcyclecounter|rdtsc|thread.pointer|returnaddress|frameaddress", i.d["intr"]):
                    yield i, "calls " + i.d["intr"]
                continue
            n, d = i.d.get("fn") or "", i.d.get("dem") or ""
            if not n:
                c = i.d.get("callee")
                if isinstance(c, dict) and c.get("k") == "asm" and c.get("v"):
                    yield i, "runs inline assembly"
                continue
            if not n.startswith("_Z"):
                if not PURE_C.match(n) and i.d.get("decl"):
                    yield i, "calls %s()" % n
            elif IMPURE_CPP.search(d):
                yield i, "calls " + short(d)


def always(f):
    """blocks on every path from entry to a return"""
    rets = [b for b, l in enumerate(f.blocks) if l and l[-1].op == "ret" and (b == 0 or f.pred[b])]
    if not rets:
        return None
    return {b for b in range(len(f.blocks)) if all(f.dominates(b, t) for t in rets)}


def covered(f, off, size):
    """byte ranges of an array member (inside this) that f writes on every returning path"""
    al = always(f)
    rng = []
    for i in f.insts():
        if i.is_call and (i.d.get("intr") or "").startswith("llvm.mem") and i.block in al:
            o = c16.offset(f.path(i.args[0])) if isinstance(i.args[0], int) else None
            n = cint(i.args[2])
            if o is not None and n is not None:
                rng.append((o, o + n))
        if i.op != "store":
            continue
        o = c16.offset(f.path(i.ptr))
        if o is not None and i.block in al:
            rng.append((o, o + i.d["size"]))
            continue
        rc = i.d.get("rec")
        if rc and "start" in rc and "count" in rc and f.path(rc["base"])[:1] == (("param", 0),) and rc["step"] and abs(rc["step"]) <= i.d["size"]:
            h = rc["hdr"]
            # the loop is entered on every path, and the store is executed in every round
            latches = [p for p in f.pred[h] if f.dominates(h, p)]
            if not (h in al and all(f.dominates(i.block, p) for p in latches)):
                continue
            b = c16.offset(f.path(rc["base"]))
            if b is None:
                continue
            lo = b + rc["start"]
            hi = lo + rc["step"] * (rc["count"] - 1)
            rng.append((min(lo, hi), max(lo, hi) + i.d["size"]))
    at = off
    for a, b in sorted(rng):
        if a <= at < b:
            at = b
    return at >= off + size, at - off


# ---- ranges ---------------------------------------------------------------
FULL = {"i%d" % n: (0, 2 ** n - 1) for n in (1, 8, 16, 32, 64)}


def fl(v):
    s = v.get("v") if isinstance(v, dict) else None
    if s is None:
        return None
    try:
        return float(s)
    except ValueError:
        return None


def interval(f, v, ty, depth=0):
    """unsigned integer or floating interval of a value; floating bounds are exact because rounding is monotone"""
    if isinstance(v, dict):
        if v.get("k") == "int":
            n = int(v["u"]) if "u" in v else 0
            return (n, n)
        if v.get("k") == "fp":
            x = fl(v)
            return None if x is None else (x, x)
        return FULL.get(ty)
    i = f.inst.get(v)
    if i is None or depth > 40:
        return FULL.get(ty)
    ty = i.ty
    full = FULL.get(ty)
    if i.op in ("phi", "select"):
        vs = [x[0] for x in i.d["in"]] if i.op == "phi" else i.d["ops"][1:]
        rs = [interval(f, x, ty, depth + 5) for x in vs if x != v]
        if any(r is None for r in rs) or not rs:
            return full
        return (min(r[0] for r in rs), max(r[1] for r in rs))
    if i.is_call and (i.d.get("intr") or "").startswith("llvm.fmuladd"):
        x, y, z = [interval(f, v, "double", depth + 1) for v in i.args]
        if None in (x, y, z):
            return None
        c = [q * w + t for q in x for w in y for t in z] + [float(Fraction(q) * Fraction(w) + Fraction(t)) for q in x for w in y for t in z]
        return (min(c), max(c))
    o = i.d.get("ops") or []
    a = interval(f, o[0], None, depth + 1) if o else None
    b = interval(f, o[1], None, depth + 1) if len(o) > 1 else None
    if i.op == "uitofp":
        src = f.inst.get(o[0]) if isinstance(o[0], int) else None
        a = a or (FULL.get(src.ty) if src is not None else None)
        return None if a is None else (float(a[0]), float(a[1]))
    if i.op == "sitofp":
        src = f.inst.get(o[0]) if isinstance(o[0], int) else None
        if a and src is not None and src.ty in FULL and a[1] <= FULL[src.ty][1] // 2:
            return (float(a[0]), float(a[1]))
        return None
    if i.op in ("fadd", "fmul", "fdiv", "fsub"):
        if a is None or b is None:
            return None
        if i.op == "fdiv" and b[0] <= 0 <= b[1]:
            return None
        op = {"fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y, "fmul": lambda x, y: x * y, "fdiv": lambda x, y: x / y}[i.op]
        c = [op(x, y) for x in a for y in b]
        return (min(c), max(c))
    if full is None:
        return None
    if i.op == "zext" and a:
        return a
    if i.op == "zext":
        src = f.inst.get(o[0])
        return FULL.get(src.ty) if src is not None else full
    if i.op == "lshr" and b and b[0] == b[1]:
        a = a or full
        return (a[0] >> b[0], a[1] >> b[0])
    if i.op == "and" and b and b[0] == b[1]:
        return (0, min((a or full)[1], b[0]))
    if i.op == "urem" and b and b[1] >= 1:
        return (0, b[1] - 1)
    if i.op == "trunc" and a and a[1] <= full[1]:
        return a
    if i.op == "add" and a and b and a[1] + b[1] <= full[1]:
        return (a[0] + b[0], a[1] + b[1])
    if i.op == "udiv" and b and b[0] >= 1:
        a = a or full
        return (a[0] // b[1], a[1] // b[0])
    return full


def known(f, block, to=None):
    """{condition value: truth} for conditions that hold whenever control is in block (about to go to block `to`)"""
    out = {}
    for b, l in enumerate(f.blocks):
        t = l[-1] if l else None
        if t is None or t.op != "br" or not isinstance(t.cond, int) or len(t.succ) != 2 or t.succ[0] == t.succ[1]:
            continue
        for k in (0, 1):
            s = t.succ[k]
            if len(f.pred[s]) == 1 and f.dominates(s, block) or (block == b and to == s):
                out[t.cond] = k == 0
    return out


def says_below(f, c, truth, v, par):
    c = f.inst.get(c)
    if c is None or c.op != "icmp":
        return False
    x, y = c.d["ops"]
    p = c.d["pred"]
    if truth:
        return (p == "ult" and x == v and y == par) or (p == "ugt" and x == par and y == v)
    return (p == "uge" and x == v and y == par) or (p == "ule" and x == par and y == v)


def below_param(f, v, par, block, to=None, depth=0, extra=()):
    """v < parameter par whenever control is in block (about to go to block `to`)"""
    if isinstance(v, dict) and v.get("k") == "undef":
        return True
    if depth > 10:
        return False
    i = f.inst.get(v) if isinstance(v, int) else None
    if i is None:
        return False
    if i.op == "urem" and i.d["ops"][1] == par:
        return True
    if i.op == "sub":       # r - (r / n) * n
        x, y = i.d["ops"]
        q = f.inst.get(y) if isinstance(y, int) else None
        if q is not None and q.op == "mul" and par in q.d["ops"]:
            u = [f.inst.get(z) for z in q.d["ops"] if z != par and isinstance(z, int)]
            if u and u[0] is not None and u[0].op == "udiv" and u[0].d["ops"] == [x, par]:
                return True
    kn = known(f, block, to)
    kn.update(extra)
    if any(says_below(f, c, t, v, par) for c, t in kn.items()):
        return True
    if i.op == "phi":
        return all(x == v or below_param(f, x, par, b, i.block, depth + 1) for x, b in i.d["in"])
    if i.op == "select":
        c, x, y = i.d["ops"]
        t = kn.get(c) if isinstance(c, int) else None
        return (t is False or below_param(f, x, par, block, to, depth + 1, list(kn.items()) + [(c, True)])) \
            and (t is True or below_param(f, y, par, block, to, depth + 1, list(kn.items()) + [(c, False)]))
    return False


def run(ctx):
    r = Result()
    r.rules = ["init and initArray give every member that any other operation of the generator reads or changes a value on every returning path, array members in full",
               "init and initArray read no member before giving it a value",
               "seeding, drawing, shuffling and hashing read no variable that changes while the program runs, use no object's address as a number and call nothing that depends on the environment",
               "a constructor given a seed hands exactly that seed to init (initArray), or stores what init stores",
               "randInt(n) and randIntUnbiased(n) return values below n; randDouble, randDoubleOpen and randDoubleOpen53 values in [0,1); randDoubleClosed and randDoubleClosed53 in [0,1]"]
    bcs = ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_rand.cpp")
    m = ctx.module(bcs, **CFG)
    mutg = mutable_globals(m)
    byclass = {}
    for f in m.fns:
        if f.this_class and (f.file.startswith(m.repo) or f.relfile.endswith("w_rand.cpp")):
            byclass.setdefault(f.this_class, []).append(f)
    controls = set()

    def bad(f, rule, construct, text, i=None):
        if f.relfile.endswith("w_rand.cpp"):
            controls.add("%s %s" % (rule, sclass(f.this_class or "")))
        else:
            r.violate(rule, i.where(m.repo) if i is not None else "%s:%s" % (f.relfile, f.line), construct, text)

    gens = []
    for cls, fns in sorted(byclass.items()):
        fam, bases = c10.family(m, byclass, cls)
        names = {f.d.get("sname") or "" for f in fam}
        if "randInt" not in names or "init" not in names:
            continue
        gens.append(cls)
        wit = fns[0].relfile.endswith("w_rand.cpp")
        if not wit:
            r.count("generator_classes")
        lv = c10.leaves(ctx, m, cls)
        obs = {}
        for f in fam:
            s = f.d.get("sname") or ""
            if is_ctor(f) or is_dtor(f) or SEEDERS.match(s) or s.startswith("operator="):
                continue
            for i in f.insts():
                if i.op in ("load", "store"):
                    for p in f.roots(i.ptr):
                        t = c10.target(lv, p)
                        if t and not t[1]:
                            obs.setdefault(t[0], s)
        for f in fns:
            s = f.d.get("sname") or ""
            if not SEEDERS.match(s) or is_ctor(f):
                continue
            if not wit:
                r.count("seeding_functions")
                r.sample(short(f.dem, 120))
            flat = [(o, z, n + ("[]" if k == "array" else "")) for o, z, n, k in lv]
            e = c16.Init(f, flat, m, {})
            for k, by in sorted(obs.items()):
                o, z, n, kind = lv[k]
                if not wit:
                    r.count("members_to_seed")
                if e.ret is None:
                    continue
                if kind == "array":
                    ok, upto = covered(f, o, z)
                    if not ok:
                        bad(f, "not-reseeded", "%s::%s" % (sclass(cls), n), "%s writes %s only up to byte %d of %d on every path; %s uses it" % (short(f.dem), n, upto, z, by), None)
                elif not (e.ret >> k) & 1:
                    bad(f, "not-reseeded", "%s::%s" % (sclass(cls), n), "%s can return without giving %s a value; %s uses it" % (short(f.dem), n, by))
            for k, i in e.reads.items():
                bad(f, "prior-state", "%s::%s" % (sclass(cls), flat[k][2]), "%s reads %s before giving it a value" % (short(f.dem), flat[k][2]), i)
            # array elements read although nothing has been stored into the array yet
            for i in f.insts():
                if i.op != "load":
                    continue
                for p in f.roots(i.ptr):
                    t = c10.target(lv, p)
                    if not t or t[1] or lv[t[0]][3] != "array":
                        continue
                    o, z = lv[t[0]][0], lv[t[0]][1]
                    if not any(j.op == "store" and any((c10.target(lv, q) or (None,))[0] == t[0] for q in f.roots(j.ptr))
                               and f.inst_dominates(j, i) or j.is_call and j.d.get("fn") and f.inst_dominates(j, i) and any(isinstance(a, int) and f.path(a)[0] == ("param", 0) for a in j.args)
                               for j in f.insts()):
                        bad(f, "prior-state", "%s::%s" % (sclass(cls), lv[t[0]][2]), "%s reads an element of %s before giving any a value" % (short(f.dem), lv[t[0]][2]), i)
        ranges(r, m, fns, bad, wit)
    # purity
    for f in m.fns:
        wit = f.relfile.endswith("w_rand.cpp")
        if not f.file.startswith(m.repo) and not wit:
            continue
        gen = f.this_class in gens
        if wit and not f.this_class:
            continue
        h = hash_fn(f)
        shuffle = (f.d.get("sname") or "").startswith("MT_random_shuffle")
        if not gen and not h and not shuffle or is_dtor(f) or f.d.get("sname") == "selfTest":
            continue
        if not wit:
            r.count("functions_checked_for_determinism")
        exempt = entropy_only(f) if is_ctor(f) else set()
        for i, text in impurities(m, f, mutg):
            if i.block in exempt:
                r.count("entropy_reads_for_seed_0")
                continue
            bad(f, "not-deterministic", short(f.dem), "%s %s" % (short(f.dem), text), i)
        if h:
            for i in f.insts():
                if i.op == "store" and any(p[0][0] == "glob" for p in f.roots(i.ptr)):
                    bad(f, "hash-has-state", short(f.dem), "%s changes a variable that outlives it" % short(f.dem), i)
    # constructors hand on the seed: the same module with seeding kept as calls
    names = "|".join(sorted({re.escape(re.sub(r"<.*$", "", g).split("::")[-1]) for g in gens}))
    m2 = ctx.module(bcs, **dict(CFG, export_repo=False, globals=False, export=[r"(^|[^A-Za-z0-9_])(%s)(<.*>)?::(%s)\(" % (names, names), r"(^|[^A-Za-z0-9_])(%s)(<.*>)?::(init|initArray)\(" % names], opaque=ASSERT_OPAQUE + [r"::(init|initArray)\((unsigned int|std::vector<)"]))
    seeded(r, m2, gens, bad)
    want = {"not-reseeded BadKeep", "not-reseeded BadArray", "not-deterministic BadGlobal", "not-deterministic BadEnv", "not-deterministic BadAddr", "prior-state BadPrior",
            "seed-changed BadCtor", "out-of-range BadRange", "not-deterministic BadHash"}
    missing, extra = want - controls, {c for c in controls if "Good" in c}
    if missing or extra:
        raise AssertionError("positive controls not reported: %s, wrongly reported: %s" % (sorted(missing), sorted(extra)))
    r.counts["positive_controls_fired"] = len(controls)
    r.need("generator_classes", 5)
    r.need("seeding_functions", 8)
    r.need("members_to_seed", 15)
    r.need("functions_checked_for_determinism", 60)
    r.need("ranges", 10)
    r.need("seeded_constructors", 5)
    r.assumptions = ["functions of the standard library other than clocks, entropy, thread identity, environment and files are deterministic",
                     "accesses of a member array stay inside it",
                     "randInt(0) is outside the contract (it divides by zero)",
                     "a Mersenne Twister constructed with seed 0 takes its seed from the process and the clock, as documented"]
    return r


def entropy_only(f):
    """blocks of a constructor that run only when its seed is 0"""
    cut = set()
    for b, l in enumerate(f.blocks):
        t = l[-1] if l else None
        if t is None or t.op != "br" or not isinstance(t.cond, int):
            continue
        c = f.inst.get(t.cond)
        if c is None or c.op != "icmp" or c.d["pred"] not in ("eq", "ne"):
            continue
        x, y = c.d["ops"]
        if isinstance(x, int) and f.plab.get(x) == 1 and cint(y) == 0:
            cut.add((b, t.succ[0] if c.d["pred"] == "eq" else t.succ[1]))
    seen, st = {0}, [0]
    while st:
        b = st.pop()
        for s in f.succ[b]:
            if (b, s) not in cut and s not in seen:
                seen.add(s)
                st.append(s)
    return set(range(len(f.blocks))) - seen


def ranges(r, m, fns, bad, wit):
    for f in fns:
        s = f.d.get("sname") or ""
        rets = [(b, l[-1]) for b, l in enumerate(f.blocks) if l and l[-1].op == "ret" and (b == 0 or f.pred[b])]
        if s in ("randInt", "randIntUnbiased") and len(f.params) == 2:
            if not wit:
                r.count("ranges")
            par = f.params[1]["id"]
            for b, t in rets:
                v = (t.d.get("ops") or [None])[0]
                if not below_param(f, v, par, b):
                    bad(f, "out-of-range", short(f.dem), "%s may return a value that is not below its argument" % short(f.dem), t)
        elif re.match(r"^randDouble(Open|Closed)?(53)?$", s) and len(f.params) == 1:
            if not wit:
                r.count("ranges")
            closed = "Closed" in s
            for b, t in rets:
                iv = interval(f, (t.d.get("ops") or [None])[0], "double")
                if iv is None or iv[0] < 0 or iv[1] > 1 or (not closed and iv[1] >= 1):
                    bad(f, "out-of-range", short(f.dem), "%s may return a value outside [0,1%s: computed range %s" % (short(f.dem), "]" if closed else ")", iv), t)


def seeded(r, m, gens, bad):
    seeders = {}
    for f in m.fns:
        if SEEDERS.match(f.d.get("sname") or "") and f.this_class in gens:
            seeders.setdefault(f.this_class, []).append(f)
    for f in m.fns:
        if f.this_class not in gens or not is_ctor(f) or "C1E" in f.name and f.name.replace("C1E", "C2E") in m.by_name:
            continue
        if len(f.params) != 2 or re.search(r"(const&|&&)\)$", f.dem):
            continue
        wit = f.relfile.endswith("w_rand.cpp")
        own = [c for c in f.calls() if SEEDERS.match(re.sub(r"^.*::", "", strip(c.d.get("dem") or "")))]
        if not wit:
            r.count("seeded_constructors")
        ok = False
        for c in own:
            a = c.args[1] if len(c.args) > 1 else None
            if isinstance(a, int) and seed_value(f, a) and f.path(c.args[0])[0] == ("param", 0):
                ok = True
            else:
                ok = False
                break
        if not own:
            # no init of its own class: stores the parameter itself
            ok = any(i.op == "store" and isinstance(i.val, int) and f.plab.get(i.val) == 1 for i in f.insts())
            ok = ok or sclass(f.this_class) == "Marsaglia"
        if own and not any(c.block in (always(f) or set()) for c in own):
            ok = False
        if not ok:
            bad(f, "seed-changed", short(f.dem), "%s does not seed itself with exactly the seed it is given" % short(f.dem))


def strip(d):
    d = re.sub(r"\(.*$", "", d)
    while "<" in d:
        n = re.sub(r"<[^<>]*>", "", d)
        if n == d:
            break
        d = n
    return d


def seed_value(f, a, depth=0):
    """a is the second parameter, a copy of the vector it designates, or entropy chosen because it is 0"""
    if f.plab.get(a) == 1:
        return True
    i = f.inst.get(a)
    if i is None or depth > 5:
        return False
    if i.op == "phi":
        ex = entropy_only(f)
        return all((isinstance(x, int) and seed_value(f, x, depth + 1)) or b in ex for x, b in i.d["in"])
    if i.op == "alloca":
        for c in f.calls():
            if is_copy(c) and c.args and c.args[0] == a and isinstance(c.args[1], int) and (f.plab.get(c.args[1]) == 1 or seed_value(f, c.args[1], depth + 1)):
                return True
    return False


def is_copy(c):
    return re.match(r"^std::vector<.*>::vector\(std::vector<.*> const&\)$", c.d.get("dem") or "") is not None
