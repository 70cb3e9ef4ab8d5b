"""C01: lock balance on every exit (return and exception)."""
import re
from lib.ctx import *
from lib.ir import *

LOCK = {"pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_spin_lock"}
TRY = {"pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_spin_trylock", "pthread_mutex_clocklock"}
UNLOCK = {"pthread_mutex_unlock", "pthread_rwlock_unlock", "pthread_spin_unlock"}
WAIT = {"pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait"}
ALL = LOCK | TRY | UNLOCK | WAIT

# What the public locking interface promises for its own mutex: (effect when it returns)
API = {"lock": 1, "unlock": -1, "trylock": "bool", "timedLock": "bool", "wait": 0, "timedWait": 0, "timedWaitAbs": 0}


def key_name(fn, key):
    mod = fn.mod
    out = []
    for k in key:
        if k[0] == "glob":
            out.append(mod.gname(k[1]))
        elif k[0] == "param":
            out.append((fn.param_by_label(k[1]) or {}).get("name") or "arg%s" % k[1])
        elif k[0] == "+":
            out.append("+%d" % k[1])
        elif k[0] == "*":
            out.append("->")
        else:
            out.append("%s" % (k[0],))
    return "".join(out)


def precise(key):
    return all(k[0] in ("glob", "param", "+", "*", "alloca") for k in key)


def acquires(m):
    """function -> process-wide mutexes (paths rooted at a variable with static storage) it may lock, through calls too"""
    acq, calls = {}, {}
    for f in m.fns:
        a, c = set(), set()
        for i in f.calls():
            n = i.d.get("fn")
            if n in LOCK:
                k = f.path(i.args[0])
                if k and k[0][0] == "glob" and precise(k):
                    a.add(k)
            elif n:
                c.add(n)
        acq[f.name], calls[f.name] = a, c
    changed = True
    while changed:
        changed = False
        for n, c in calls.items():
            for x in c:
                new = acq.get(x, set()) - acq[n]
                if new:
                    acq[n] |= new
                    changed = True
    return acq


def explore(fn, acq={}, nonnull=()):
    """fact = tuple of (key, delta, where); pointers loaded from the paths in nonnull are taken to be set"""
    events = []

    # construction guards of the function-local statics this function locks
    mine = set()
    for i in fn.calls():
        if i.d.get("fn") in ALL:
            k = fn.path(i.args[1] if i.d["fn"] in WAIT else i.args[0])
            if k and k[0][0] == "glob" and k[0][1].startswith("_ZZ"):
                mine.add("_ZGV" + k[0][1][2:])

    def guardvar(v):
        return v["n"] if isinstance(v, dict) and v.get("k") == "glob" and v["n"] in mine else None

    def inited(fact, g):
        e = ("guard " + g, "g", None)
        return fact if e in fact else tuple(sorted(fact + (e,), key=str))

    def step(ins, fact, env):
        # a function-local static once constructed on this path stays constructed
        if ins.op == "load" and nonnull and fn.path(ins.ptr) in nonnull:
            return [("n", fact, {ins.id: NZ})]
        if ins.op == "load" and guardvar(ins.ptr):
            g = guardvar(ins.ptr)
            if ("guard " + g, "g", None) in fact:
                return [("n", fact, {ins.id: NZ})]
            return [("n", fact, {ins.id: 0}), ("n", inited(fact, g), {ins.id: NZ})]
        if ins.is_call and ins.d.get("fn") == "__cxa_guard_release" and guardvar(ins.args[0]):
            return [("n", inited(fact, guardvar(ins.args[0])), None)]
        if ins.is_call and ins.d.get("fn") == "__cxa_guard_acquire" and guardvar(ins.args[0]):
            g = guardvar(ins.args[0])
            return [("n", fact, {ins.id: NZ}), ("n", inited(fact, g), {ins.id: 0})]
        if not ins.is_call or ins.d.get("fn") not in ALL:
            if ins.is_call and fact and acq.get(ins.d.get("fn")):
                for k, d, _ in fact:
                    if d != "g" and d >= 1 and k in acq[ins.d["fn"]]:
                        events.append(("relock", k, ins, ins.where(fn.mod.repo)))
            return outcomes(ins, fact)
        name = ins.d.get("fn")
        arg = ins.args[1] if name in WAIT else ins.args[0]
        key = fn.path(arg)
        cur = dict((k, (d, w)) for k, d, w in fact)
        d, w = cur.get(key, (0, None))
        where = ins.where(fn.mod.repo)

        def upd(nd, nw):
            c = dict(cur)
            if nd == 0:
                c.pop(key, None)
            else:
                c[key] = (nd, nw)
            return tuple(sorted(((k, a, b) for k, (a, b) in c.items()), key=str))
        if name in WAIT:
            if d == 0:
                events.append(("wait-unheld", key, ins, where))
            return [("n", fact, {ins.id: 0}), ("n", fact, {ins.id: NZ})]
        if name in UNLOCK:
            if d <= 0:
                events.append(("unlock-unheld", key, ins, where))
                nd = -1
            else:
                nd = d - 1
            # unlocking a mutex that is held does not fail; one that is not held is reported above
            return [("n", upd(nd, where), {ins.id: 0})]
        # lock / trylock
        if d >= 1 and name in LOCK:
            events.append(("relock", key, ins, where))
        nd = min(d + 1, 1)
        return [("n", upd(nd, where), {ins.id: 0}), ("n", fact, {ins.id: NZ})]

    e = Explore(fn, (), step, extra_track={i.id for i in fn.inst.values() if i.op == "load" and (guardvar(i.ptr) or nonnull and fn.path(i.ptr) in nonnull)})
    strip = lambda l: [(i, tuple(x for x in f if x[1] != "g"), env, k) for i, f, env, k in l]
    e.rets, e.excs = strip(e.rets), strip(e.excs)
    return e, events


def run(ctx):
    r = Result()
    r.rules = ["lockset dataflow over every path (normal and unwinding) of every function that reaches a pthread lock call, "
               "callees inlined: at return or propagation of an exception the locks held equal those held at entry",
               "no acquire of a lock already held (directly or in a callee that locks the same process-wide mutex), no release of a lock not held, no condition wait without its mutex",
               "lock/unlock/trylock/timedLock of a mutex class have exactly the effect their result reports",
               "a guard class whose constructor changes a lock undoes that in its destructor"]
    bcs = ctx.lib_bc() + ctx.witness_bc("w_locks.cpp")
    m = ctx.module(bcs, opaque=ASSERT_OPAQUE + ["^LintelLog::log\\("], inline=SMALL_STD, export_repo=True, prepasses=PRE_PASSES,
                   passes=STD_PASSES, types=True, globals=True, export_if_calls=["^pthread_(mutex|spin|rwlock)_(lock|unlock|trylock|timedlock|rdlock|wrlock)$"])
    analyse(ctx, r, m)
    r.need("functions", 20)
    r.need("lock_call_sites", 4)
    r.need("mutex_api_methods", 6)
    r.need("guard_classes", 2)
    # positive control: the witness functions with known defects must be reported
    return r


def is_method(fn, *names):
    return fn.d.get("sname") in names


def cls_short(c):
    return (c or "").split("<")[0].split("::")[-1]


def analyse(ctx, r, m):
    repo = m.repo
    controls = {}
    undecided = []
    sites = set()
    guard = {}
    callers = {}
    for f in m.fns:
        for i in f.calls():
            sc = i.d.get("scope") or []
            for s in sc[:-1]:
                callers.setdefault(s, set()).add(f.name)
    acq = acquires(m)
    r.count("functions_locking_process_wide_mutexes", len([1 for x in acq.values() if x]))
    for f in m.fns:
        try:
            e, events = explore(f, acq)
        except OverflowError:
            undecided.append(f.dem)
            continue
        nm = f.d.get("sname") or f.dem
        where = "%s:%d" % (f.relfile, f.line)
        is_witness_bad = nm.startswith("bad_")
        found = []
        for i in f.calls():
            if i.d.get("fn") in ALL:
                sites.add(tuple(i.d.get("loc", [])[:1]))
        ctor_dtor = f.this_class and (nm == cls_short(f.this_class) or nm.startswith("~"))
        api = f.this_class and nm in API and has_native_lock(m, f.this_class)
        helper = (f.d.get("linkage") == 7 or f.d.get("access") in ("private", "protected")) and not ctor_dtor and not api \
            and callers.get(nm, set()) - {f.name}
        rets = [(i, fact, env, k) for i, fact, env, k in e.rets]
        if ctor_dtor:
            effects = set()
            ukeys = {kk for i, fact, env, k in rets for kk, d, _ in fact if d < 0}
            if nm.startswith("~") and ukeys and any(not fact for i, fact, env, k in rets):
                # `if (lock != NULL) unlock`: with no lock there is nothing to give back
                bases = {u[:n] for u in ukeys for n in range(len(u)) if u[n][0] == "*"}
                rets = explore(f, acq, bases)[0].rets
            for i, fact, env, k in rets:
                effects.add(tuple((d, kk) for kk, d, _ in fact))
            g = guard.setdefault(f.this_class, {})
            g.setdefault("d" if nm.startswith("~") else "c", []).append((f, effects, e))
            if effects != {()}:
                # balance is judged on constructor+destructor together
                for i, fact, env, k in e.excs:
                    if not nm.startswith("~") and fact and all(d > 0 for _, d, _ in fact):
                        found.append(("guard-ctor-leak", fact[0][0], fact[0][2], i, k, "constructor leaves by exception with the lock held"))
                for kind, key, ins, w in events:
                    if kind == "relock" and precise(key):
                        found.append((kind, key, w, ins, None, ""))
                report(ctx, r, m, f, e, found, is_witness_bad, controls, where)
                continue
        if api:
            r.count("mutex_api_methods")
            want = API[nm]
            for i, fact, env, k in rets:
                d = sum(x[1] for x in fact)
                rv = evalv(f, env, i.d["ops"][0]) if i.d.get("ops") else None
                exp = want
                if want == "bool":
                    if rv is None:
                        exp = None
                    else:
                        exp = 1 if rv != 0 else 0
                if exp is None or d != exp:
                    found.append(("api-effect", fact[0][0] if fact else (("param", 0),), where, i, k,
                                  "%s returns%s with the mutex %s" % (nm, "" if rv is None else (" true" if rv else " false"),
                                                                      {1: "acquired", 0: "unchanged", -1: "released"}.get(d, str(d)))))
            for i, fact, env, k in e.excs:
                if any(d > 0 for _, d, _ in fact):
                    found.append(("api-effect", fact[0][0], where, i, k, "%s raises an error with the mutex acquired" % nm))
            report(ctx, r, m, f, e, found, is_witness_bad, controls, where)
            continue
        if helper:
            r.count("helpers_judged_at_callers")
            continue
        for kind, key, ins, w in events:
            if kind == "relock" and not precise(key):
                continue
            if kind == "unlock-unheld" and f.this_class and guard_like(m, f.this_class):
                continue
            found.append((kind, key, w, ins, None, ""))
        for i, fact, env, k in rets:
            for key, d, w in fact:
                found.append(("exit", key, w, i, k, "returns"))
        for i, fact, env, k in e.excs:
            for key, d, w in fact:
                found.append(("exit", key, w, i, k, "is left by an exception"))
        report(ctx, r, m, f, e, found, is_witness_bad, controls, where)
    # guard classes
    for c, g in sorted(guard.items()):
        ceff = {x for f, eff, e in g.get("c", []) for x in eff if x}
        deff = {x for f, eff, e in g.get("d", []) for x in eff if x}
        cs = sorted({d for x in ceff for d, _ in x})
        ds = sorted({d for x in deff for d, _ in x})
        if not cs and not ds:
            continue
        if not g.get("d") or not g.get("c"):
            continue    # destructor inherited: judged through the base class and the witness clients
        r.count("guard_classes")
        f = (g.get("c") or g.get("d"))[0][0]
        where = "%s:%d" % (f.relfile, f.line)
        ok = len(cs) == 1 and len(ds) == 1 and cs[0] == -ds[0] and \
            all(() not in eff for f2, eff, e in g.get("c", [])) and all(() not in eff for f2, eff, e in g.get("d", []))
        r.sample("guard class %s: constructor %+d, destructor %+d" % (c, cs[0] if cs else 0, ds[0] if ds else 0))
        if not ok:
            if f.d.get("sname", "").find("bad_") >= 0:
                continue
            r.violate("guard-pairing", where, c, "constructor changes the lock by %s and destructor by %s" % (cs or 0, ds or 0))
    if undecided and not r.violations:
        raise AssertionError("functions not decided (too many states): %s" % undecided)
    r.counts["lock_call_sites"] = len(sites)
    r.counts["functions"] = len(m.fns)
    # positive controls
    for want in ("bad_early_return", "bad_exception", "bad_double_lock", "bad_double_unlock"):
        if not controls.get(want):
            raise AssertionError("positive control %s was not reported: the lock analysis is broken" % want)
    r.counts["positive_controls_fired"] = len(controls)


def has_native_lock(m, cls):
    t = m.types.get(cls)
    if not t:
        return False
    for f in t["fields"]:
        if f.get("tdef") in ("pthread_mutex_t", "pthread_rwlock_t", "pthread_spinlock_t", "pthread_cond_t"):
            return True
        if f["kind"] == "base" and has_native_lock(m, f["type"]):
            return True
    return False


def guard_like(m, cls):
    return False


def report(ctx, r, m, f, e, found, bad, controls, where):
    r.count("paths_states", e.n_states)
    r.count("exits", len(e.rets) + len(e.excs))
    if bad:
        if found:
            controls[f.d["sname"]] = True
        return
    if f.relfile.startswith(VERIFW):
        # a witness client: attribute to the construct inside the repository
        pass
    r.sample("%s (%s): %d exits, %d exceptional" % (short(f.dem), where, len(e.rets), len(e.excs)))
    for kind, key, w, ins, k, text in found:
        kn = key_name(f, key)
        path = " <- ".join(e.trace(k)) if k else ""
        at = ins.where(m.repo)
        what = {
            "exit": "%s %s with lock %s (changed at %s) not restored" % (short(f.dem), text, kn, w),
            "relock": "%s acquires %s again while holding it" % (short(f.dem), kn),
            "unlock-unheld": "%s releases %s without holding it" % (short(f.dem), kn),
            "wait-unheld": "%s waits on a condition without holding %s" % (short(f.dem), kn),
            "guard-ctor-leak": "%s: %s" % (short(f.dem), text),
            "api-effect": "%s: %s" % (short(f.dem), text),
        }[kind]
        r.violate("lock-" + kind, w or at, "%s / %s" % (f.dem, kn), what + " (exit at %s; path %s)" % (at, path))


VERIFW = "/verif/witness/"
