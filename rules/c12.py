"""C12: a failed assertion reports itself once, through the hooks, and never continues (typestate over the assertion machinery's and macros' LLVM IR; effect analysis of debug-only conditions)."""
import os
import re
from lib import build
from lib.ctx import *
from lib.ir import *

CFG = dict(opaque=["^AssertBoostException::AssertBoostException\\(char"], inline=SMALL_STD + ["__gnu_cxx::operator[!=]=<"], prepasses=PRE_PASSES, passes=STD_PASSES, types=True, export_repo=True, globals=True)
MCFG = dict(CFG, opaque=["^AssertBoost", "^AssertExceptionT::", "^wit::Sub::"])
A, S, O = "_ZTI20AssertBoostException", "_ZTISt9exception", "other"
HOOK = re.compile(r"^boost::function_n?\d*<.*>::operator\(\)\(|^boost::function4<.*>::operator\(\)\(|^std::function<.*>::operator\(\)\(")
STRCTOR = re.compile(r"::basic_string[<(\[]|::basic_string<")
DIES = {"abort", "_Exit", "_exit", "exit", "quick_exit", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_throw", "__cxa_rethrow", "_Unwind_Resume", "__cxa_call_unexpected"}


def origin(f, v, depth=0):
    """the parameter label a value is (or the slot it is passed through holds), or None"""
    if not isinstance(v, int) or depth > 8:
        return None
    if v in f.plab:
        return f.plab[v]
    i = f.inst.get(v)
    if i is None:
        return None
    if i.op == "alloca":
        st = [u for u in f.uses.get(v, []) if u.op == "store" and u.ptr == v]
        if len(st) == 1:
            return origin(f, st[0].val, depth + 1)
        # an object initialised from a parameter (copied string)
        cs = [u for u in f.uses.get(v, []) if u.is_call and (u.args or [None])[0] == v and "basic_string" in (u.d.get("dem") or "") and len(u.args) > 1 and "::~" not in u.d["dem"]]
        if len(cs) == 1:
            return origin(f, cs[0].args[1], depth + 1)
        return None
    if i.op == "load":
        return origin(f, i.ptr, depth + 1) if isinstance(i.ptr, int) and f.inst.get(i.ptr) is not None and f.inst[i.ptr].op == "alloca" else None
    if i.op in ("sext", "zext", "trunc", "freeze", "bitcast"):
        return origin(f, i.d["ops"][0], depth + 1)
    if i.is_call and re.search(r"::(c_str|data)\(\)", i.d.get("dem") or ""):
        return origin(f, i.args[0], depth + 1)
    if i.op == "phi":
        s = {origin(f, x[0], depth + 1) for x in i.d["in"]}
        return s.pop() if len(s) == 1 else None
    return None


def natural_loops(f):
    if getattr(f, "_nl", None) is None:
        d = {}
        for b, ss in enumerate(f.succ):
            for h in ss:
                if f.idom[b] is not None and f.dominates(h, b):
                    body, st = d.setdefault(h, {h}), [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += f.pred[x]
        f._nl = d
    return f._nl


def strip(f, v):
    while isinstance(v, int) and f.inst.get(v) is not None and f.inst[v].op in ("sext", "zext", "trunc", "freeze", "bitcast"):
        v = f.inst[v].d["ops"][0]
    return v


def hook_source(f, i):
    """(list global, loop header, pointer value) of a hook call"""
    v = i.args[i.this_arg]
    for _ in range(6):
        x = f.inst.get(v) if isinstance(v, int) else None
        if x is not None and x.op == "alloca":
            c = [u for u in f.uses.get(v, []) if u.is_call and len(u.args or []) > 1 and u.args[0] == v and "~" not in (u.d.get("dem") or "") and u.id != i.id]
            if len(c) == 1:
                v = c[0].args[1]
                continue
        break
    for r in f.roots(v):
        for h, body in sorted(natural_loops(f).items(), key=lambda x: len(x[1])):
            if i.block in body and r[0][0] == "glob":
                return r[0][1], h, v
        if r[0][0] == "glob":
            return r[0][1], None, v
    return None, None, v


def whole_range(f, h, call, v, g):
    """why the loop calls not every hook in list g; None when it does (or its shape is not known)"""
    body = natural_loops(f)[h]
    nonexc = {}
    # every turn of the loop passes the call
    if not must_pass(f, h, call.block, body):
        return "passes a hook by on some turn"
    x = f.inst.get(v) if isinstance(v, int) else None
    if x is None:
        return None
    start = step = None
    ph = x
    if x.op == "getelementptr" and x.var:
        w = strip(f, x.var[-1][0])
        ph = f.inst.get(w) if isinstance(w, int) else None
        if x.off or ph is None or ph.op != "phi":
            return "skips hooks at the start" if x.off else None
    if ph.op != "phi" or ph.block != h:
        return "calls the same hook on every turn" if ph.op == "load" and ph.block not in body else None
    for y, b in ph.d["in"]:
        if b in body:
            z = f.inst.get(y) if isinstance(y, int) else None
            if z is not None and z.op == "getelementptr" and z.base == ph.id and not z.var:
                step = 1 if z.off == 32 else z.off
            elif z is not None and z.op in ("add", "sub") and z.d["ops"][0] == ph.id:
                step = cint(z.d["ops"][1])
        else:
            if isinstance(y, dict):
                start = cint(y)
            else:
                p = f.path(y)
                if p[:1] == (("glob", g),):
                    start = 0 if p[1:] == (("*",),) else ("off" if p[1:2] == (("*",),) else None)
    if step is not None and step not in (1,):
        return "does not go from one hook to the next"
    if start is not None and start != 0:
        return "does not begin at the first hook"
    # ways out of the loop other than by an exception or death
    for b in body:
        t = f.blocks[b][-1]
        if t.op not in ("br", "switch"):
            continue
        for s in f.succ[b]:
            if s in body:
                continue
            if on_flag(f, t.cond, g):
                continue
            c = f.inst.get(t.cond) if isinstance(t.cond, int) else None
            if c is None or c.op not in ("icmp", "call"):
                return "can stop before the last hook"
            ops = c.d["ops"] if c.op == "icmp" else c.args
            def steps(o):
                o = strip(f, o)
                k = f.inst.get(o) if isinstance(o, int) else None
                return o == ph.id or (k is not None and k.op in ("getelementptr", "add") and ph.id in operands_of(k))
            if not any(map(steps, ops)):
                return "can stop before the last hook"
            other = [o for o in ops if strip(f, o) != ph.id]
            for o in other:
                k = f.inst.get(strip(f, o)) if isinstance(o, int) else None
                if k is not None and k.op in ("add", "sub") and cint(k.d["ops"][1]) is not None:
                    return "stops short of the last hook"
                if k is not None and k.op == "getelementptr" and k.off and ph.id not in operands_of(k):
                    return "stops short of the last hook"
    return None


def operands_of(i):
    return [x for x in operands(i) if isinstance(x, int)]


def on_flag(f, v, g, depth=0):
    """the condition looks at a plain static variable other than the list"""
    i = f.inst.get(v) if isinstance(v, int) else None
    if i is None or depth > 5:
        return False
    if i.op == "load":
        p = f.path(i.ptr)
        return len(p) == 1 and p[0][0] == "glob" and p[0][1] != g and i.ty != "ptr"
    return i.op in ("icmp", "trunc", "zext", "xor", "and", "or", "freeze") and any(on_flag(f, o, g, depth + 1) for o in i.d["ops"])


def must_pass(f, h, via, body):
    """no way round the loop from h back to h without passing via"""
    st, seen = [s for s in f.succ[h] if s in body], set()
    if h == via:
        return True
    while st:
        y = st.pop()
        if y == via or y in seen:
            continue
        if y == h:
            return False
        seen.add(y)
        t = f.blocks[y][-1]
        ss = f.succ[y][:1] if t.op == "invoke" else f.succ[y]
        st += [s for s in ss if s in body]
    return True


# -- AssertBoostFail itself -----------------------------------------------------
def fail(ctx, r, f, m):
    where = "%s:%s" % (f.relfile, f.line)
    hooks = {}
    lists = {}
    for i in f.calls():
        if HOOK.match(i.d.get("dem") or ""):
            g, h, v = hook_source(f, i)
            if g is None:
                continue
            hooks[i.id] = (g, h)
            r.count("hook_calls")
            if h is None:
                r.violate("hooks-not-all", i.where(m.repo), m.gname(g), "only one hook of the list is called")
            else:
                why = whole_range(f, h, i, v, g)
                if why:
                    r.violate("hooks-not-all", i.where(m.repo), m.gname(g), "the loop over the hooks in %s %s" % (m.gname(g), why))
            k = i.this_arg + 1
            got = [origin(f, a) for a in (i.args or [])[k:k + 4]]
            if got != [0, 1, 2, 3]:
                r.violate("hook-arguments", i.where(m.repo), m.gname(g), "the hook is not given the failed expression, file, line and message, in that order, of this failure")
            lists.setdefault(g, []).append(i)
    if not hooks:
        r.violate("hooks-not-all", where, "hooks", "no hook is called when an assertion fails")
        return None, None
    # flags: small globals that are set and cleared here
    flags = {}
    for i in f.insts():
        if i.op == "store":
            p = f.path(i.ptr)
            if len(p) == 1 and p[0][0] == "glob" and p[0][1] in m.globals and m.globals[p[0][1]]["size"] in (1, 4):
                flags.setdefault(p[0][1], set())
    flags = sorted(flags)
    heads = {}
    for i, (g, h) in hooks.items():
        heads[h if h is not None else f.inst[i].block] = g
    first_of = {}
    for b, g in heads.items():
        for i in f.blocks[b]:
            if i.op != "phi":
                first_of[i.id] = g
                break
    loads = {}
    for i in f.insts():
        if i.op == "load":
            p = f.path(i.ptr)
            if len(p) == 1 and p[0][0] == "glob" and p[0][1] in flags:
                loads[i.id] = flags.index(p[0][1])
    err = {}
    seen_lists = [set(), set()]     # lists met before / after the message on abort paths

    def say(rule, ins, text):
        err.setdefault((rule, ins.where(m.repo)), (ins, text))

    # fact: (shown bits, lists passed (before, after), flag values, entry values)
    def step(i, fact, env):
        shown, before, after, fl, ent = fact
        if i.id in first_of:
            g = first_of[i.id]
            if shown == 0 and g not in before:
                before = before | {g}
            elif shown and g not in before and g not in after:
                after = after | {g}
            fact = (shown, before, after, fl, ent)
        if i.id in loads:
            k = loads[i.id]
            if fl[k] is None:
                out = []
                for val in (0, 1):
                    nf = fl[:k] + (val,) + fl[k + 1:]
                    ne = ent[:k] + (val,) + ent[k + 1:]
                    out.append(("n", (shown, before, after, nf, ne), {i.id: val}))
                return out
            return [("n", fact, {i.id: fl[k]})]
        if i.op == "store":
            p = f.path(i.ptr)
            if len(p) == 1 and p[0][0] == "glob" and p[0][1] in flags:
                k = flags.index(p[0][1])
                val = evalv(f, env, i.val)
                return [("n", (shown, before, after, fl[:k] + (val if val in (0, None) else 1,) + fl[k + 1:], ent), None)]
            return [("n", fact, None)]
        if not i.is_call:
            return [("n", fact, None)]
        d = i.d.get("dem") or ""
        if i.id in hooks:
            g = hooks[i.id][0]
            if not any(e == 0 and v == 1 for e, v in zip(ent, fl)):
                say("recursion-undetected", i, "a hook is called without first marking that hooks are running: an assertion failing inside a hook would call the hooks again without end")
            if any(e == 1 for e in ent):
                say("recursion-undetected", i, "a hook is called although an assertion failed inside a hook")
            if g in after and shown != 15:
                say("message-order", i, "hooks registered for after the message are called before the message is complete")
            if g in before and shown:
                say("message-order", i, "hooks registered for before the message are called after it")
            return [("n", fact, None), ("x", fact, None)]
        n = i.d.get("fn") or ""
        if i.noreturn or n in DIES:
            if n in ("abort", "_exit", "_Exit", "exit", "quick_exit", "_ZSt9terminatev"):
                dying(i, fact)
            return []
        if (i.d.get("intr") or "").startswith(("llvm.lifetime", "llvm.assume")) or "::~" in d:
            return [("n", fact, None)]
        if re.search(r"::(size|length|empty)\(\)", d) and i.args and origin(f, i.args[0]) == 3:
            em = "empty" in d
            return [("n", fact, {i.id: -1 if not em else 0}), ("n", (shown | 8, before, after, fl, ent), {i.id: 0 if not em else -1})] if i.ty == "i1" else \
                [("n", fact, {i.id: 5}), ("n", (shown | 8, before, after, fl, ent), {i.id: 0})]
        for a in i.args or []:
            o = origin(f, a)
            if o in (0, 1, 2, 3) and not re.search(r"::(c_str|data)\(\)", d) and ("basic_string" not in d.split("(")[0] or "operator<<" in d):
                shown |= 1 << o
        return [("n", (shown, before, after, fl, ent), None)]

    def dying(i, fact):
        shown, before, after, fl, ent = fact
        if any(e == 1 for e in ent):
            if shown != 15:
                say("message-lost", i, "an assertion that fails inside a hook is not reported in full before the program dies")
            r.count("fatal_paths")
            return
        r.count("fatal_paths")
        if shown != 15:
            miss = [n for k, n in enumerate(("the expression", "the file", "the line", "the message")) if not shown >> k & 1]
            say("message-lost", i, "the program dies without having written %s of the failed assertion" % " and ".join(miss))
        seen_lists[0].add(frozenset(before))
        seen_lists[1].add(frozenset(after))
        if i.d.get("fn") in ("exit", "_exit", "_Exit", "quick_exit") and cint(i.args[0]) == 0:
            say("not-fatal", i, "a failed assertion ends the program with a success status")

    init = (0, frozenset(), frozenset(), (None,) * len(flags), (None,) * len(flags))
    ex = Explore(f, init, step, extra_track=list(loads))
    r.count("path_states", ex.n_states)
    for i, fact, env, k in ex.rets:
        r.violate("not-fatal", where, "AssertBoostFail", "a failed assertion can return to its caller")
    for i, fact, env, k in ex.excs:
        fl, ent = fact[3], fact[4]
        r.count("exceptional_exits")
        if any(e == 0 and v not in (0,) for e, v in zip(ent, fl)):
            r.violate("recursion-stuck", i.where(m.repo), "AssertBoostFail", "when a hook leaves by an exception the mark that hooks are running stays set: the next failed assertion is taken for one inside a hook, and its hooks are not called")
    falls(f, r, m, where)
    for (rule, w), (i, text) in err.items():
        r.violate(rule, w, "AssertBoostFail", text)
    allb = frozenset.intersection(*seen_lists[0]) if seen_lists[0] else frozenset()
    alla = frozenset.intersection(*seen_lists[1]) if seen_lists[1] else frozenset()
    if not seen_lists[0]:
        r.violate("not-fatal", where, "AssertBoostFail", "no path of a failed assertion ends the program")
    elif not allb or not alla:
        r.violate("hooks-not-all", where, "AssertBoostFail", "the hooks registered for %s the message are not called on every path" % ("before" if not allb else "after"))
    return allb, alla


def falls(f, r, m, where):
    """control falls off the end of a function that must not return"""
    for b, l in enumerate(f.blocks):
        if l[-1].op != "unreachable":
            continue
        prev = [i for i in l[:-1] if i.is_call and not i.d.get("intr")]
        ok = bool(prev) and (prev[-1].noreturn or prev[-1].d.get("fn") in DIES)
        if not ok and not l[:-1]:
            ok = all(f.blocks[p][-1].op == "invoke" and f.blocks[p][-1].noreturn for p in f.pred[b]) and f.pred[b]
        if not ok and any(f.idom[b] is not None or b == 0 for _ in (0,)):
            r.violate("not-fatal", l[-1].where(m.repo), "AssertBoostFail", "%s, which must not return, can run off its end" % short(f.dem))


def format_overload(r, f, m):
    """format.str() becomes the message, whatever it does; exactly one call of the string overload on every path"""
    FAIL = re.compile(r"^AssertBoostFail\(char const\*, char const\*, int, std::")
    where = "%s:%s" % (f.relfile, f.line)
    err = {}
    strs = [i for i in f.calls() if re.search(r"basic_format<.*>::str(\[abi:cxx11\])?\(\)|boost::str(\[abi:cxx11\])?<|operator<<", i.d.get("dem") or "") and any(origin(f, a) == 3 for a in i.args or [])]
    if not strs:
        r.violate("message-lost", where, "AssertBoostFail(format)", "the message of a failed assertion is not the text of its format")
    ids = {i.id for i in strs}

    def step(i, fact, env):
        if not i.is_call:
            return [("n", fact, None)]
        d = i.d.get("dem") or ""
        if i.id in ids:
            return [("n", "text", None), ("x", "threw", None)]
        if FAIL.match(d):
            if [origin(f, a) for a in i.args[:3]] != [0, 1, 2]:
                err[("hook-arguments", i.where(m.repo))] = "the failed expression, file and line are not handed on unchanged"
            if fact == "none":
                err[("message-lost", i.where(m.repo))] = "a failed assertion is reported before its message has been formatted"
            return [("x", "failed", None)]
        if i.noreturn or i.d.get("fn") in DIES:
            if fact != "failed" and (i.d.get("fn") or "") not in ("__clang_call_terminate",):
                err[("message-lost", i.where(m.repo))] = "the program dies without reporting the failed assertion"
            return []
        return [("n", fact, None)]

    ex = Explore(f, "none", step)
    r.count("path_states", ex.n_states)
    for i, fact, env, k in ex.rets:
        err[("not-fatal", where)] = "a failed assertion can return to its caller"
    for i, fact, env, k in ex.excs:
        if fact != "failed":
            err[("message-lost", i.where(m.repo))] = "an exception while formatting the message of a failed assertion replaces the assertion"
    for (rule, w), t in err.items():
        r.violate(rule, w, "AssertBoostFail(format)", t)
    falls(f, r, m, where)
    # what the message is: the formatted text on the normal path
    for i in f.calls():
        if FAIL.match(i.d.get("dem") or ""):
            v = i.args[3]
            vi = f.inst.get(v) if isinstance(v, int) else None
            ok = False
            if vi is not None and vi.op == "alloca":
                for s in strs:
                    t = s.args[0]
                    if t == v or any(u.is_call and len(u.args or []) > 1 and u.args[0] == v and u.args[1] == t for u in f.uses.get(v, [])):
                        ok = True
                    if any(v in (u.args or [])[:1] and s.id in (u.args or []) for u in f.uses.get(v, []) if u.is_call):
                        ok = True
            if not ok and strs:
                r.violate("message-lost", i.where(m.repo), "AssertBoostFail(format)", "the message reported is not the formatted text")


# -- registration ------------------------------------------------------------------
ADD = re.compile(r"::(push_back|emplace_back|insert|push_front)(<.*>)?\(")
CLEAR = re.compile(r"::(clear|erase|resize|swap|operator=|_M_erase_at_end)(<.*>)?\(")


def registers(r, f, m, g, what):
    where = "%s:%s" % (f.relfile, f.line)

    def step(i, fact, env):
        if i.is_call and ADD.search(i.d.get("dem") or "") and f.path(i.args[i.this_arg])[0] == ("glob", g) and len(f.path(i.args[i.this_arg])) == 1:
            return [("n", fact + 1, None), ("x", fact, None)] if fact < 3 else []
        if i.is_call and CLEAR.search(i.d.get("dem") or "") and f.path(i.args[i.this_arg])[0] == ("glob", g):
            return [("n", 9, None)]
        return outcomes(i, fact)
    ex = Explore(f, 0, step)
    for i, fact, env, k in ex.rets:
        r.count("registrations")
        if fact != 1:
            r.violate("hook-not-registered", where, short(f.dem), "a hook given for %s the message is not added (once) to the hooks called there" % what)


def clears(r, f, m, gs):
    where = "%s:%s" % (f.relfile, f.line)
    for g in gs:
        def step(i, fact, env):
            if i.is_call and CLEAR.search(i.d.get("dem") or "") and any(f.path(a)[0] == ("glob", g) for a in i.args or [] if not isinstance(a, dict) or a.get("k") == "glob"):
                return [("n", 1, None)]
            return outcomes(i, fact)
        ex = Explore(f, 0, step)
        for i, fact, env, k in ex.rets:
            r.count("registrations")
            if fact != 1:
                r.violate("hooks-not-cleared", where, m.gname(g), "AssertBoostClearFns leaves hooks registered in %s" % m.gname(g))


def fields_from_params(r, f, m, cls, want):
    """constructor: each named field is initialised from its parameter"""
    t = m.types.get(cls)
    if not t:
        return
    off = {x["name"]: (x["off"], x["size"]) for x in t["fields"]}
    got = {}
    for i in f.insts():
        tgt = src = None
        if i.op == "store":
            p, src = f.path(i.ptr), origin(f, i.val)
        elif i.is_call and len(i.args or []) > 1 and "basic_string" in (i.d.get("dem") or "") and "::~" not in i.d["dem"]:
            p, src = f.path(i.args[0]), origin(f, i.args[1])
        else:
            continue
        if p[0] == ("param", 0) and len(p) <= 2 and src is not None:
            o = p[1][1] if len(p) == 2 and p[1][0] == "+" else 0
            for n, (a, sz) in off.items():
                if a == o:
                    got.setdefault(n, []).append((src, i))
    for n, k in want.items():
        if n not in off:
            continue
        r.count("exception_fields")
        g = got.get(n)
        if not g or any(x != k for x, _ in g):
            r.violate("exception-content", (g[0][1] if g else f.blocks[0][0]).where(m.repo), "%s::%s" % (cls, n), "%s is not taken from the corresponding argument of the constructor" % n)


def thrower(r, f, m):
    ctor = [i for i in f.calls() if (i.d.get("dem") or "").startswith("AssertBoostException::AssertBoostException(char")]
    where = "%s:%s" % (f.relfile, f.line)
    if not ctor or any([origin(f, a) for a in i.args[1:5]] != [0, 1, 2, 3] for i in ctor):
        r.violate("exception-content", where, "AssertBoostThrowExceptionFn", "the exception is not built from the failed expression, file, line and message")
    ex = Explore(f, 0, lambda i, x, e: [("x", 1, None)] if i.d.get("fn") == "__cxa_throw" and (i.args[1] or {}).get("n") == A else outcomes(i, x))
    if ex.rets or not any(x[1] == 1 for x in ex.excs):
        r.violate("not-fatal", where, "AssertBoostThrowExceptionFn", "the hook that turns assertions into exceptions can return without throwing an AssertBoostException")


def what_fn(r, f, m):
    where = "%s:%s" % (f.relfile, f.line)
    r.count("exception_fields")

    def srcs(v, seen):
        if isinstance(v, int) and v in seen:
            return
        i = f.inst.get(v) if isinstance(v, int) else None
        if isinstance(v, int):
            seen.add(v)
        if i is not None and i.op in ("phi", "select"):
            for x in ([y[0] for y in i.d["in"]] if i.op == "phi" else i.d["ops"][1:]):
                yield from srcs(x, seen)
        else:
            yield v
    for i in f.insts():
        if i.op == "ret":
            for v in srcs(i.d["ops"][0], set()):
                if isinstance(v, dict):
                    if v.get("k") == "null" or v.get("k") == "undef":
                        r.violate("exception-content", i.where(m.repo), "AssertBoostException::what", "what() can return a null pointer")
                    continue
                p = f.path(v)
                j = f.inst.get(v)
                if j is not None and j.is_call:
                    a = f.path(j.args[0]) if j.args else ()
                    if a and a[0] not in (("param", 0),) and a[0][0] != "glob":
                        r.violate("exception-content", i.where(m.repo), "AssertBoostException::what", "what() returns text that does not belong to the exception object")
                elif p[0] not in (("param", 0),) and p[0][0] != "glob":
                    r.violate("exception-content", i.where(m.repo), "AssertBoostException::what", "what() returns text that does not belong to the exception object")


def summary_fn(r, f, m):
    t = m.types.get("AssertBoostException")
    off = {x["off"]: x["name"] for x in t["fields"] if x["kind"] != "base"}
    used = set()
    for i in f.calls():
        if "basic_string" in (i.d.get("dem") or "").split("(")[0] and "operator+" not in i.d["dem"]:
            pass
        for a in i.args or []:
            p = f.path(a)
            if p[0] == ("param", 0) and len(p) == 2 and p[1][0] == "+":
                used.add(off.get(p[1][1]))
            if p[0][0] == "val" and isinstance(a, int):
                j = f.inst.get(a)
                if j is not None and j.op == "load":
                    q = f.path(j.ptr)
                    if q[0] == ("param", 0) and len(q) == 2:
                        used.add(off.get(q[1][1]))
    for i in f.insts():     # scalars copied to a temporary
        if i.op == "load":
            q = f.path(i.ptr)
            if q[0] == ("param", 0) and len(q) == 2 and q[1][0] == "+":
                used.add(off.get(q[1][1]))
    for n in ("expression", "filename", "line", "msg"):
        r.count("exception_fields")
        if n not in used:
            r.violate("exception-content", "%s:%s" % (f.relfile, f.line), "AssertBoostException::summary", "summary() leaves out the %s of the failed assertion" % n)


# -- the macros ------------------------------------------------------------------
def matches(f, lp, exc):
    """type-info the landing pad selects for exception kind exc, or None when it is only passed through"""
    for c in lp.clauses or []:
        if c["k"] != "catch":
            continue
        v = c["v"]
        n = v.get("n") if isinstance(v, dict) else None
        if v.get("k") == "null" or n is None:
            return "any"
        if exc == A and n in (A, S):
            return n
        if exc == S and n == S:
            return n
    return None


def macro(r, f, m, kind, say):
    """kind: text expected as the expression; None for macros without a condition"""
    src = f.file
    cond = [i.id for i in f.calls() if (i.d.get("dem") or "") == "wit::cond()"]
    msgs = {i.id for i in f.calls() if (i.d.get("dem") or "").startswith(("wit::msg", "wit::fmt"))}
    fails = [i for i in f.calls() if (i.d.get("dem") or "").startswith("AssertBoostFail(")]
    sels = {}
    for i in f.insts():
        if i.op == "icmp" and i.pred == "eq":
            for o in i.d["ops"]:
                j = f.inst.get(o) if isinstance(o, int) else None
                if j is not None and j.is_call and (j.d.get("intr") or "").startswith("llvm.eh.typeid.for"):
                    sels[i.id] = j.args[0].get("n")
    texts = lambda v: (m.globals.get(v.get("n")) or {}).get("str", "").rstrip("\0") if isinstance(v, dict) else None

    # fact: (condition calls, truth, message calls, fails, exception in flight, its selection, last thrown)
    def step(i, fact, env):
        nc, truth, nm, nf, exc, sel = fact
        if i.op == "landingpad":
            return [("n", (nc, truth, nm, nf, exc, matches(f, i, exc)), None)]
        if i.id in sels:
            return [("n", fact, {i.id: -1 if sel in (sels[i.id],) else 0})]
        if not i.is_call:
            return [("n", fact, None)]
        n = i.d.get("fn") or ""
        if i.id in cond:
            if nc:
                say("evaluated-twice", i, "the condition is evaluated more than once")
            return [("n", (1, 1, nm, nf, exc, sel), {i.id: -1}), ("n", (1, 0, nm, nf, exc, sel), {i.id: 0}), ("x", (2, 0, nm, nf, O, None), None)]
        if i.id in msgs:
            if truth == 1:
                say("message-evaluated", i, "the message is evaluated although the condition holds")
            if cond and nc == 0:
                say("message-evaluated", i, "the message is evaluated before the condition")
            if nm:
                say("evaluated-twice", i, "the message is evaluated more than once")
            return [("n", (nc, truth, 1, nf, exc, sel), None)] + [("x", (nc, truth, 1, nf, e, None), None) for e in (S, O)]
        if i in fails:
            if truth == 1:
                say("false-alarm", i, "the assertion fails although its condition holds")
            if nf and exc == A:
                say("exception-replaced", i, "the exception a hook raised for the failed assertion is replaced by another failure")
            if texts(i.args[0]) != kind:
                say("expression-text", i, "the failed expression is reported as '%s' instead of '%s'" % (texts(i.args[0]), kind))
            if texts(i.args[1]) is None or not src.endswith(texts(i.args[1]).split("/")[-1]) or cint(i.args[2]) != i.line_of_user:
                say("expression-text", i, "the file and line reported are not those of the assertion")
            return [("x", (nc, truth, nm, min(nf + 1, 2), e, None), None) for e in (A, S, O)]
        if n == "__cxa_throw":
            t = i.args[1].get("n") if isinstance(i.args[1], dict) else None
            return [("x", (nc, truth, nm, nf, t if t in (A, S) else O, None), None)]
        if n == "__cxa_rethrow":
            return [("x", fact, None)]
        if i.noreturn:
            return []
        if n == "__cxa_end_catch":
            return [("n", fact, None)]
        return [("n", fact, None)]

    ex = Explore(f, (0, None, 0, 0, None, None), step, extra_track=list(sels) + cond)
    r.count("path_states", ex.n_states)
    for i, (nc, truth, nm, nf, exc, sel), env, k in ex.rets:
        if not (truth == 1 and nc == 1 and nf == 0):
            say("not-fatal", i, "execution continues after the assertion although its condition does not hold" if truth == 0 or not cond else "the condition is not evaluated")
    for i, (nc, truth, nm, nf, exc, sel), env, k in ex.excs:
        if nc == 2 or (exc == O and nm and nf == 0):
            continue        # the user's own exception
        if nf == 0:
            say("message-lost", i, "an exception while evaluating the message replaces the failed assertion, which is not reported")
    # an AssertBoostException raised by a hook reaches the caller as such: decided by following it
    for i, (nc, truth, nm, nf, exc, sel), env, k in ex.excs:
        if nf == 1 and exc not in (A, S, O):
            say("exception-replaced", i, "the exception a hook raised does not reach the caller")


def run_macros(ctx, r, m, debug_on, controls):
    for f in m.fns:
        mm = re.match(r"^wit::(m|bad)_(\w+)\(\)$", f.dem)
        if not mm:
            continue
        bad = mm.group(1) == "bad"
        name = mm.group(2)
        dbg = name.startswith("debug")
        if bad and not debug_on:
            continue
        for i in f.calls():
            # the line of the user's own text: the outermost frame in the witness
            i.d["line_of_user"] = next((int(l.rsplit(":", 1)[1]) for l in reversed(i.d.get("loc") or []) if "w_assert.cpp:" in l), None)
        found = []

        def say(rule, i, text):
            if bad:
                controls.add("%s %s" % (name, rule))
            elif (rule, text) not in found:
                found.append((rule, text))
        if dbg and not debug_on:
            for i in f.calls():
                if (i.d.get("dem") or "").startswith(("wit::", "AssertBoost")):
                    say("debug-not-off", i, "the debug-only assertion evaluates its arguments although debugging is off")
        else:
            macro(r, f, m, "Fatal error" if name.startswith("fatal") else "cond()", say)
        if not bad:
            r.count("macros")
            mac = {"invariant": "INVARIANT", "checked": "CHECKED", "sinvariant": "SINVARIANT", "fatal": "FATAL_ERROR", "debug": "DEBUG_INVARIANT", "debugs": "DEBUG_SINVARIANT"}[name.split("_")[0]]
            for rule, text in found:
                r.violate(rule, "include/Lintel/AssertBoost.hpp", mac, "%s: %s" % (mac, text))


def exception_macros(r, m):
    for f in m.fns:
        if not re.match(r"^wit::x_\w+\(\)$", f.dem):
            continue
        r.count("macros")
        cond = [i.id for i in f.calls() if i.d.get("dem") == "wit::cond()"]
        num = [i.id for i in f.calls() if i.d.get("dem") == "wit::num()"]
        want = "_ZTIN3wit3SubE" if "sub" in f.dem else "_ZTI16AssertExceptionT"
        err = set()

        def step(i, fact, env):
            nc, truth, thrown = fact
            if i.id in cond:
                return [("n", (nc + 1 if nc < 2 else 2, 1, thrown), {i.id: -1}), ("n", (nc + 1 if nc < 2 else 2, 0, thrown), {i.id: 0})]
            if i.id in num and truth == 1:
                err.add("the message is evaluated although the condition holds")
            if i.d.get("fn") == "__cxa_throw":
                if (i.args[1] or {}).get("n") != want:
                    err.add("an exception of another type is thrown")
                return [("x", (nc, truth, True), None)]
            return outcomes(i, fact) if i.d.get("noreturn") else [("n", fact, None)]
        ex = Explore(f, (0, None, False), step, extra_track=cond)
        for i, fact, env, k in ex.rets:
            if fact != (1, 1, False):
                err.add("execution continues although the condition does not hold" if fact[1] == 0 else "the condition is not evaluated exactly once")
        if not any(x[1] == (1, 0, True) for x in ex.excs) or any(x[1][1] == 1 and x[1][2] for x in ex.excs):
            err.add("the exception is not thrown exactly when the condition does not hold")
        for t in err:
            r.violate("not-fatal", "include/Lintel/AssertException.hpp", "AssertException", "AssertException: " + t)


def test_macros(r, m):
    for f in m.fns:
        if not re.match(r"^wit::t_\w+\(\)$", f.dem):
            continue
        r.count("macros")
        sels = {}
        for i in f.insts():
            if i.op == "icmp" and i.pred == "eq":
                for o in i.d["ops"]:
                    j = f.inst.get(o) if isinstance(o, int) else None
                    if j is not None and j.is_call and (j.d.get("intr") or "").startswith("llvm.eh.typeid.for"):
                        sels[i.id] = j.args[0].get("n")
        err = set()

        def step(i, fact, env):
            reg, ran, failed, exc, sel, cleared, tested = fact
            d = i.d.get("dem") or ""
            if i.op == "landingpad":
                return [("n", (reg, ran, failed, exc, matches(f, i, exc), cleared, tested), None)]
            if i.id in sels:
                return [("n", fact, {i.id: -1 if sel == sels[i.id] else 0})]
            if not i.is_call:
                return [("n", fact, None)]
            if d.startswith("AssertBoostFnBefore"):
                return [("n", (1, ran, failed, exc, sel, 0, tested), None)]
            if d.startswith("AssertBoostClearFns"):
                return [("n", (0, ran, failed, exc, sel, 1, tested), None)]
            if d == "wit::body()":
                if not reg:
                    err.add("the code is run without assertions being turned into exceptions")
                return [("n", (reg, 1, failed, exc, sel, cleared, tested), None), ("x", (reg, 2, failed, A, None, cleared, tested), None)]
            if d.startswith("AssertBoostFail("):
                return [("x", (reg, ran, 1, A if reg else O, None, cleared, tested), None)]
            if re.search(r"operator==|::compare\(", d) and ran:
                return [("n", (reg, ran, failed, exc, sel, cleared, 1), None)]
            if i.d.get("fn") == "__cxa_throw":
                t = i.args[1].get("n") if isinstance(i.args[1], dict) else None
                return [("x", (reg, ran, failed, t if t in (A, S) else O, None, cleared, tested), None)]
            if i.d.get("fn") == "__cxa_rethrow":
                return [("x", fact, None)]
            return [] if i.noreturn else [("n", fact, None)]
        ex = Explore(f, (0, 0, 0, None, None, 0, 0), step, extra_track=list(sels))
        for i, (reg, ran, failed, exc, sel, cleared, tested), env, k in ex.rets:
            if ran == 1 and not failed:
                err.add("succeeds although the code raised no assertion")
            if reg or not cleared:
                err.add("leaves the hooks set")
        for t in err:
            r.violate("test-macro", "include/Lintel/TestUtil.hpp", "TEST_INVARIANT_MSGVEC", "TEST_INVARIANT: " + t)


# -- AssertExceptionT::stringPrintF ---------------------------------------------
def print_f(r, f, m):
    calls = [i for i in f.calls() if i.d.get("fn") == "vsnprintf"]
    where = "%s:%s" % (f.relfile, f.line)
    ids = {i.id: i for i in calls}
    if not calls:
        return
    r.count("bounded_formats", len(calls))
    for site in calls:
        # the text is longer than any buffer: what comparisons of the returned length with a size come to
        pins = {}
        for i in f.insts():
            if i.op == "icmp" and not any(isinstance(o, dict) for o in i.d["ops"]):
                x, y = (strip(f, o) for o in i.d["ops"])
                if isinstance(i.d["ops"][0], int) and x == site.id != y:
                    pins[i.id] = -1 if i.pred in ("ne", "sgt", "sge", "ugt", "uge") else 0
                elif y == site.id != x:
                    pins[i.id] = -1 if i.pred in ("ne", "slt", "sle", "ult", "ule") else 0

        def step(i, fact, env, site=site, pins=pins):
            if i.id in ids:
                if fact == 0 and i.id == site.id:
                    return [("n", 1, {i.id: 1 << 20})]
                if fact == 1:
                    return [("n", 2, None)]
            if i.id in pins and fact:
                return [("n", fact, {i.id: pins[i.id]})]
            return outcomes(i, fact)
        if cint(site.args[1]) is None and site is not calls[0]:
            continue        # sized from the first call's result
        ex = Explore(f, 0, step, extra_track=[site.id] + list(pins))
        for i, fact, env, k in ex.rets:
            if fact == 1:
                r.violate("message-lost", site.where(m.repo), short(f.dem), "a message longer than the buffer is cut off and padded with bytes that were never written: it is not formatted again when it did not fit")
                break


# -- debug-only conditions --------------------------------------------------------
PURE_STD = re.compile(r"^(std::|__gnu_cxx::|boost::|non-virtual thunk)|::operator(==|<|!=|>|<=|>=)|^operator|^__builtin_|^isnan|^isinf|^_?fabs|^lintel::Compare|^str(len|cmp|ncmp|chr)$|^mem(cmp|chr)$")


class Effects:
    """which arguments' targets (or statics) a call changes: {label or 'static': how}"""

    def __init__(self, m):
        self.m = m
        self.memo = {}

    def of(self, name):
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = {}
        f = self.m.by_name.get(name)
        if f is None:
            return {}
        res = {}

        def note(v, how):
            for p in f.roots(v):
                if p[0][0] == "param":
                    res.setdefault(p[0][1], how)
                elif p[0][0] == "glob":
                    res.setdefault("static", how)
        for i in f.insts():
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                note(i.ptr, "%s writes it" % short(f.dem, 60))
            elif i.is_call and not i.d.get("intr") and not i.noreturn and not (i.onlyread or i.nomem):
                g = self.m.by_name.get(i.d.get("fn") or "")
                if g is not None:
                    e = self.of(g.name)
                    if "static" in e:
                        res.setdefault("static", e["static"])
                    for n, a in enumerate(i.args or []):
                        lab = g.plab.get(g.params[n]["id"]) if n < len(g.params) else None
                        if lab in e:
                            note(a, e[lab])
                elif MUTATES.search((i.d.get("dem") or "").split("(")[0].split("<")[0]) or re.search(r"::(push_back|push_front|pop_back|insert|erase|clear|resize|emplace|reserve|swap|append|assign)(<.*>)?\(", i.d.get("dem") or ""):
                    if i.args:
                        note(i.args[i.this_arg], "%s calls %s" % (short(f.dem, 60), short(i.d.get("dem") or "", 60)))
            elif i.is_call and (i.d.get("intr") or "").startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                note(i.args[0], "%s writes it" % short(f.dem, 60))
        self.memo[name] = res
        return res


MUTATES = re.compile(r"::(push_back|push_front|pop_back|pop_front|pop|push|insert|erase|clear|resize|emplace|emplace_back|reserve|swap|append|assign|reset|operator(\+\+|--|=|\+=|-=|\|=|&=|<<|>>))$")


def debug_conditions(ctx, r, m):
    eff = Effects(m)
    units = ctx.work.ast(ctx.work.lib_sources() + [build.VERIF + "/witness/w_all.cpp"], extra=("-DDEBUG=1",))
    seen = set()
    r.count("debug_condition_nodes", sum(u["debug_nodes"] for u in units))
    for u in units:
        for d in u["debug"]:
            f = d["file"].replace(m.repo, "")
            k = (f, d["line"], d["what"], d["callee"])
            if k in seen:
                continue
            seen.add(k)
            if d["name"] == "__builtin_expect":
                r.count("debug_conditions")
                continue
            where = "%s:%d" % (f, d["line"])
            if d["what"] in ("assignment", "increment or decrement", "new", "delete"):
                r.violate("debug-effect", where, d["fn"], "a debug-only assertion contains %s %s: with debugging off the program behaves differently" % ("an" if d["what"][0] in "ai" else "a", d["what"]))
                continue
            r.count("debug_calls")
            e = "; ".join(sorted(set(eff.of(d["callee"]).values())))
            if not e and d["name"].startswith(("std::", "__gnu_cxx::")) and d["what"] != "call" and MUTATES.search(d["name"]):
                e = "%s changes its object" % d["name"]
            if e:
                r.violate("debug-effect", where, d["fn"], "a debug-only assertion calls %s, which has effects (%s): with debugging off the program behaves differently" % (d["name"], e))


def run(ctx):
    r = Result()
    r.rules = ["AssertBoostFail: on every path, with hooks returning or throwing: hooks of the first list for every element, then expression, file, line and message written, then hooks of the second list, then "
               "abnormal termination; never a return; the running-hooks mark set around every hook call, tested before, and cleared on the exceptional exit",
               "format overload: the text of the format, or a fixed text when formatting fails, is handed to the string overload on every path",
               "registration adds to the list called at that point; clearing empties both; exceptions carry the four values",
               "every macro, instantiated once: condition evaluated exactly once, message only on failure, the right expression text, file and line, exceptions of the message turned into the failure, "
               "hook exceptions reach the caller unchanged, no normal continuation",
               "debug-only assertions evaluate nothing when off, and contain no effect (directly or in a callee) when on"]
    m = ctx.module(ctx.work.compile([ctx.repo + "/src/AssertBoost.cpp", ctx.repo + "/src/AssertException.cpp"]), **CFG)
    byd = {}
    for f in m.fns:
        byd.setdefault(f.dem.split("(")[0], []).append(f)
    anchors = 0
    pre = post = frozenset()
    for f in byd.get("AssertBoostFail", []):
        if "basic_format" in f.dem:
            continue
        anchors += 1
        pre, post = fail(ctx, r, f, m)
    m2 = ctx.module(ctx.work.compile([ctx.repo + "/src/AssertBoost.cpp"]), **dict(CFG, opaque=CFG["opaque"] + ["^AssertBoostFail\\("]))
    for f in m2.fns:
        if f.dem.startswith("AssertBoostFail(") and "basic_format" in f.dem:
            anchors += 1
            format_overload(r, f, m2)
    for f in byd.get("AssertBoostFnBefore", []):
        anchors += 1
        for g in pre or ():
            registers(r, f, m, g, "before")
    for f in byd.get("AssertBoostFnAfter", []):
        anchors += 1
        for g in post or ():
            registers(r, f, m, g, "after")
    for f in byd.get("AssertBoostClearFns", []):
        anchors += 1
        clears(r, f, m, sorted((pre or frozenset()) | (post or frozenset())))
    for f in byd.get("AssertBoostThrowExceptionFn", []):
        anchors += 1
        thrower(r, f, m)
    for f in m.fns:
        if f.dem == "AssertBoostException::what() const":
            anchors += 1
            what_fn(r, f, m)
        if f.dem.startswith("AssertBoostException::summary"):
            anchors += 1
            summary_fn(r, f, m)
        if f.dem.startswith("AssertBoostException::AssertBoostException(char"):
            anchors += 1
            fields_from_params(r, f, m, "AssertBoostException", {"expression": 1, "filename": 2, "line": 3, "msg": 4})
        if f.dem.startswith("AssertExceptionT::AssertExceptionT(std::"):
            fields_from_params(r, f, m, "AssertExceptionT", {"condition": 1, "message": 2, "filename": 3, "lineno": 4})
        if "stringPrintF" in f.dem:
            print_f(r, f, m)
    r.count("anchors", anchors)
    controls = set()
    for on in (True, False):
        mm = ctx.module(ctx.work.compile([build.VERIF + "/witness/w_assert.cpp"], extra=("-DDEBUG=1",) if on else ()), **MCFG)
        run_macros(ctx, r, mm, on, controls)
        if on:
            exception_macros(r, mm)
            test_macros(r, mm)
            for f in mm.fns:
                if f.dem.startswith("AssertExceptionT::AssertExceptionT(std::") and f.name.find("C2") > 0:
                    fields_from_params(r, f, mm, "AssertExceptionT", {"condition": 1, "message": 2, "filename": 3, "lineno": 4})
                if f.dem.startswith("AssertBoostException::AssertBoostException(char"):
                    fields_from_params(r, f, mm, "AssertBoostException", {"expression": 1, "filename": 2, "line": 3, "msg": 4})
    bcs = ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",))
    debug_conditions(ctx, r, ctx.module(bcs, opaque=["."], export_repo=True, prepasses=PRE_PASSES, passes=STD_PASSES))
    want = {"twice_msg evaluated-twice", "ignored_msg not-fatal", "eager_msg message-evaluated", "other_msg expression-text", "unguarded_msg message-lost", "masked_msg exception-replaced"}
    if want - controls:
        raise AssertionError("positive controls not reported: %s" % sorted(want - controls))
    r.count("positive_controls_fired", len(want))
    r.need("anchors", 8)
    r.need("macros", 10)
    r.need("hook_calls", 2)
    r.need("debug_conditions", 20)
    r.assumptions += ["hooks may do anything, including throw; formatting and writing to cerr are taken not to throw (format strings are decided in C18)",
                      "hook lists are not changed while hooks run"]
    return r
