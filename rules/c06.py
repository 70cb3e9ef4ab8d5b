"""C06: heap memory is freed exactly once, with the matching form (ownership typestate over every path)."""
import re
from lib.ctx import *
from lib.ir import *
from lib.own import *

NEW = {"_Znwm": "new", "_ZnwmRKSt9nothrow_t": "new", "_ZnwmSt11align_val_t": "new", "_Znam": "new[]", "_ZnamRKSt9nothrow_t": "new[]",
       "malloc": "malloc", "calloc": "malloc", "strdup": "malloc", "strndup": "malloc", "realloc": "malloc", "xmlGetProp": "xml", "xmlNodeGetContent": "xml", "xmlStrdup": "xml"}
DEL = {"_ZdlPv": "new", "_ZdlPvm": "new", "_ZdaPv": "new[]", "_ZdaPvm": "new[]", "_ZdlPvSt11align_val_t": "new", "free": "malloc", "realloc": "malloc"}
ALLOC = re.compile(r"^(std::(__)?(new_)?allocator(_traits)?<.*>|__gnu_cxx::new_allocator<.*>|std::__new_allocator<.*>|std::allocator_traits<.*>)::allocate\(")
DEALLOC = re.compile(r"^(std::(__)?(new_)?allocator(_traits)?<.*>|__gnu_cxx::new_allocator<.*>|std::__new_allocator<.*>|std::allocator_traits<.*>)::deallocate\(")
CALLBACK = re.compile(r"^(boost|std)::function[0-9N]*<.*>::operator\(\)\(")
# operations of a container that discard elements
SMART = re.compile(r"^((std|boost)::)?(\w+::)*(shared_ptr|scoped_ptr|unique_ptr|auto_ptr|scoped_array|shared_array)<")
DROP = re.compile(r"^(clear|erase|remove|resize|assign|pop_back|pop_front|pop|swap|operator=|rotate|flushRotate)$")


def acquire(ins):
    n, d = ins.d.get("fn") or "", ins.d.get("dem") or ""
    if n in NEW:
        return NEW[n]
    if ALLOC.match(d):
        return "allocator"
    return None


class Cfg:
    ints = False

    def __init__(self, m, deletes):
        self.m = m
        self.deletes = deletes
        self.throws = Throws(m)
        self.captures = captures_fn(m, self.release)

    def release(self, ins):
        n, d = ins.d.get("fn") or "", ins.d.get("dem") or ""
        if n in DEL:
            return 0
        if n.endswith("D0Ev"):
            return 0
        if DEALLOC.match(d):
            return 1 if not d.startswith("std::allocator_traits") else 1
        c = ins.d.get("callee")
        if not n and c is not None:
            if isinstance(c, int):
                f = ins.fn
                p = f.path(c)
                if p[0] == ("glob", "xmlFree"):
                    return 0
                if ins.ty == "void" and len(ins.args or []) == 1 and (ins.d.get("loc") or [""])[0] in self.deletes:
                    return 0
        return None

    def form(self, ins):
        n, d = ins.d.get("fn") or "", ins.d.get("dem") or ""
        if n in DEL:
            return DEL[n]
        if n.endswith("D0Ev"):
            return "new"
        if DEALLOC.match(d):
            return "allocator"
        if isinstance(ins.d.get("callee"), int) and ins.fn.path(ins.callee)[0] == ("glob", "xmlFree"):
            return "xml"
        return "new"

    def closer(self, name):
        return DEL.get(name)

    def can_fail(self, ins):
        return (ins.d.get("fn") or "") in ("malloc", "calloc", "strdup", "realloc", "xmlGetProp") or acquire(ins) is None

    def counted(self, ins):
        return self.throws.call(ins)


CFG = dict(opaque=ASSERT_OPAQUE, inline=SMALL_STD, prepasses=PRE_PASSES, passes=STD_PASSES, types=True, export_repo=True, max_insts=1500)


def base(f, v, n=0):
    """strip constant offsets and casts"""
    while isinstance(v, int) and n < 30:
        i = f.inst.get(v)
        if i is None:
            return v
        if i.op == "getelementptr" and not i.var:
            v = i.base
        elif i.op in ("bitcast", "freeze"):
            v = i.d["ops"][0]
        else:
            return v
        n += 1
    return v


def sources(f, v, seen=None):
    seen = seen if seen is not None else set()
    v = base(f, v)
    if not isinstance(v, int) or v in seen:
        return set()
    seen.add(v)
    i = f.inst.get(v)
    if i is not None and i.op in ("phi", "select"):
        vs = [x[0] for x in i.d["in"]] if i.op == "phi" else i.d["ops"][1:]
        return set().union(*[sources(f, x, seen) for x in vs]) if vs else set()
    return {v}


def run(ctx):
    r = Result()
    r.rules = ["every allocation reaches, on every normal and exceptional path, a matching deallocation, the caller, or an owner; it is not used or freed again afterwards",
               "a field that owns memory: every destructor path frees it; no member overwrites it while it holds memory nor leaves it dangling; a constructor that throws frees it; "
               "released with the form it was allocated with; objects cannot be copied implicitly",
               "a field whose elements are owned frees the elements in the destructor and before it drops them"]
    bcs = ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_heap.cpp")
    m = ctx.module(bcs, **CFG)
    deletes = set()
    for u in ctx.ast():
        for d in u["deletes"]:
            deletes.add("%s:%d" % (d["file"], d["line"]))
    cfg = Cfg(m, deletes)
    analyse(ctx, r, m, cfg)
    r.need("allocation_sites", 60)
    r.need("owning_fields", 12)
    return r


def analyse(ctx, r, m, cfg):
    controls = {}
    undecided = []
    owned = {}      # (class, path) -> {"alloc": {form: where}, "free": {form: ins}}
    fns = [f for f in m.fns if f.file.startswith(m.repo) or f.relfile.startswith("/verif/")]
    sites = set()
    for f in fns:
        rels = [i for i in f.calls() if cfg.release(i) is not None and cfg.release(i) < len(i.args or [])]
        acq = [(i, acquire(i)) for i in f.calls() if acquire(i)]
        have = {i.id for i, _ in acq}
        for i in rels:
            for v in sources(f, i.args[cfg.release(i)]):
                c = f.inst.get(v)
                if c is not None and c.is_call and c.id not in have and c.ty == "ptr" and not c.d.get("intr"):
                    d = c.d.get("dem") or ""
                    if CALLBACK.match(d):
                        pass
                    elif re.match(r"^(std::|boost::)", d) or not own_result(m, c):
                        continue
                    have.add(c.id)
                    acq.append((c, None))
                if c is not None and c.op == "load":
                    p = f.path(c.ptr)
                    if p[0] == ("param", 0) and f.this_class and len(p) <= 2 and all(s[0] == "+" for s in p[1:]):
                        o = owned.setdefault((f.this_class, p), {"alloc": {}, "free": {}})
                        o["free"].setdefault(cfg.form(i), (f, i))
        for i, kind in acq:
            where = i.where(m.repo)
            sites.add(where)
            for p in stored(f, i):
                if p[0] == ("param", 0) and f.this_class and len(p) <= 2 and all(s[0] == "+" for s in p[1:]):
                    o = owned.setdefault((f.this_class, p), {"alloc": {}, "free": {}})
                    if kind:
                        o["alloc"].setdefault(kind, (f, i))
            try:
                e = Own(f, cfg, site=i)
            except OverflowError:
                undecided.append("%s in %s" % (where, f.dem))
                continue
            r.count("path_states", e.n_states)
            report(r, m, f, i, "the memory allocated" if kind else "the object obtained", e, {kind} if kind else None, controls)
    r.counts["allocation_sites"] = len(sites)
    # fields
    names = {}
    for (cls, p), o in owned.items():
        off = p[1][1] if len(p) > 1 else 0
        names[(cls, p)] = resolve(m, cls, off)
    merged = {}
    for k, o in owned.items():
        d = merged.setdefault(names[k], {"alloc": {}, "free": {}})
        for w in ("alloc", "free"):
            for form, x in o[w].items():
                d[w].setdefault(form, x)
    done = set()
    for (cls, p), o in sorted(owned.items(), key=lambda x: str(x[0])):
        decl, fname = names[(cls, p)]
        if cls.startswith("std::") or cls.startswith("boost::"):
            continue
        full = "%s::%s" % (decl, fname)
        forms = set(merged[(decl, fname)]["alloc"])
        d = merged[(decl, fname)]
        if full not in done:
            done.add(full)
            r.count("owning_fields")
            r.sample("%s: allocated by %s, freed by %s" % (full, "/".join(sorted(forms)) or "the caller", "/".join(sorted(d["free"])) or "nobody"))
            for form, (f, i) in sorted(d["free"].items()):
                if forms and form not in forms:
                    ctl(f, controls) or r.violate("mismatched-free", i.where(m.repo), full, "%s is allocated with %s but released with the form for %s in %s" % (
                        full, "/".join(sorted(forms)), form, short(f.dem)))
        dt = [f for f in fns if f.this_class == cls and is_dtor(f)]
        if not dt:
            src = next(iter(list(d["alloc"].values()) or list(d["free"].values())))
            ctl(src[0], controls) or r.violate("owner-never-frees", src[1].where(m.repo), full, "%s owns memory but %s has no destructor" % (full, cls))
        for f in fns:
            if f.this_class != cls or is_ctor(f) or not f.params:
                continue
            if not is_dtor(f) and (not touches(f, p) or ctor_only(m, f.name)):
                continue
            try:
                e = Own(f, cfg, field=p)
            except OverflowError:
                undecided.append("%s of %s" % (f.dem, full))
                continue
            r.count("owner_functions")
            report(r, m, f, None, full, e, None, controls)
        for c in ctx.classes().get(cls, []):
            r.count("copy_checks")
            if cls == decl and cls not in WITNESS and (c["copy_ctor"] == "implicit" or c["copy_assign"] == "implicit"):
                r.violate("owner-copied", "%s:%d" % (c["file"], c["line"]), full, "%s owns %s but its objects can be copied implicitly: both copies would free it" % (cls, full))
    elements(ctx, r, m, cfg, fns, controls)
    thread_keys(r, m, fns)
    if undecided and not r.violations:
        raise AssertionError("not decided: %s" % undecided)
    missing = [w for w in ("bad_leak", "bad_throw", "bad_twice", "bad_use", "bad_form", "BadOwner::~BadOwner", "BadOwner::reset", "BadOwner::reset2", "BadOwner::BadOwner", "BadElems::~BadElems", "BadElems::drop", "BadElems::part") if not controls.get(w)]
    if missing:
        raise AssertionError("positive controls not reported: %s" % missing)
    r.counts["positive_controls_fired"] = len(controls)


def member_offsets(f, v):
    """offsets inside *this from which the value is computed"""
    out, seen, st = set(), set(), [v]
    allocas = {}
    while st:
        v = st.pop()
        if not isinstance(v, int) or v in seen:
            continue
        seen.add(v)
        p = f.path(v)
        if p[0] == ("param", 0):
            if len(p) > 1:
                out.add((p[1][1] if p[1][0] == "+" else 0, len(p)))
            continue
        if p[0][0] == "alloca" and ("a", p[0][1]) not in seen:
            seen.add(("a", p[0][1]))
            if not allocas:
                for i in f.insts():
                    if i.op == "store":
                        q = f.path(i.ptr)
                        if q[0][0] == "alloca":
                            allocas.setdefault(q[0][1], []).append(i.val)
                    elif i.is_call and not (i.d.get("intr") or "").startswith("llvm.lifetime"):
                        for a in i.args or []:
                            if isinstance(a, int):
                                q = f.path(a)
                                if q[0][0] == "alloca":
                                    allocas.setdefault(q[0][1], []).extend(x for x in i.args if x != a)
            st += allocas.get(p[0][1], [])
        i = f.inst.get(v)
        if i is None:
            continue
        if i.op == "load":
            st.append(i.ptr)
        elif i.op == "getelementptr":
            st.append(i.base)
        elif i.op == "phi":
            st += [x[0] for x in i.d["in"]]
        elif i.op == "select":
            st += i.d["ops"][1:]
        elif i.is_call:
            st += i.args or []
            out |= this_field(f, i)
        elif i.op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "extractvalue"):
            st += [x for x in i.d["ops"] if isinstance(x, int)]
    return out


def this_field(f, i):
    """the member object a method is called on, as an offset"""
    k = i.this_arg
    if k >= len(i.args or []):
        return set()
    p = f.path(i.args[k])
    if p[0] != ("param", 0):
        return set()
    if len(p) > 1:
        return {(p[1][1] if p[1][0] == "+" else 0, len(p))}
    own = re.sub(r"\s+", "", f.this_class) + "::"
    if re.sub(r"\s+", "", i.d.get("dem") or own).startswith(own) or not member_call(i):
        return set()
    return {(0, 1)}


def top_field(m, cls, off, n=0):
    t = m.types.get(cls)
    if not t or n > 8:
        return None
    for fl in t["fields"]:
        if fl["off"] <= off < fl["off"] + max(fl["size"], 1):
            if fl["kind"] == "base":
                return top_field(m, fl["type"], off - fl["off"], n + 1) if hasfields(m, fl["type"]) else None
            return (cls, fl["name"], fl["type"] or "")
    return None


def field_of(m, f, offs, mine):
    """fields of f's class (declared by a repository class) that the offsets fall into"""
    res = set()
    for off, _ in offs:
        t = top_field(m, f.this_class, off)
        if t and t not in mine and not SMART.match(t[2]):
            res.add(t[:2])
    return res


def elements(ctx, r, m, cfg, fns, controls):
    """containers and arrays whose elements are owned pointers"""
    info = {}       # (declaring class, field) -> {"free": [(f, ins)], "alloc": [(f, ins)]}
    rel_of = {}     # function -> [(ins, fields)]
    members = [f for f in fns if f.this_class and f.params and not f.this_class.startswith(("std::", "boost::"))]
    for f in members:
        for i in f.calls():
            k = cfg.release(i)
            if k is None or k >= len(i.args or []):
                continue
            if (i.d.get("sclass") or [""])[0] not in ("", sclass(f.this_class)):
                continue    # inside a method of the element, or of a container or smart pointer
            a = i.args[k]
            direct = False
            for v in sources(f, a):
                c = f.inst.get(v)
                if c is not None and c.op == "load":
                    p = f.path(c.ptr)
                    if p[0] == ("param", 0) and len(p) <= 2 and all(x[0] == "+" for x in p[1:]):
                        direct = True
                if c is not None and c.is_call:
                    direct = True
            if direct:
                continue
            fs = field_of(m, f, member_offsets(f, a), set())
            if fs:
                rel_of.setdefault(f.name, []).append((i, fs))
                why = (partial(f, a) or skipping(f, i, a)) if not is_ctor(f) else None
                if why:
                    ctl(f, controls) or r.violate("elements-partly-freed", i.where(m.repo), "%s::%s" % sorted(fs)[0], "%s frees the elements of %s in a loop that %s" % (short(f.dem), "%s::%s" % sorted(fs)[0], why))
                for x in fs:
                    info.setdefault(x, {"free": [], "alloc": []})["free"].append((f, i))
        for i in f.calls():
            if not acquire(i):
                continue
            for u in stores_of(f, i):
                p = f.path(u.ptr)
                if p[0] == ("param", 0):
                    if any(x[0] == "[]" for x in p):
                        fs = field_of(m, f, {(p[1][1] if p[1][0] == "+" else 0, 0)}, set())
                        for x in fs:
                            info.setdefault(x, {"free": [], "alloc": []})["alloc"].append((f, i))
                    continue
                fs = set()
                if p[0][0] == "call":
                    c = f.inst[p[0][1]]
                    fs = field_of(m, f, this_field(f, c) or (member_offsets(f, c.args[c.this_arg]) if len(c.args or []) > c.this_arg else set()), set())
                elif p[0][0] == "alloca" and len(p) == 1:
                    for c in f.uses.get(u.ptr, []):
                        if c.is_call and not c.d.get("intr") and u.ptr in (c.args or [])[1:] and re.search(r"::(push_back|push_front|push|insert|add|emplace_back)\(", c.d.get("dem") or ""):
                            fs |= field_of(m, f, this_field(f, c) or member_offsets(f, c.args[c.this_arg]), set())
                for x in fs:
                    info.setdefault(x, {"free": [], "alloc": []})["alloc"].append((f, i))
    def frees(f, x, seen=None):
        """instructions of f after which elements of x have been freed: releases, and calls of own methods that contain some"""
        seen = seen if seen is not None else set()
        if f.name in seen:
            return []
        seen.add(f.name)
        out = [i for i, fs in rel_of.get(f.name, []) if x in fs]
        for i in f.calls():
            g = m.by_name.get(i.d.get("fn") or "")
            if g is not None and g.this_class and len(i.args or []) > i.this_arg and f.path(i.args[i.this_arg]) == (("param", 0),) and frees(g, x, seen):
                out.append(i)
        return out

    for (cls, fname), o in sorted(info.items()):
        full = "%s::%s" % (cls, fname)
        wit = cls in WITNESS
        if not wit:
            r.count("element_owning_fields")
            r.sample("elements of %s: freed in %s" % (full, ", ".join(sorted({short(f.dem, 60) for f, _ in o["free"]})) or "nobody"))
        owner = [f for f in members if f.this_class == cls]
        src = (o["free"] + o["alloc"])[0]
        dt = [f for f in owner if is_dtor(f) and "D0Ev" not in f.name]

        def say(f, rule, where, text):
            ctl(f, controls) or r.violate(rule, where, full, text)
        if not dt:
            say(src[0], "elements-never-freed", src[1].where(m.repo), "the elements of %s are owned (see %s) but %s has no destructor that frees them" % (full, short(src[0].dem), cls))
        for f in dt:
            rels = frees(f, (cls, fname))
            if not rels or not all(any(covers(m, f, j, x, cls, fname) for j in rels) for x in f.insts() if x.op == "ret"):
                say(f, "elements-never-freed", "%s:%s" % (f.relfile, f.line), "the elements of %s are owned (see %s) but the destructor does not free them on every path" % (full, short(src[0].dem)))
        for f in owner:
            if is_ctor(f) or is_dtor(f):
                continue
            rels = frees(f, (cls, fname))
            for i in drops(m, f, cls, fname):
                if not wit:
                    r.count("element_drops")
                if any(covers(m, f, j, i, cls, fname) for j in rels):
                    continue
                if judged_at_callers(m, f, lambda g: bool(frees(g, (cls, fname)))):
                    continue
                say(f, "elements-dropped", i.where(m.repo), "%s discards elements of %s, which are owned, without freeing them" % (short(f.dem), full))
        for c in ctx.classes().get(cls, []):
            if not wit and (c["copy_ctor"] == "implicit" or c["copy_assign"] == "implicit"):
                r.violate("owner-copied", "%s:%d" % (c["file"], c["line"]), full, "the elements of %s are owned but objects of %s can be copied implicitly: both copies would free them" % (full, cls))


def stores_of(f, site):
    st, seen, out = [site.id], {site.id}, []
    while st:
        v = st.pop()
        for u in f.uses.get(v, []):
            if (u.op in ("phi", "select", "bitcast") or (u.op == "getelementptr" and not u.var and u.base == v)) and u.id not in seen:
                seen.add(u.id)
                st.append(u.id)
            elif u.op == "store" and u.val == v:
                out.append(u)
    return out


def thread_keys(r, m, fns):
    """memory kept in a per-thread slot is freed by the slot's destructor when the thread ends"""
    keeps = set()
    for f in fns:
        for i in f.calls():
            if i.d.get("fn") == "pthread_setspecific":
                if any(f.inst.get(v) is not None and f.inst[v].is_call and acquire(f.inst[v]) for v in sources(f, i.args[1])):
                    p = f.path(i.args[0])
                    keeps.add(p[:1])
    if not keeps:
        return
    for f in fns:
        for i in f.calls():
            if i.d.get("fn") == "pthread_key_create":
                r.count("thread_keys")
                d = i.args[1]
                g = m.by_name.get(d.get("n")) if isinstance(d, dict) and d.get("k") == "fn" else None
                if g is None or not any(release_of_param(m, g, j) for j in g.calls()):
                    r.violate("thread-slot", i.where(m.repo), f.dem, "per-thread memory is kept under this key but the key has no destructor that frees it when the thread ends")


def release_of_param(m, g, j):
    n = j.d.get("fn") or ""
    if not j.args:
        return False
    if n in DEL or n.endswith("D0Ev"):
        return g.path(j.args[0])[0] == ("param", 0) or any(g.path(v)[0] == ("param", 0) for v in sources(g, j.args[0]))
    return not n and isinstance(j.d.get("callee"), int) and j.ty == "void" and g.path(j.args[0])[0] == ("param", 0)


def simple_index(f, v):
    """the loop counter i when v is an element f[i]"""
    v = base(f, v)
    i = f.inst.get(v) if isinstance(v, int) else None
    if i is None or i.op != "load":
        return None
    g = f.inst.get(i.ptr) if isinstance(i.ptr, int) else None
    if g is None or g.op != "getelementptr" or not g.var:
        return None
    idx = g.var[-1][0]
    n = 0
    while isinstance(idx, int) and f.inst.get(idx) is not None and f.inst[idx].op in ("sext", "zext", "trunc") and n < 5:
        idx = f.inst[idx].d["ops"][0]
        n += 1
    ph = f.inst.get(idx) if isinstance(idx, int) else None
    if ph is None or ph.op != "phi" or ph.block not in loops(f):
        return None
    return ph


def partial(f, v):
    """the loop that frees f[i] for an index i leaves out elements: how"""
    ph = simple_index(f, v)
    if ph is None:
        return None
    start = step = None
    for x, b in ph.d["in"]:
        if b in loops(f)[ph.block]:
            a = f.inst.get(x) if isinstance(x, int) else None
            if a is not None and a.op in ("add", "sub") and a.d["ops"][0] == ph.id and cint(a.d["ops"][1]) is not None:
                step = cint(a.d["ops"][1]) * (1 if a.op == "add" else -1)
        else:
            start = cint(x)
    if step is None:
        return None
    if abs(step) != 1:
        return "advances by %d" % step
    if step == 1 and start not in (None, 0):
        return "starts at element %d" % start
    for b in loops(f)[ph.block]:
        t = f.blocks[b][-1]
        c = f.inst.get(t.cond) if t.op == "br" and isinstance(t.cond, int) else None
        if c is None or c.op != "icmp" or step != 1:
            continue
        a, z = c.d["ops"]
        w = a
        while isinstance(w, int) and f.inst.get(w) is not None and f.inst[w].op in ("sext", "zext", "trunc"):
            w = f.inst[w].d["ops"][0]
        if w == ph.id and isinstance(z, int):
            e = f.inst.get(z)
            while e is not None and e.op in ("sext", "zext", "trunc") and isinstance(e.d["ops"][0], int):
                e = f.inst.get(e.d["ops"][0])
            if e is not None and e.op in ("add", "sub") and cint(e.d["ops"][1]) is not None and c.pred in ("ult", "slt", "ne"):
                k = cint(e.d["ops"][1]) * (1 if e.op == "add" else -1)
                if k < 0:
                    return "stops %d short of the end" % -k
    return None


def skipping(f, rel, v):
    """the loop around a release passes it by under a condition that reads nothing of the element at hand: how"""
    ph = simple_index(f, v)
    if ph is None or rel.block not in loops(f)[ph.block]:
        return None
    h = ph.block
    body = loops(f)[h]
    b = rel.block
    while b != h:
        p = f.idom[b]
        if p is None or p not in body:
            return None
        t = f.blocks[p][-1]
        if t.op in ("br", "switch") and len(set(f.succ[p])) > 1 and all(x in body for x in f.succ[p]) and not all(must_pass(f, x, rel.block, h, body) for x in f.succ[p]):
            if not per_element(f, t.cond, body):
                return "passes an element by under a condition that does not look at it"
        b = p
    return None


def must_pass(f, x, via, h, body):
    """from x every path round the loop goes through block via"""
    st, seen = [x], set()
    while st:
        y = st.pop()
        if y == via or y in seen:
            continue
        if y == h or y not in body:
            return False
        seen.add(y)
        st += f.succ[y]
    return True


def per_element(f, c, body):
    """the condition depends on something loaded, or returned by a call, from a place that changes with the iteration"""
    st, seen = [c], set()
    while st:
        v = st.pop()
        if not isinstance(v, int) or v in seen:
            continue
        seen.add(v)
        j = f.inst.get(v)
        if j is None:
            continue
        if j.op == "load" and varies(f, j.ptr, body):
            return True
        if j.is_call and any(varies(f, a, body) for a in j.args or []):
            return True
        st += [o for o in operands(j) if isinstance(o, int)]
    return False


def varies(f, v, body):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if not isinstance(x, int) or x in seen:
            continue
        seen.add(x)
        j = f.inst.get(x)
        if j is None or j.block not in body:
            continue
        if j.op == "phi" and j.block in loops(f):
            return True
        if j.op == "alloca":
            return True
        if j.op == "load":
            if any(u.op == "store" and u.block in body and u.ptr == j.ptr for u in f.insts()):
                return True
        st += [o for o in operands(j) if isinstance(o, int)]
    return False


def loops(f):
    """natural loops: header -> blocks"""
    if getattr(f, "_loops", None) is None:
        d = {}
        for b, ss in enumerate(f.succ):
            for h in ss:
                if f.idom[b] is not None and f.dominates(h, b):
                    body, st = d.setdefault(h, {h}), [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += f.pred[x]
        f._loops = d
    return f._loops


def covers(m, f, rel, at, cls, fname):
    """every path to `at` has passed the release, or the loop that performs it; conditions about the elements themselves may skip it"""
    b = rel.block
    if b == at.block and rel.idx < at.idx:
        return True
    outer = [h for h, body in loops(f).items() if b in body and at.block not in body]
    if outer:
        b = max(outer, key=lambda h: len(loops(f)[h]))
    n = 0
    while not (f.dominates(b, at.block) and b != at.block):
        p = f.idom[b]
        n += 1
        if p is None or n > 60:
            return False
        t = f.blocks[p][-1]
        if len(f.succ[p]) > 1 and t.op != "invoke" and not about(m, f, t.cond, cls, fname):
            return False
        b = p
    return True


def about(m, f, c, cls, fname):
    i = f.inst.get(c) if isinstance(c, int) else None
    if i is None:
        return False
    if i.op == "icmp" and any(isinstance(o, dict) and o.get("k") == "null" for o in i.d["ops"]):
        return True
    st, seen = [c], set()
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        j = f.inst.get(v)
        if j is None:
            continue
        if j.op in ("load", "getelementptr") or j.is_call:
            if (cls, fname) in field_of(m, f, member_offsets(f, v) | (this_field(f, j) if j.is_call else set()), set()):
                return True
        for o in operands(j):
            if isinstance(o, int):
                st.append(o)
    return False


def drops(m, f, cls, fname):
    """calls (inlined or not) by which f discards elements of the field, and direct releases of the array holding them"""
    for i in f.calls():
        if (i.d.get("intr") or "").startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume")) or not i.args:
            continue
        if (cls, fname) not in field_of(m, f, this_field(f, i), set()):
            continue
        frames = [callee_name(i)] + list(i.d.get("scope") or [])
        classes = [None] + list(i.d.get("sclass") or [])
        me = sclass(cls)
        while len(frames) > 1 and classes[-1] == me:
            frames.pop()
            classes.pop()
        if DROP.match(frames[-1] or ""):
            yield i


def sclass(cls):
    return cls.split("<")[0].split("::")[-1]


def callee_name(i):
    d = i.d.get("dem") or ""
    prev = None
    while prev != d:
        prev, d = d, re.sub(r"<[^<>]*>", "", d)
    mm = re.match(r"^(.*?)\(", d)
    return (mm.group(1) if mm else d).split("::")[-1].strip()


def judged_at_callers(m, f, ok):
    """a private helper all of whose callers do the freeing"""
    if f.d.get("access") not in ("private", "protected"):
        return False
    cs = m.callers.get(f.name) or []
    return bool(cs) and all(m.by_name.get(c) is not None and ok(m.by_name[c]) for c in cs)


WITNESS = {"wit::BadOwner", "wit::GoodOwner", "wit::BadElems", "wit::GoodElems"}


def own_result(m, c):
    """a call whose result the caller owns: a factory (indirect call) or a function of the library returning what it allocated"""
    n = c.d.get("fn")
    if not n:
        return True
    g = m.by_name.get(n)
    if g is None:
        return False
    for b in g.blocks:
        if b and b[-1].op == "ret" and b[-1].d.get("ops"):
            for v in sources(g, b[-1].d["ops"][0]):
                i = g.inst.get(v)
                if i is not None and i.is_call and (acquire(i) or (i.d.get("fn") != n and own_result(m, i))):
                    return True
    return False


def hasfields(m, cls, n=0):
    t = m.types.get(cls)
    return bool(t) and n < 8 and any(f["kind"] != "base" or hasfields(m, f["type"], n + 1) for f in t["fields"])


def resolve(m, cls, off, n=0):
    """innermost class and field at an offset"""
    t = m.types.get(cls)
    if not t or n > 8:
        return (cls, "+%d" % off)
    for f in t["fields"]:
        if f["kind"] == "base" and not hasfields(m, f["type"]):
            continue
        if f["off"] <= off < f["off"] + max(f["size"], 1):
            if f["kind"] == "base" or (f["kind"] == "class" and f["type"] in m.types and m.types[f["type"]]["fields"]):
                return resolve(m, f["type"], off - f["off"], n + 1)
            return (cls, f["name"])
    return (cls, "+%d" % off)


def touches(f, p):
    return any(i.op in ("load", "store") and f.path(i.ptr) == p for i in f.insts())


def stored(f, site):
    out = set()
    st, seen = [site.id], {site.id}
    while st:
        v = st.pop()
        for u in f.uses.get(v, []):
            if (u.op in ("phi", "select", "bitcast") or (u.op == "getelementptr" and not u.var and u.base == v)) and u.id not in seen:
                seen.add(u.id)
                st.append(u.id)
            elif u.op == "store" and u.val == v:
                out.add(f.path(u.ptr))
    return out


def ctl(f, controls):
    if f.relfile.endswith("w_heap.cpp"):
        n = f.d.get("sname") or ""
        if f.this_class:
            n = f.this_class.split("::")[-1] + "::" + n
        controls[n] = True
        return True
    return False


def report(r, m, f, site, what, e, kinds, controls):
    res = e.verdicts()
    if kinds is not None:
        for form, i in getattr(e, "forms", {}).items():
            if form not in kinds:
                res.append(("mismatch", i, "is released with the form for %s although it was allocated with %s" % (form, "/".join(kinds)), None))
    for kd, ins, text, k in res:
        if ctl(f, controls):
            continue
        path = " <- ".join(e.trace(k)) if k else ""
        at = site.where(m.repo) if site is not None else ins.where(m.repo)
        inner = (site if site is not None else ins).d.get("scope") or [f.d.get("sname") or f.dem]
        if any(v["rule"] == "heap-" + kd and v["where"] == at for v in r.violations):
            continue
        r.violate("heap-" + kd, at, "%s / %s" % (inner[0] if site is not None else f.dem, what), "in %s, %s %s (at %s%s)" % (short(f.dem), what, text, ins.where(m.repo), "; path " + path if path else ""))
