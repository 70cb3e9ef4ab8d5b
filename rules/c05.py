"""C05: operating-system handles are closed exactly once (ownership typestate over every path)."""
import re
from lib.ctx import *
from lib.ir import *
from lib.own import *

OPEN = {"fopen": "FILE", "fopen64": "FILE", "fdopen": "FILE", "tmpfile": "FILE", "tmpfile64": "FILE", "opendir": "DIR", "fdopendir": "DIR", "popen": "PIPE",
        "open": "fd", "open64": "fd", "creat": "fd", "dup": "fd", "socket": "fd", "accept": "fd", "mkstemp": "fd", "openat": "fd",
        "dlopen": "lib", "xmlReadFile": "xml", "xmlParseFile": "xml", "xmlReadMemory": "xml", "xmlReadDoc": "xml", "xmlParseMemory": "xml"}
CLOSE = {"fclose": "FILE", "closedir": "DIR", "pclose": "PIPE", "close": "fd", "dlclose": "lib", "xmlFreeDoc": "xml"}
OUT = {"getaddrinfo": (3, "addr")}      # yields the handle through an argument
OUTCLOSE = {"freeaddrinfo": "addr"}


class Cfg:
    def __init__(self, m, kind):
        self.ints = kind == "fd"
        self.kind = kind
        self.throws = Throws(m)
        self.captures = captures_fn(m, self.release)

    def release(self, ins):
        n = ins.d.get("fn") or ""
        if CLOSE.get(n) or OUTCLOSE.get(n):
            return 0
        return None

    def form(self, ins):
        n = ins.d.get("fn") or ""
        return CLOSE.get(n) or OUTCLOSE.get(n)

    def closer(self, name):
        return CLOSE.get(name) or OUTCLOSE.get(name)

    def can_fail(self, ins):
        return True

    def counted(self, ins):
        return self.throws.call(ins)


class OutOwn(Own):
    """a handle delivered through an address: the place holds it after the call"""

    def __init__(self, fn, cfg, site, place):
        self.place = place
        self.real = site
        Own.__init__(self, fn, cfg, site=site)

    def step(self, ins, fact, env):
        if ins.id == self.real.id:
            return [("n", (LIVE, frozenset([self.place]), frozenset()), {ins.id: 0}), ("n", (NONE, frozenset(), frozenset()), {ins.id: NZ})]
        return Own.step(self, ins, fact, env)

    def on_edge(self, ins, truth, fact, env):
        st, locs, vals = fact
        if st == LIVE and any(env.get(v) == 0 for v in vals):
            return None     # a successful call delivers a handle
        return fact


CFG = dict(opaque=ASSERT_OPAQUE, inline=SMALL_STD, prepasses=PRE_PASSES, passes=STD_PASSES, types=True, export_repo=True, max_insts=1500)


def run(ctx):
    r = Result()
    r.rules = ["every handle acquired (open, fopen, opendir, popen, getaddrinfo, dlopen, XML documents) is released exactly once, with its own closing call, on every normal "
               "and exceptional path, unless it is returned, handed on or stored in an object",
               "a handle is not used or closed again after it was closed",
               "a class that keeps a handle closes it on every path of its destructor, does not overwrite it while open, and cannot be copied implicitly"]
    bcs = ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_own.cpp")
    m = ctx.module(bcs, **CFG)
    controls = {}
    owners = {}
    cfgs = {}

    def cfg(kind):
        if kind not in cfgs:
            cfgs[kind] = Cfg(m, kind)
        return cfgs[kind]
    undecided = []
    calls = []
    for f in m.fns:
        for i in f.calls():
            n = i.d.get("fn") or ""
            if n in OPEN or n in OUT:
                calls.append((f, i, n))
    sites = set()
    for f, i, n in calls:
        where = i.where(m.repo)
        sites.add((n, where))
        try:
            if n in OPEN:
                kind = OPEN[n]
                e = Own(f, cfg(kind), site=i)
            else:
                a, kind = OUT[n]
                e = OutOwn(f, cfg(kind), i, f.path(i.args[a]))
        except OverflowError:
            undecided.append("%s in %s" % (n, f.dem))
            continue
        r.count("open_paths_states", e.n_states)
        report(r, m, f, i, n, e, kind, controls)
        for p in stored(f, i):
            if p[0] == ("param", 0) and f.this_class:
                owners.setdefault((f.this_class, p), set()).add(kind)
    r.counts["open_sites"] = len(sites)
    # handles kept in objects
    for (cls, p), kinds in sorted(owners.items()):
        r.count("owning_fields")
        kind = sorted(kinds)[0]
        off = p[1][1] if len(p) > 1 else 0
        fname = "%s::%s" % (cls, m.field_name(cls, off))
        r.sample("%s keeps a %s" % (fname, kind))
        dt = [f for f in m.fns if f.this_class == cls and is_dtor(f)]
        if not dt:
            r.violate("owner-never-closes", cls, fname, "%s keeps a handle but has no destructor that closes it" % fname)
        for f in m.fns:
            if f.this_class != cls or is_ctor(f) or not f.params:
                continue
            if not is_dtor(f) and (not touches(f, p) or ctor_only(m, f.name)):
                continue
            try:
                e = Own(f, cfg(kind), field=p)
            except OverflowError:
                undecided.append("%s of %s" % (f.dem, fname))
                continue
            r.count("owner_functions")
            report(r, m, f, None, fname, e, kind, controls, fname)
        copy_rule(ctx, r, cls, fname)
    if undecided and not r.violations:
        raise AssertionError("not decided: %s" % undecided)
    for want in ("bad_leak", "bad_throw", "bad_twice", "bad_use", "bad_fd"):
        if not controls.get(want):
            raise AssertionError("positive control %s was not reported" % want)
    r.counts["positive_controls_fired"] = len(controls)
    r.need("open_sites", 5)
    r.need("owning_fields", 1)
    return r


def touches(f, p):
    return any(i.op in ("load", "store") and f.path(i.ptr) == p for i in f.insts())


def stored(f, site):
    """places under parameters that the acquired value is stored to"""
    out = set()
    st, seen = [site.id], {site.id}
    while st:
        v = st.pop()
        for u in f.uses.get(v, []):
            if u.op in ("phi", "select", "bitcast") and u.id not in seen:
                seen.add(u.id)
                st.append(u.id)
            elif u.op == "store" and u.val == v:
                out.add(f.path(u.ptr))
    return out


def copy_rule(ctx, r, cls, fname):
    for c in ctx.classes().get(cls, []):
        r.count("copy_checks")
        if c["copy_ctor"] == "implicit" or c["copy_assign"] == "implicit":
            r.violate("owner-copied", "%s:%d" % (c["file"], c["line"]), fname,
                      "%s owns %s but objects can be copied implicitly: both copies would release it" % (cls, fname))


def report(r, m, f, site, what, e, kind, controls, fname=None):
    bad = (f.d.get("sname") or "") if f.relfile.endswith("w_own.cpp") else None
    wrong = [k for k in getattr(e, "forms", {}) if k != kind]
    res = e.verdicts()
    if wrong:
        i = e.forms[wrong[0]]
        res.append(("wrong-close", i, "is closed with the closing call of a %s" % wrong[0], None))
    for kd, ins, text, k in res:
        if bad:
            controls[bad] = True
            continue
        path = " <- ".join(e.trace(k)) if k else ""
        at = site.where(m.repo) if site is not None else ins.where(m.repo)
        r.violate("handle-" + kd, at, "%s / %s" % (f.dem, what), "in %s, %s %s (at %s%s)" % (
            short(f.dem), ("what %s opened" % what) if site is not None else what, text, ins.where(m.repo), "; path " + path if path else ""))
