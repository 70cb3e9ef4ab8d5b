"""C17: every byte value is a number from 0 to 255 (sign-taint dataflow from plain-char loads over LLVM IR)."""
import re
from lib import build
from lib.ctx import *
from lib.ir import *
from lib.own import strip_templates
from rules import c15

CFG = c15.CFG
CTYPE = re.compile(r"^(is(alnum|alpha|ascii|blank|cntrl|digit|graph|lower|print|punct|space|upper|xdigit)|to(lower|upper|ascii))(_l)?$")
ARITH = {"add", "sub", "mul", "shl", "or", "xor", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"}


def is_const(v):
    return isinstance(v, dict) and cint(v) is not None


def sources(m, f, v, depth=0):
    """does an i8 value come from memory, a parameter or a call (rather than from a counter of the function's own)?"""
    if depth > 6 or isinstance(v, dict):
        return False
    i = f.inst.get(v)
    if i is None:
        return True
    if i.op in ("phi", "select", "freeze"):
        ops = [x for x, b in i.d["in"]] if i.op == "phi" else i.d["ops"][-2:] if i.op == "select" else i.d["ops"]
        return any(sources(m, f, x, depth + 1) for x in ops if x != v)
    if i.op == "load":
        # tables of the library's own hold numbers, not text
        return not all(table(m, f, p) for p in f.roots(i.ptr))
    return i.is_call


def table(m, f, p):
    if p[0][0] == "glob":
        return True
    if p[0][0] == "call":
        c = f.inst[p[0][1]]
        return m.by_name.get(c.d.get("fn") or "") is not None and not c.args
    return False


def tests(f, x):
    """signed order tests of a value or its extensions against constants: [(icmp, lower bound test?)]"""
    out, st, seen = [], [x], set()
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.uses[v]:
            if u.op in ("sext", "freeze"):
                st.append(u.id)
            elif u.op == "icmp" and u.pred in ("slt", "sle", "sgt", "sge"):
                a, b = u.d["ops"]
                if a == v and is_const(b):
                    k, p = cint(b), u.pred
                elif b == v and is_const(a):
                    k, p = cint(a), {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}[u.pred]
                else:
                    continue
                # x < k / x >= k: the smallest value on the upper side; x <= k / x > k: the largest on the lower
                if p in ("slt", "sge"):
                    out.append((u, k, p == "slt"))          # low side true?
                else:
                    out.append((u, k + 1, p == "sle"))
    return out


def edge_facts(f, block):
    """(value, truth) of the i1 values settled by the branches that lead to block"""
    out = []
    for b, l in enumerate(f.blocks):
        t = l[-1] if l else None
        if t is None or t.op != "br" or not isinstance(t.cond, int) or t.succ[0] == t.succ[1]:
            continue
        for n, s in enumerate(t.succ):
            if f.dominates(s, block) and all(q == b or f.dominates(s, q) for q in f.pred[s]):
                st = [(t.cond, n == 0)]
                while st:
                    v, tr = st.pop()
                    out.append((v, tr))
                    c = f.inst.get(v) if isinstance(v, int) else None
                    if c is None:
                        continue
                    if c.op == "xor" and cint(c.d["ops"][1]) == -1:
                        st.append((c.d["ops"][0], not tr))
                    elif c.op == "and" and tr or c.op == "or" and not tr:
                        st += [(o, tr) for o in c.d["ops"]]
                    elif c.op == "select" and tr and cint(c.d["ops"][2]) == 0:
                        st += [(o, tr) for o in c.d["ops"][:2]]
                    elif c.op == "select" and not tr and cint(c.d["ops"][1]) in (-1, 1):
                        st += [(c.d["ops"][0], tr), (c.d["ops"][2], tr)]
    return out


def known_nonneg(f, x, i):
    """is byte x known not to be negative where i runs?"""
    ts = {u.id: (k, low) for u, k, low in tests(f, x)}
    eq, st = {}, [x]
    while st:
        v = st.pop()
        for u in f.uses[v]:
            if u.op in ("sext", "freeze"):
                st.append(u.id)
            elif u.op == "icmp" and u.pred in ("eq", "ne"):
                k = [cint(o) for o in u.d["ops"] if is_const(o)]
                if k:
                    eq[u.id] = (k[0], u.pred == "eq")
            elif u.op == "and":
                k = [cint(o) for o in u.d["ops"] if is_const(o)]
                if k and k[0] & 0x80:
                    for w in f.uses[u.id]:
                        if w.op == "icmp" and w.pred in ("eq", "ne") and 0 in [cint(o) for o in w.d["ops"] if is_const(o)] and (k[0] & 0xff) == 0x80:
                            eq[w.id] = (0, w.pred == "eq")
    # the block i belongs to, or for a phi the edge the value came over is not told apart
    for v, tr in edge_facts(f, i.block):
        if v in ts:
            k, low = ts[v]
            if k >= 0 and tr != low:
                return True
        if v in eq:
            k, pos = eq[v]
            if k >= 0 and tr == pos:
                return True
    return False


class Walk:
    """what follows a test of byte x when x is v: the decisions that depend on x alone, and everything done in between"""

    def __init__(self, f, x, v):
        self.f, self.x, self.v = f, x, v
        self.env = {}
        self.trace = []

    def ev(self, o, depth=0):
        if isinstance(o, dict):
            return cint(o)
        if o == self.x:
            return self.v
        if o in self.env:
            return self.env[o]
        i = self.f.inst.get(o)
        if i is None or depth > 12:
            return None
        ops = i.d.get("ops") or []
        e = lambda k: self.ev(ops[k], depth + 1)
        if i.op in ("sext", "freeze"):
            return e(0)
        if i.op == "zext":
            a = e(0)
            return None if a is None else a & (0xff if ty_of(self.f, ops[0]) == "i8" else 1 if ty_of(self.f, ops[0]) == "i1" else 0xffffffff)
        if i.op in ("add", "sub"):
            a, b = e(0), e(1)
            return None if a is None or b is None else (a + b if i.op == "add" else a - b)
        if i.op in ("and", "or", "xor") and i.ty == "i1":
            a, b = e(0), e(1)
            if i.op != "xor" and (a is None or b is None):
                for q in (a, b):
                    if q is not None and (q & 1) == (i.op == "or"):
                        return q & 1
            if a is None or b is None:
                return None
            return (a & b if i.op == "and" else a | b if i.op == "or" else a ^ b) & 1
        if i.op == "select":
            c = e(0)
            return None if c is None else e(1 if c & 1 else 2)
        if i.op == "icmp":
            a, b = e(0), e(1)
            if a is None or b is None:
                return None
            if i.pred in ("eq", "ne"):
                return int((a - b) % 256 == 0 if min(a, b) < 0 else a == b) ^ (i.pred == "ne")
            if i.pred[0] == "u":
                a, b = (a, b) if min(a, b) >= 0 else (a & 0xffffffff, b & 0xffffffff)
            elif b <= 0 and isinstance(ops[1], dict) and (b < 0 or i.pred in ("slt", "sge")):
                a = a - 256 if a > 127 else a       # a test for the high bit, made on purpose
            p = i.pred[1:]
            return int(a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b)
        return None

    def run(self, u):
        f, b, start, steps = self.f, u.block, u.idx + 1, 0
        while True:
            steps += 1
            for i in f.blocks[b][start:]:
                if i.id == self.x or steps > 40:
                    self.trace.append(("again", b))
                    return self.trace
                if i.op in ("store", "call", "invoke") and not (i.d.get("intr") or "").startswith("llvm.dbg"):
                    args = (i.args if i.is_call else operands(i)) or []
                    self.trace.append((i.id, tuple(self.ev(a) if isinstance(a, dict) or ty_of(f, a) == "i1" else None for a in args)))
            t = f.blocks[b][-1]
            if t.op == "ret":
                r = self.ev(t.d["ops"][0]) if t.d.get("ops") else None
                self.trace.append(("ret", None if r is None else r % 256))
                return self.trace
            if len(t.succ or []) == 1:
                n = t.succ[0]
            elif t.op == "br" and isinstance(t.cond, int) and self.ev(t.cond) is not None:
                n = t.succ[0 if self.ev(t.cond) & 1 else 1]
            elif t.op == "invoke":
                n = t.succ[0]
            else:
                self.trace.append(("end", b))
                return self.trace
            new = {}
            for i in f.blocks[n]:
                if i.op == "phi":
                    new[i.id] = next((self.ev(v) for v, q in i.d["in"] if q == b), None)
            self.env.update(new)
            b, start = n, 0


def decides(f, x, u, k):
    """may a byte from 0x80 be treated differently because it is negative?"""
    for v in range(-128, 0):
        if Walk(f, x, v).run(u) != Walk(f, x, v + 256).run(u):
            return True
    return False


LOW = {"add", "sub", "mul", "shl", "or", "xor"}


def low_only(f, u, depth=0):
    """do only the low eight bits of a result count, which depend only on the low eight bits of the operands?"""
    us = f.uses[u.id]
    return depth < 8 and bool(us) and all(
        w.op == "trunc" and w.ty == "i8" or w.op == "and" and any(is_const(o) and 0 <= cint(o) <= 0xff for o in w.d["ops"]) or
        (w.op in LOW or w.op in ("zext", "sext", "freeze") or w.op == "trunc") and (w.op != "shl" or w.d["ops"][0] == u.id) and low_only(f, w, depth + 1) for w in us)


def unsigned_byte(f, v):
    i = f.inst.get(v)
    return i is not None and i.op == "zext" and isinstance(i.d["ops"][0], int) and ty_of(f, i.d["ops"][0]) == "i8"


class Taint:
    """where numbers made from bytes by sign extension go"""

    def __init__(self, m, r):
        self.m = m
        self.r = r
        self.seen = set()
        self.work = []      # (function, value, byte: (function, value), how it got there)
        self.hits = {}
        self.callers = {}
        for f in m.fns:
            for i in f.calls():
                g = m.by_name.get(i.d.get("fn") or "")
                if g is not None:
                    self.callers.setdefault(g.name, []).append((f, i))

    def add(self, f, v, byte, shifted=0):
        if (f.name, v, shifted) not in self.seen:
            self.seen.add((f.name, v, shifted))
            self.work.append((f, v, byte, shifted))

    def run(self):
        while self.work:
            f, v, byte, sh = self.work.pop()
            for u in f.uses[v]:
                self.use(f, v, byte, sh, u)

    def hit(self, f, u, byte, what):
        g, x = byte
        if g is f and known_nonneg(f, x, u):
            return
        self.hits[(f.name, u.id)] = (f, u, byte, what)

    def use(self, f, v, byte, sh, u):
        if byte[0] is f and byte[1] is not None:
            # from here on the number is right
            at = [f.blocks[b][-1] for x, b in u.d["in"] if x == v] if u.op == "phi" else [u]
            if all(known_nonneg(f, byte[1], i) for i in at):
                return
        if u.op in ("sext", "zext", "freeze", "trunc"):
            if u.op == "trunc" and u.ty in ("i8", "i1"):
                return
            self.add(f, u.id, byte, sh)
        elif u.op == "phi" or u.op == "select" and v in u.d["ops"][-2:]:
            self.add(f, u.id, byte, sh)
        elif u.op == "and":
            k = [cint(o) for o in u.d["ops"] if is_const(o)]
            if not k or k[0] < 0 or k[0] << (sh if sh is not True else 0) > 0xff:
                self.add(f, u.id, byte, sh)
        elif u.op in ("add", "sub") and any(is_const(o) for o in u.d["ops"]):
            self.add(f, u.id, byte, True)
        elif u.op in ("lshr", "ashr") and is_const(u.d["ops"][1]) and sh is not True:
            self.add(f, u.id, byte, sh + cint(u.d["ops"][1]))
        elif u.op in ARITH:
            if u.op in LOW and sh in (0, True) and low_only(f, u):
                return
            self.hit(f, u, byte, "is combined with other numbers (%s)" % u.op)
        elif u.op == "getelementptr":
            if u.base != v:
                self.hit(f, u, byte, "is an array index")
        elif u.op in ("sitofp", "uitofp"):
            self.hit(f, u, byte, "becomes a floating-point number")
        elif u.op == "switch":
            return
        elif u.op == "icmp":
            if u.pred in ("eq", "ne"):
                other = u.d["ops"][1] if u.d["ops"][0] == v else u.d["ops"][0]
                if is_const(other) and not sh and 128 <= cint(other) <= 255 or isinstance(other, int) and unsigned_byte(f, other):
                    self.hit(f, u, byte, "is compared with a byte taken as unsigned, which it never equals")
                return
            if not any(is_const(o) for o in u.d["ops"]):
                self.hit(f, u, byte, "is compared for order")
        elif u.op == "ret":
            for g, c in self.callers.get(f.name, ()):
                if f.file.startswith(self.m.repo) and g.file.startswith(self.m.repo):
                    self.add(g, c.id, byte, sh)
        elif u.is_call:
            name = u.d.get("fn") or ""
            if CTYPE.match(name):
                self.hit(f, u, byte, "is passed to %s" % name)
            elif not name and u.d.get("callee") is not None:
                self.hit(f, u, byte, "is passed to a function called through a pointer")
            g = self.m.by_name.get(name)
            if g is not None and g.file.startswith(self.m.repo):
                for a, p in zip(u.args or [], g.params):
                    if a == v:
                        self.add(g, p["id"], byte, sh)

def run(ctx):
    r = Result()
    r.rules = ["a plain char widened with its sign is never an argument of a character class function, an array index, an operand of arithmetic with other values, or compared for order, unless it is known not to be negative",
               "plain chars are never ordered by one-sided signed comparisons"]
    mods = [ctx.module(ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",)) + ctx.witness_bc("w_char.cpp"), **CFG)]
    controls = {}
    for m in mods:
        t = Taint(m, r)
        byte_uses = 0
        for f in m.fns:
            mine = f.file.startswith(m.repo)
            wit = f.relfile.endswith("w_char.cpp")
            lib = "char" in f.dem       # standard algorithms over chars
            for i in f.insts():
                if i.op in ("sext", "sitofp") and (i.d.get("sty") == "i8" or isinstance(i.d["ops"][0], int) and ty_of(f, i.d["ops"][0]) == "i8"):
                    o = i.d["ops"][0]
                    if not sources(m, f, o) or not (mine or wit or lib):
                        continue
                    if not (mine or wit) and not in_repo(m, i):
                        continue
                    byte_uses += 1
                    if i.op == "sitofp":
                        t.hit(f, i, (f, o), "becomes a floating-point number")
                    else:
                        t.add(f, i.id, (f, o))
                elif i.op == "icmp" and i.pred[0] == "s" and (mine or wit):
                    ops = i.d["ops"]
                    bs = [o for o in ops if isinstance(o, int) and ty_of(f, o) == "i8" and sources(m, f, o)]
                    if bs and not any(is_const(o) for o in ops):
                        byte_uses += 1
                        if not all(known_nonneg(f, o, i) for o in bs):
                            t.hits[(f.name, i.id)] = (f, i, (f, bs[0]), "is compared for order as a signed number")
                elif i.is_call and CTYPE.match(i.d.get("fn") or "") and (mine or wit):
                    r.count("character_class_calls")
            # order tests against constants
            if mine or wit:
                for x in sorted({o for i in f.insts() for o in operands(i) if isinstance(o, int) and ty_of(f, o) == "i8"}):
                    ts = tests(f, x) if sources(m, f, x) else []
                    r.count("bytes_tested_against_ranges", bool(ts))
                    for u, k, low in ts:
                        if 0 < k <= 127 and not known_nonneg(f, x, u) and decides(f, x, u, k):
                            t.hits[(f.name, u.id)] = (f, u, (f, x), "decides a comparison with a constant that comes out wrong for it")
            for i in f.calls():
                if mine or wit or in_repo(m, i):
                    for a in i.args or []:
                        if isinstance(a, dict) and a.get("k") in ("fn", "glob", "func") and CTYPE.match(str(a.get("name") or "")) and "unsigned char" not in (i.d.get("dem") or "") and "char" in (i.d.get("dem") or ""):
                            t.hits[(f.name, i.id)] = (f, i, (f, None), "is passed to %s by a standard algorithm" % a.get("name"))
        t.run()
        r.count("widened_bytes", byte_uses)
        for (fn, uid), (f, u, byte, what) in sorted(t.hits.items(), key=str):
            if f.relfile.endswith("w_char.cpp"):
                controls.setdefault(f.d.get("sname") or "", set()).add("sign")
                continue
            r.violate("negative-byte", u.where(), short(f.dem), "a plain char, which is negative for bytes from 0x80, %s" % what)
    if ctx.tier == "debug":
        for v in r.violations:
            print(v)
        print(r.counts, controls)
    got = {k: sorted(v) for k, v in controls.items()}
    if got != WANT:
        raise build.AnalysisBroken("positive controls differ: %s" % got)
    r.counts["positive_controls_fired"] = len(controls)
    r.need("character_class_calls", 4)
    r.need("widened_bytes", 10)
    return r


def in_repo(m, i):
    return any(l.startswith(m.repo) for l in (i.d.get("loc") or []))


def ty_of(f, v):
    i = f.inst.get(v)
    if i is not None:
        return i.ty
    for p in f.params:
        if p["id"] == v:
            return p.get("ty")
    return None


WANT = {n: ["sign"] for n in ("bad_space", "bad_index", "bad_shift", "bad_order", "bad_lone", "bad_transform", "bad_helper", "bad_lex", "bad_mixed", "bad_digit")}
