"""C03: the atomic operations, as value flow over every path of every instantiated member:
one indivisible read-modify-write of the counter per operation, full width, compiler barrier
present, and a result computed from that step only."""
import re
from lib.ctx import *
from lib.ir import *

MASKS = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64)}


class Bad(Exception):
    def __init__(self, rule, ins, text):
        self.rule, self.ins, self.text = rule, ins, text


# expressions: ints, ('sym', name), (op, width, args...)
def ev(e, asg, w=64):
    if isinstance(e, int):
        return e
    if e[0] == "sym":
        return asg[e[1]]
    op, wid = e[0], e[1]
    a = [ev(x, asg) for x in e[2:]]
    m = (1 << wid) - 1
    if op == "add": return (a[0] + a[1]) & m
    if op == "sub": return (a[0] - a[1]) & m
    if op == "mul": return (a[0] * a[1]) & m
    if op == "and": return a[0] & a[1] & m
    if op == "or": return (a[0] | a[1]) & m
    if op == "xor": return (a[0] ^ a[1]) & m
    if op == "trunc": return a[0] & m
    if op == "zext": return a[0]
    if op == "sext":
        s = e[3]
        v = ev(e[2], asg)
        return (v | (m ^ ((1 << s) - 1))) if v >> (s - 1) & 1 else v
    if op == "shl": return (a[0] << a[1]) & m if a[1] < wid else 0
    if op == "lshr": return (a[0] & m) >> a[1]
    if op == "eq": return int(a[0] == a[1])
    if op == "ne": return int(a[0] != a[1])
    if op == "select": return a[1] if a[0] else a[2]
    raise KeyError(op)


def syms(e, out=None):
    out = set() if out is None else out
    if isinstance(e, tuple):
        if e[0] == "sym":
            out.add(e[1])
        else:
            for x in e[2:]:
                syms(x, out)
    return out


def subst(e, m):
    if isinstance(e, tuple):
        if e[0] == "sym":
            return m.get(e[1], e)
        return e[:2] + tuple(subst(x, m) for x in e[2:])
    return e


def fold(e, asm):
    """resolve selects whose condition was decided on the path"""
    if not isinstance(e, tuple) or e[0] == "sym" or e[0] == "ptr" or e[0] == "agg":
        return e
    if e[0] == "select":
        k = str(strip(e[2]))
        if k in asm and isinstance(asm[k], bool):
            return fold(e[3] if asm[k] else e[4], asm)
    return e[:2] + tuple(fold(x, asm) for x in e[2:])


def interesting(w):
    m = (1 << w) - 1
    if w <= 8:
        return range(m + 1)
    v = {0, 1, 2, 3, 5, 7, 8, 0x55, 0xaa, 0x5a5a & m, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) - 1, 0x123456789abcdef & m, 0xfedcba9876543210 & m}
    for b in range(0, w, max(1, w // 8)):
        v |= {1 << b, m ^ (1 << b)}
    return sorted(v)


def code(e):
    if isinstance(e, int):
        return str(e)
    if e[0] == "sym":
        return e[1]
    op, m = e[0], (1 << e[1]) - 1
    if op == "sext":
        s = e[3]
        return "sx(%s,%d,%d)" % (code(e[2]), s, m)
    a = [code(x) for x in e[2:]]
    f = {"add": "((%s+%s)&M)", "sub": "((%s-%s)&M)", "mul": "((%s*%s)&M)", "and": "(%s&%s)", "or": "(%s|%s)", "xor": "(%s^%s)",
         "trunc": "(%s&M)", "zext": "(%s)", "eq": "int(%s==%s)", "ne": "int(%s!=%s)", "select": "(%s and %s or %s)",
         "shl": "((%s<<%s)&M)", "lshr": "(%s>>%s)"}
    if op == "select":
        return "(%s if %s else %s)" % (a[1], a[0], a[2])
    return f[op].replace("M", str(m)) % tuple(a)


def sx(v, s, m):
    return (v | (m ^ ((1 << s) - 1))) if v >> (s - 1) & 1 else v


CACHE = {}


def same(a, b, w, names):
    """do two value expressions agree for all values (8 bits: every pair; wider: boundary grid)?"""
    if a == b:
        return True
    key = (a, b, w, tuple(names))
    if key not in CACHE:
        if (syms(a) | syms(b)) - set(names):
            CACHE[key] = False
        else:
            d = names + ["Z"] if len(names) < 2 else names
            src = "lambda xs, ys: all(%s == %s for %s in xs for %s in ys)" % (code(a), code(b), d[0], d[1])
            CACHE[key] = eval(src, {"sx": sx})(interesting(w), interesting(w) if len(names) > 1 else [0])
    return CACHE[key]


def width(ty):
    m = re.match(r"i(\d+)$", ty or "")
    return int(m.group(1)) if m else (64 if ty == "ptr" else None)


class St:
    __slots__ = ("env", "mem", "ev", "vis", "assume")

    def __init__(self):
        self.env, self.mem, self.ev, self.vis, self.assume = {}, {}, [], {}, {}

    def copy(self):
        s = St()
        s.env, s.mem, s.ev, s.vis, s.assume = dict(self.env), dict(self.mem), list(self.ev), dict(self.vis), dict(self.assume)
        return s


class Run:
    """all paths of one function; counter = the object parameter 0 points to"""

    def __init__(self, fn, cw, classcounter):
        self.fn = fn
        self.cw = cw            # counter width in bits
        self.n = 0
        self.ends = []          # (ret inst, state, ret expr)
        self.fresh = 0
        s = St()
        for k, p in enumerate(fn.params):
            w = width(p["ty"]) or 64
            s.env[p["id"]] = ("ptr", ("param", k), 0) if p["ty"] == "ptr" else ("sym", "P%d" % k)
        self.go(0, None, s)

    def sym(self, base):
        self.fresh += 1
        return ("sym", "%s%d" % (base, self.fresh))

    def val(self, s, v):
        if isinstance(v, dict):
            k = v.get("k")
            if k == "int":
                return v["v"] & ((1 << v["bits"]) - 1)
            if k == "undef":
                return self.sym("undef")
            if k == "null":
                return 0
            return ("ptr", ("const", str(v)), 0)
        if v in s.env:
            return s.env[v]
        return ("sym", "v%d" % v)

    def is_counter(self, p):
        return isinstance(p, tuple) and p[0] == "ptr" and p[1] == ("param", 0)

    def go(self, b, prev, s):
        self.n += 1
        if self.n > 4000:
            raise OverflowError
        s.vis[b] = s.vis.get(b, 0) + 1
        if s.vis[b] > 3:
            return
        fn = self.fn
        blk = fn.blocks[b]
        new = {}
        for i in blk:
            if i.op != "phi":
                break
            for v, p in i.d["in"]:
                if p == prev:
                    new[i.id] = self.val(s, v)
        s.env.update(new)
        for i in blk:
            op = i.op
            if op == "phi":
                continue
            if op == "br":
                if i.cond is None:
                    return self.go(i.succ[0], b, s)
                c = self.val(s, i.cond)
                for n, t in enumerate(i.succ):
                    if isinstance(c, int):
                        if bool(c) == (n == 0):
                            self.go(t, b, s)
                        continue
                    r = self.assume(s, c, n == 0)
                    if r is not None:
                        self.go(t, b, r)
                return
            if op == "switch":
                c = self.val(s, i.cond)
                for n, t in enumerate(i.succ):
                    r = s.copy()
                    if n:
                        r.assume[str(c)] = i.cases[n - 1]
                    else:
                        r.assume[str(c)] = ("not", tuple(i.cases))
                    self.go(t, b, r)
                return
            if op == "ret":
                rv = self.val(s, i.d["ops"][0]) if i.d.get("ops") else None
                s.ev = [tuple(fold(x, s.assume) if isinstance(x, tuple) else x for x in e) for e in s.ev]
                s.mem = {k: fold(x, s.assume) for k, x in s.mem.items()}
                self.ends.append((i, s, fold(rv, s.assume)))
                return
            if op in ("unreachable", "resume"):
                return
            self.exec(i, s)

    def assume(self, s, c, truth):
        r = s.copy()
        # strip comparisons against 0 and casts
        e, t = c, truth
        while isinstance(e, tuple):
            if e[0] in ("zext", "trunc"):
                e = e[2]
                continue
            if e[0] in ("ne", "eq") and e[3] == 0:
                t = t == (e[0] == "ne")
                e = e[2]
                continue
            if e[0] == "xor" and e[3] == 1:
                t = not t
                e = e[2]
                continue
            if e[0] == "and" and e[3] == 1:
                e = e[2]
                continue
            break
        if isinstance(e, int):
            return r if bool(e) == t else None
        k = str(e)
        if k in r.assume and r.assume[k] != t:
            return None
        r.assume[k] = t
        if e[0] == "eq":     # value comparison of a cmpxchg result with its expectation
            for n, x in enumerate(r.ev):
                if x[0] == "cas" and x[6] is None and {str(e[2]), str(e[3])} == {str(x[3]), str(x[5])}:
                    r.ev[n] = x[:6] + (t,)
        if e[0] == "sym":
            for n, x in enumerate(r.ev):
                if x[0] == "cas" and x[2] == e[1]:
                    r.ev[n] = x[:6] + (t,)
        return r

    def load(self, i, s):
        p = self.val(s, i.ptr)
        w = width(i.ty)
        if self.is_counter(p):
            v = self.sym("L")
            s.ev.append(("load", i, v[1], {"full": p[2] == 0 and w == self.cw, "atomic": i.d.get("atomic"), "vol": bool(i.d.get("vol")),
                                           "clobber": (i.d.get("atomic") or 0) >= 4, "kind": "ir"}))
            return v
        if isinstance(p, tuple) and p[0] == "ptr":
            k = (p[1], p[2])
            if k not in s.mem:
                if p[1][0] == "param":
                    s.mem[k] = ("sym", "M%d_%d" % (p[1][1], p[2]))
                else:
                    s.mem[k] = self.sym("m")
            return s.mem[k]
        return self.sym("m")

    def exec(self, i, s):
        op = i.op
        if op == "alloca":
            s.env[i.id] = ("ptr", ("alloca", i.id), 0)
        elif op == "getelementptr":
            b = self.val(s, i.base)
            if isinstance(b, tuple) and b[0] == "ptr" and i.off is not None and not i.var:
                s.env[i.id] = ("ptr", b[1], b[2] + i.off)
            else:
                s.env[i.id] = self.sym("p")
        elif op == "load":
            s.env[i.id] = self.load(i, s)
        elif op == "store":
            p = self.val(s, i.ptr)
            v = self.val(s, i.val)
            if self.is_counter(p):
                s.ev.append(("store", i, v, {"full": p[2] == 0 and i.size * 8 == self.cw, "atomic": i.d.get("atomic"), "vol": bool(i.d.get("vol")),
                                             "clobber": (i.d.get("atomic") or 0) >= 7, "kind": "ir"}))
            elif isinstance(p, tuple) and p[0] == "ptr":
                s.mem[(p[1], p[2])] = v
        elif op == "atomicrmw":
            p = self.val(s, i.ptr)
            v = self.val(s, i.val)
            w = width(i.ty)
            old = self.sym("O")
            s.env[i.id] = old
            if self.is_counter(p):
                f = {"add": "add", "sub": "sub", "or": "or", "and": "and", "xor": "xor", "xchg": None}.get(i.rmw, "?")
                if f == "?":
                    raise Bad("unknown-op", i, "atomicrmw " + i.rmw)
                new = v if f is None else (f, w, old, v)
                s.ev.append(("rmw", i, old[1], new, {"full": p[2] == 0 and w == self.cw, "lock": True, "clobber": (i.d.get("atomic") or 0) >= 6, "kind": "ir"}))
        elif op == "cmpxchg":
            p = self.val(s, i.ptr)
            e, n = self.val(s, i.d["ops"][0]), self.val(s, i.d["ops"][1])
            old, ok = self.sym("O"), self.sym("S")
            s.env[i.id] = ("agg", old, ok)
            if self.is_counter(p):
                s.ev.append(("cas", i, ok[1], e, n, old, None))
        elif op == "extractvalue":
            a = self.val(s, i.d["ops"][0])
            if isinstance(a, tuple) and a[0] == "agg":
                s.env[i.id] = a[1 + i.d["idx"][0]]
            else:
                s.env[i.id] = self.sym("x")
        elif op == "icmp":
            a, b = [self.val(s, x) for x in i.d["ops"]]
            if i.pred in ("eq", "ne"):
                s.env[i.id] = (i.pred, 1, a, b)
                if isinstance(a, int) and isinstance(b, int):
                    s.env[i.id] = int((a == b) == (i.pred == "eq"))
            else:
                s.env[i.id] = self.sym("c")
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
            a, b = [self.val(s, x) for x in i.d["ops"]]
            s.env[i.id] = (op, width(i.ty), a, b)
            if isinstance(a, int) and isinstance(b, int):
                s.env[i.id] = ev((op, width(i.ty), a, b), {})
        elif op in ("zext", "trunc", "freeze"):
            a = self.val(s, i.d["ops"][0])
            s.env[i.id] = a if op == "freeze" else (op, width(i.ty), a)
        elif op == "sext":
            a = self.val(s, i.d["ops"][0])
            src = i.d["ops"][0]
            sw = None
            if isinstance(src, int):
                si = self.fn.inst.get(src)
                sw = width(si.ty) if si is not None else width(self.fn.params[self.fn.pid[src]]["ty"])
            s.env[i.id] = ("sext", width(i.ty), a, sw) if sw else self.sym("x")
        elif op == "select":
            c, a, b = [self.val(s, x) for x in i.d["ops"]]
            s.env[i.id] = ("select", width(i.ty) or 64, c, a, b)
        elif op == "fence":
            s.ev.append(("fence", i, {"full": True}))
        elif i.is_call:
            if i.d.get("intr"):
                if i.d["intr"] in ("llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.experimental.noalias.scope.decl"):
                    return
            c = i.callee
            if isinstance(c, dict) and c.get("k") == "asm":
                return self.asm(i, s, c)
            if self.any_counter(i, s):
                raise Bad("escapes", i, "the counter is passed to %s" % (i.dem or "a call"))
            s.env[i.id] = self.sym("call")

    def any_counter(self, i, s):
        return any(self.is_counter(self.val(s, a)) for a in i.args)

    def asm(self, i, s, c):
        cons = [x for x in c["c"].split(",")]
        clob = [x for x in cons if x.startswith("~")]
        cons = [x for x in cons if not x.startswith("~")]
        memclob = "~{memory}" in clob
        args = list(i.args)
        outs, ops = [], []
        for k, x in enumerate(cons):
            if x.startswith("="):
                if "*" in x:
                    ops.append(["mem", self.val(s, args.pop(0))])
                else:
                    ops.append(["out", None])
                    outs.append(k)
            else:
                a = args.pop(0)
                v = self.val(s, a)
                if x.isdigit():
                    ops.append(["in", v])
                    ops[int(x)].append(v)       # tied: initial value of that output
                elif "*" in x:
                    ops.append(["mem", v])
                else:
                    ops.append(["in", v])
        ax = [k for k, x in enumerate(cons) if "{ax}" in x]
        text = re.sub(r"#[^\n]*", "", c["v"])
        lock = False
        res = {}            # operand -> new value (outputs)
        flags = None

        def opn(t):
            m = re.match(r"\$\{?(\d+)(?::\w+)?\}?$", t.strip())
            return int(m.group(1)) if m else None

        def getv(k):
            o = ops[k]
            if o[0] == "out":
                return res.get(k, o[2] if len(o) > 2 else self.sym("undef"))
            if o[0] == "in":
                return o[1]
            return self.rd(o[1], s)

        def full(k):
            return ops[k][1][2] == 0 if self.is_counter(ops[k][1]) else False
        meta = lambda k, lk: {"full": full(k), "lock": lk, "clobber": memclob, "kind": "asm"}
        fenced = False
        for stmt in re.split(r"[;\n]", text):
            t = stmt.strip()
            if not t:
                continue
            m = re.match(r"lock\b\s*(.*)$", t)
            if m:
                lock = True
                t = m.group(1).strip()
                if not t:
                    continue
            m = re.match(r"([a-z]+)\s*(.*)$", t)
            if not m:
                raise Bad("unknown-asm", i, "cannot interpret '%s'" % t)
            mn, rest = m.group(1), [x.strip() for x in m.group(2).split(",")] if m.group(2) else []
            base = re.match(r"(cmpxchg|xchg|xadd|mov|add|sub|and|or|xor|inc|dec|setnz|setz|setne|sete|mfence|lfence|sfence)[bwlq]?$", mn)
            if not base:
                raise Bad("unknown-asm", i, "cannot interpret '%s'" % t)
            mn = base.group(1)
            lk = lock
            lock = False
            if mn == "mfence" or (lk and "%rsp" in t):
                fenced = True
                continue
            if mn in ("lfence", "sfence"):
                continue
            if mn in ("setz", "sete", "setnz", "setne"):
                k = opn(rest[0])
                v = flags if mn in ("setz", "sete") else ("xor", 1, flags, 1)
                if ops[k][0] == "mem":
                    s.mem[(ops[k][1][1], ops[k][1][2])] = v
                else:
                    res[k] = v
                continue
            ks = [opn(x) for x in rest]
            if any(k is None for k in ks):
                raise Bad("unknown-asm", i, "cannot interpret '%s'" % t)
            if mn == "mov":
                src, dst = ks
                if ops[src][0] == "mem" and self.is_counter(ops[src][1]):
                    v = self.sym("L")
                    s.ev.append(("load", i, v[1], dict(meta(src, False), atomic=7, vol=True)))
                else:
                    v = getv(src)
                if ops[dst][0] == "mem":
                    if self.is_counter(ops[dst][1]):
                        s.ev.append(("store", i, v, dict(meta(dst, False), atomic=None, vol=True, clobber=False)))
                    else:
                        s.mem[(ops[dst][1][1], ops[dst][1][2])] = v
                else:
                    res[dst] = v
                continue
            if mn in ("inc", "dec"):
                mk, v = ks[0], 1
                f = "add" if mn == "inc" else "sub"
            elif mn == "cmpxchg":
                src, mk = ks
                if ops[mk][0] != "mem" or not self.is_counter(ops[mk][1]):
                    raise Bad("unknown-asm", i, "cmpxchg on something else")
                if not ax:
                    raise Bad("unknown-asm", i, "cmpxchg without the accumulator operand")
                old, ok = self.sym("O"), self.sym("S")
                e = getv(ax[0])
                if not lk:
                    raise Bad("not-indivisible", i, "cmpxchg on the counter without a lock prefix")
                if not memclob:
                    raise Bad("no-barrier", i, "no memory clobber: the compiler may move accesses across the operation")
                s.ev.append(("cas", i, ok[1], e, getv(src), old, None))
                res[ax[0]] = old
                flags = ok
                continue
            else:
                src, mk = ks
                if ops[mk][0] != "mem" and ops[src][0] == "mem" and mn == "xchg":
                    src, mk = mk, src
                v = getv(src)
                f = {"xadd": "add", "xchg": None}.get(mn, mn)
            if ops[mk][0] != "mem" or not self.is_counter(ops[mk][1]):
                raise Bad("unknown-asm", i, "'%s' does not operate on the counter" % t)
            if mn != "xchg" and not lk:
                raise Bad("not-indivisible", i, "'%s' modifies the counter without a lock prefix" % t)
            old = self.sym("O")
            s.ev.append(("rmw", i, old[1], v if f is None else (f, self.cw, old, v), meta(mk, lk)))
            if mn in ("xadd", "xchg"):
                res[src] = old
        vs = []
        for k in outs:
            vs.append(res.get(k, ops[k][2] if len(ops[k]) > 2 else self.sym("undef")))
        s.env[i.id] = vs[0] if len(vs) == 1 else ("agg",) + tuple(vs)
        s.ev.append(("barrier", i, {"full": fenced, "clobber": memclob}))

    def rd(self, p, s):
        if isinstance(p, tuple) and p[0] == "ptr":
            k = (p[1], p[2])
            if k not in s.mem:
                s.mem[k] = ("sym", "M%d_%d" % (p[1][1], p[2])) if p[1][0] == "param" else self.sym("m")
            return s.mem[k]
        return self.sym("m")


OLD, P1 = ("sym", "OLD"), ("sym", "P1")


def spec(name, w, unsafe):
    """(kind, new value, returned value)"""
    b = lambda f, x=P1: (f, w, OLD, x)
    n = name
    if unsafe:
        n = n.replace("atomic_", "", 1)
    if n.startswith("operator"):
        o = n[len("operator"):].strip()
        t = {"+=": "add", "-=": "sub", "|=": "or", "&=": "and", "^=": "xor"}
        if o in t:
            return ("rmw", b(t[o]), b(t[o]))
        if o == "=":
            return ("store", P1, P1)
        if o == "++":
            return ("rmw", b("add", 1), "incdec")
        if o == "--":
            return ("rmw", b("sub", 1), "incdec")
        return ("load", None, OLD)
    m = re.match(r"fetch_(add|sub|or|and|xor)$", n)
    if m:
        return ("rmw", b(m.group(1)), OLD)
    return {
        "incThenFetch": ("rmw", b("add", 1), b("add", 1)), "decThenFetch": ("rmw", b("sub", 1), b("sub", 1)),
        "addThenFetch": ("rmw", b("add"), b("add")), "isZero": ("load", None, ("eq", 1, OLD, 0)), "load": ("load", None, OLD),
        "store": ("store", P1, None), "exchange": ("rmw", P1, OLD), "compare_exchange_strong": ("cas", None, None),
    }.get(n)


def fenced(s, x):
    k = s.ev.index(x)
    bar = lambda y: y[0] == "fence" or (y[0] == "barrier" and y[2]["clobber"])
    return any(bar(y) for y in s.ev[:k]) and any(bar(y) for y in s.ev[k + 1:])


def check(fn, r, name, w, unsafe):
    """raises Bad; returns number of paths"""
    sp = spec(name, w, unsafe)
    run = Run(fn, w, None)
    if not run.ends:
        raise Bad("no-exit", fn.blocks[0][-1], "no path returns")
    kind, new, ret = sp
    if ret == "incdec":
        ret = OLD if len(fn.params) > 1 else new       # postfix has the dummy int
    for ins, s, rv in run.ends:
        acc = [x for x in s.ev if x[0] in ("load", "store", "rmw", "cas")]
        last = acc[-1] if acc else None

        def at():
            return last[1] if last else ins
        for x in acc:
            if x[0] in ("load", "store", "rmw"):
                meta = x[-1]
                if not meta["full"]:
                    raise Bad("partial-width", x[1], "accesses only part of the counter")
                if x[0] == "rmw" and not meta["clobber"] and not fenced(s, x):
                    raise Bad("no-barrier", x[1], "no memory clobber: the compiler may move accesses across the operation")
            if x[0] == "cas" and x[1].op == "cmpxchg" and (x[1].d.get("atomic") or 0) < 6 and not fenced(s, x):
                raise Bad("no-barrier", x[1], "relaxed compare-exchange: the compiler may move accesses across the operation")
        later_barrier = lambda x: any(y[0] == "fence" or (y[0] == "barrier" and y[2]["clobber"]) for y in s.ev[s.ev.index(x) + 1:])
        if kind == "load":
            if len(acc) != 1 or last[0] != "load":
                raise Bad("not-indivisible", at(), "a read must be exactly one load of the counter (found: %s)" % [x[0] for x in acc])
            meta = last[3]
            if not meta["clobber"] and not later_barrier(last):
                raise Bad("no-barrier", last[1], "no barrier after the load: later accesses may be moved before it")
            m = {last[2]: OLD}
            wr = 1 if name == "isZero" else w
            if same(subst(rv, m), ret, w, ["OLD"]) is not True:
                raise Bad("wrong-result", ins, "the returned value is not computed from the value read as promised")
            continue
        if kind == "store":
            if len(acc) != 1 or last[0] not in ("store", "rmw"):
                raise Bad("not-indivisible", at(), "a store must be exactly one write of the counter (found: %s)" % [x[0] for x in acc])
            if last[0] == "store":
                if not last[3]["clobber"]:
                    k = s.ev.index(last)
                    before = any(y[0] == "fence" or (y[0] == "barrier" and y[2]["clobber"]) for y in s.ev[:k])
                    after = any(y[0] == "fence" or (y[0] == "barrier" and y[2]["full"]) for y in s.ev[k + 1:])
                    if not (before and after):
                        raise Bad("no-barrier", last[1], "the store is not ordered against the surrounding accesses")
                v = last[2]
            else:
                v = last[3]
                if last[2] in syms(v):
                    raise Bad("wrong-update", last[1], "store writes a value depending on the old one")
            if same(v, P1, w, ["P1"]) is not True:
                raise Bad("wrong-update", last[1], "store does not write the given value")
            if ret is not None and same(rv, ret, w, ["P1"]) is not True:
                raise Bad("wrong-result", ins, "assignment does not return the assigned value")
            continue
        if kind == "cas":
            cas = [x for x in acc if x[0] == "cas"]
            if len(acc) != 1 or len(cas) != 1:
                raise Bad("not-indivisible", at(), "compare-exchange must be exactly one locked compare-exchange (found: %s)" % [x[0] for x in acc])
            x = cas[0]
            exp0 = ("sym", "M1_0")
            if x[3] != exp0:
                raise Bad("wrong-update", x[1], "does not compare with *expected")
            if x[4] != ("sym", "P2"):
                raise Bad("wrong-update", x[1], "does not install the desired value")
            outm = s.mem.get((("param", 1), 0))
            ok = x[6]
            fin = subst(outm, {}) if outm is not None else None
            # *expected must end up holding the value observed (on success both are equal)
            if ok is True:
                good = fin in (x[5], exp0)
            else:
                good = fin == x[5]
                if not good and ok is None and isinstance(fin, tuple) and fin[0] == "select":
                    good = x[5] in fin[2:] and exp0 in fin[2:]
            if not good:
                raise Bad("wrong-result", ins, "*expected is not updated with the value observed")
            e = strip(rv)
            if ok is None:
                if not result_is(e, x):
                    raise Bad("wrong-result", ins, "the result is not the outcome of the compare-exchange")
            else:
                if not (isinstance(e, int) and bool(e) == ok) and not result_is(e, x):
                    raise Bad("wrong-result", ins, "the result is not the outcome of the compare-exchange")
            continue
        # rmw
        rm = [x for x in acc if x[0] == "rmw"]
        cas = [x for x in acc if x[0] == "cas"]
        stores = [x for x in acc if x[0] == "store"]
        loads = [x for x in acc if x[0] == "load"]
        if stores:
            raise Bad("not-indivisible", stores[0][1], "plain store to the counter inside a read-modify-write operation")
        wins = [x for x in cas if x[6] is True]
        unsure = [x for x in cas if x[6] is None]
        if len(rm) + len(wins) != 1 or unsure:
            if unsure:
                raise Bad("not-indivisible", unsure[0][1], "the operation finishes although the compare-exchange may have failed: the update can be lost")
            raise Bad("not-indivisible", at(), "%d updates of the counter on one path (exactly one expected)" % (len(rm) + len(wins)))
        if rm:
            x = rm[0]
            m = {x[2]: OLD}
            nv = subst(x[3], m)
        else:
            x = wins[0]
            if not (isinstance(x[3], tuple) and x[3][0] == "sym"):
                raise Bad("wrong-update", x[1], "compares with something that is not a value read from the counter")
            m = {x[3][1]: OLD, x[5][1]: OLD}
            nv = subst(x[4], m)
            if acc.index(x) != len(acc) - 1:
                raise Bad("not-indivisible", acc[-1][1], "the counter is accessed again after the update")
        if same(nv, new, w, ["OLD", "P1"]) is not True:
            raise Bad("wrong-update", x[1], "the value installed is not the promised function of the old value and the operand")
        if same(subst(rv, m), ret, w, ["OLD", "P1"]) is not True:
            raise Bad("wrong-result", ins, "the returned value is not the promised function of the old value and the operand"
                      + (" (it uses another read of the counter)" if any(l[2] in syms(subst(rv, m)) for l in loads) else ""))
    return len(run.ends)


def check_ctor(fn, cw):
    run = Run(fn, cw, None)
    for ins, s, rv in run.ends:
        acc = [x for x in s.ev if x[0] in ("load", "store", "rmw", "cas")]
        if not acc or acc[-1][0] != "store" or not acc[-1][3]["full"]:
            raise Bad("uninitialised", ins, "the constructor does not set the whole counter")
        want = P1 if len(fn.params) > 1 else 0
        if same(acc[-1][2], want, cw, ["P1"]) is not True:
            raise Bad("uninitialised", acc[-1][1], "the constructor does not set the counter to %s" % ("the given value" if want else "zero"))


def strip(e):
    while isinstance(e, tuple) and e[0] in ("zext", "trunc"):
        e = e[2]
    return e


def result_is(e, x):
    e = strip(e)
    t = True
    while isinstance(e, tuple) and e[0] in ("ne", "eq", "and"):
        if e[0] == "and" and e[3] == 1:
            e = strip(e[2])
        elif e[0] == "ne" and e[3] == 0:
            e = strip(e[2])
        elif e[0] == "eq" and {str(e[2]), str(e[3])} == {str(x[3]), str(x[5])}:
            return t
        elif e[0] == "eq" and e[3] == 0:
            t = not t
            e = strip(e[2])
        else:
            return False
    return t and e == ("sym", x[2])


def check_fence(fn, signal):
    run = Run(fn, 32, None)
    for ins, s, rv in run.ends:
        orders = [v for k, v in s.assume.items() if "P0" in k]
        o = orders[0] if orders else None
        bar = [y for y in s.ev if y[0] == "fence" or (y[0] == "barrier" and y[2]["clobber"])]
        full = [y for y in s.ev if y[0] in ("fence", "barrier") and y[2]["full"]]
        may = [o] if isinstance(o, int) and not isinstance(o, bool) else \
            [x for x in range(6) if not (isinstance(o, tuple) and x in o[1])]
        for x in may:
            if signal or x in (1, 2, 3, 4):
                if not bar:
                    if signal and x == 0:
                        continue
                    raise Bad("no-barrier", ins, "fence with memory order %d emits no compiler barrier" % x)
            if not signal and x == 5 and not full:
                raise Bad("no-barrier", ins, "sequentially consistent fence emits no full barrier")
    return len(run.ends)


def run(ctx):
    r = Result()
    r.rules = ["on every path each operation performs exactly one indivisible full-width access of its kind (locked asm, xchg, atomic builtin, or a "
               "compare-exchange retried until it succeeds) and no other access to the counter",
               "the value installed and the value returned equal the promised function of (old value, operand): compared over all 2^16 pairs at 8 bits, "
               "over a boundary grid at wider widths",
               "each such access is a compiler barrier (volatile with memory clobber, or a sequentially consistent builtin)"]
    bcs = ctx.witness_bc("w_atomic.cpp")
    m = ctx.module(bcs, export_repo=True, passes="function(sroa,early-cse,simplifycfg,sroa,adce)", types=True)
    ctl = {}
    ops = set()
    for f in m.fns:
        cls = f.this_class or ""
        nm = f.d.get("sname") or ""
        where = "%s:%d" % (f.relfile, f.line)
        if re.match(r"lintel::atomic_(thread|signal)_fence\(", f.dem):
            try:
                r.count("paths", check_fence(f, "signal" in f.dem))
                r.count("fences")
            except Bad as b:
                r.violate(b.rule, b.ins.where(m.repo), f.dem, b.text)
            continue
        unsafe = "lintel::unsafe::atomic_" in f.dem
        ismem = cls.startswith("lintel::Atomic<")
        isctl = "bad_ctl::" in cls or "good_ctl::" in cls
        if not (unsafe or ismem or isctl):
            continue
        if unsafe:
            nm = re.search(r"unsafe::(atomic_\w+)", f.dem).group(1)
            t = re.search(r"atomic_\w+<([^,>]+)", f.dem).group(1)
        elif ismem:
            t = re.match(r"lintel::Atomic<(.*)>$", cls).group(1)
        else:
            t = None
        if nm.startswith("operator") and not re.match(r"operator\s*(\+=|-=|\|=|&=|\^=|=|\+\+|--)$", nm):
            nm = "operator T"
        if ismem and nm.startswith("~"):
            continue
        cw = {"signed char": 8, "unsigned char": 8, "char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
              "long": 64, "unsigned long": 64}.get(t)
        if cw is None:
            ty = m.types.get(cls) or m.types.get(cls.split("::")[-1])
            cw = ty["size"] * 8
        try:
            if ismem and nm == "Atomic":
                check_ctor(f, cw)
                r.count("constructors")
                continue
            if spec(nm, 8, unsafe) is None:
                r.count("members_without_spec")
                continue
            n = check(f, r, nm, cw, unsafe)
            if isctl:
                ctl[cls] = "ok"
                continue
            r.count("paths", n)
            r.count("operations")
            ops.add(nm)
            r.sample("%s: %d paths, one indivisible step, result as promised" % (f.dem, n))
        except Bad as b:
            if isctl:
                ctl[cls] = b.rule
                continue
            r.count("operations")
            ops.add(nm)
            r.violate(b.rule, b.ins.where(m.repo), f.dem, b.text)
    r.counts["distinct_operations"] = len(ops)
    r.need("operations", 150)
    r.need("distinct_operations", 24)
    r.need("fences", 2)
    r.need("constructors", 8)
    for c, want in (("Plain", "not-indivisible"), ("NoLock", "not-indivisible"), ("NoClobber", "no-barrier"), ("Reread", "wrong-result"),
                    ("NewForOld", "wrong-result"), ("NoRetry", "not-indivisible")):
        if ctl.get("bad_ctl::" + c) != want:
            raise AssertionError("positive control %s: got %s" % (c, ctl.get("bad_ctl::" + c)))
    for c in ("Builtin", "Loop", "Sub"):
        if ctl.get("good_ctl::" + c) != "ok":
            raise AssertionError("negative control %s: got %s" % (c, ctl.get("good_ctl::" + c)))
    r.counts["controls"] = 9
    return r
