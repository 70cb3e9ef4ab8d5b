"""Linear forms over the values a function starts with, followed along the edges of a loop-free CFG.

A form is (constant, frozenset of (atom, coefficient)); atoms are the entry contents of a place, an argument, the
result of a call or load that is not understood.  Arithmetic is modulo 2^64."""
from .ir import *

M64 = (1 << 64) - 1


def lin(c=0, atom=None):
    return (c & M64, frozenset([(atom, 1)]) if atom is not None else frozenset())


def add(a, b, k=1):
    d = dict(a[1])
    for x, n in b[1]:
        n = (d.get(x, 0) + k * n) & M64
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return ((a[0] + k * b[0]) & M64, frozenset(d.items()))


def scale(a, k):
    return ((a[0] * k) & M64, frozenset((x, (n * k) & M64) for x, n in a[1] if (n * k) & M64))


class Path:
    __slots__ = ("mem", "val", "conds", "events", "ret", "inst", "trace")

    def __init__(self, p=None):
        self.mem = dict(p.mem) if p else {}
        self.val = dict(p.val) if p else {}
        self.conds = list(p.conds) if p else []
        self.events = list(p.events) if p else []
        self.trace = list(p.trace) if p else []
        self.ret = None
        self.inst = None


class LinPaths:
    """every path of a function with the contents of each one-level place as a linear form"""

    def __init__(self, f, limit=4000, on_call=None):
        self.f = f
        self.done = []
        self.n = 0
        self.on_call = on_call
        st = [(0, None, Path(), frozenset())]
        while st:
            b, prev, p, seen = st.pop()
            if b in seen:
                raise OverflowError("loop in " + f.dem)
            seen = seen | {b}
            self.n += 1
            if self.n > limit:
                raise OverflowError("too many paths in " + f.dem)
            p.trace.append(b)
            new = {}
            for i in f.blocks[b]:
                if i.op != "phi":
                    break
                for v, q in i.d["in"]:
                    if q == prev:
                        new[i.id] = self.ev(p, v)
            p.val.update(new)
            for i in f.blocks[b]:
                if i.op == "phi":
                    continue
                if i.op == "ret":
                    p.ret = self.ev(p, i.d["ops"][0]) if i.d.get("ops") else None
                    p.inst = i
                    self.done.append(p)
                    break
                if i.op in ("resume", "unreachable"):
                    break
                if i.op == "br":
                    if i.cond is None:
                        st.append((i.succ[0], b, p, seen))
                        break
                    c = self.ev(p, i.cond)
                    for n, t in enumerate(i.succ):
                        truth = n == 0
                        if not c[1] and bool(c[0] & 1) != truth:
                            continue
                        q = Path(p)
                        if self.assume(q, i.cond, truth):
                            st.append((t, b, q, seen))
                    break
                if i.op == "switch":
                    for t in set(i.succ):
                        st.append((t, b, Path(p), seen))
                    break
                if i.op == "invoke":
                    self.step(p, i)
                    st.append((i.succ[0], b, p, seen))
                    break
                self.step(p, i)
                if i.is_call and i.noreturn:
                    break

    def place(self, p, v):
        """one-level place: ('this field', offset) or an alloca"""
        pth = self.f.path(v)
        if pth[0][0] in ("param", "alloca") and len(pth) <= 2 and all(x[0] == "+" for x in pth[1:]):
            return (pth[0], pth[1][1] if len(pth) == 2 else 0)
        return None

    def ev(self, p, v, depth=0):
        if isinstance(v, dict):
            k = v.get("k")
            if k == "int":
                return lin(v["v"])
            if k == "null":
                return lin(0)
            return lin(0, ("const", str(v.get("n") or k)))
        if v in p.val:
            return p.val[v]
        if v in self.f.pid:
            return lin(0, ("arg", self.f.plab[v]))
        i = self.f.inst[v]
        r = lin(0, ("val", v))
        o = i.d.get("ops")
        if depth > 60:
            return r
        if i.op in ("add", "sub"):
            r = add(self.ev(p, o[0], depth + 1), self.ev(p, o[1], depth + 1), 1 if i.op == "add" else -1)
        elif i.op == "mul":
            a, b = self.ev(p, o[0], depth + 1), self.ev(p, o[1], depth + 1)
            if not a[1]:
                r = scale(b, a[0])
            elif not b[1]:
                r = scale(a, b[0])
        elif i.op == "shl":
            a, b = self.ev(p, o[0], depth + 1), self.ev(p, o[1], depth + 1)
            if not b[1] and b[0] < 64:
                r = scale(a, 1 << b[0])
        elif i.op in ("freeze", "bitcast", "ptrtoint", "inttoptr", "zext", "sext"):
            if i.op in ("zext", "sext") and self._ty(o[0]) != "i64":
                return r
            r = self.ev(p, o[0], depth + 1)
        elif i.op == "getelementptr":
            if i.off is not None:
                r = add(self.ev(p, i.base, depth + 1), lin(i.off))
                for x, s in i.var or []:
                    r = add(r, scale(self.ev(p, x, depth + 1), s))
        elif i.op == "select":
            c = self.ev(p, o[0], depth + 1)
            if not c[1]:
                r = self.ev(p, o[1] if c[0] & 1 else o[2], depth + 1)
        elif i.op == "icmp":
            a, b = self.ev(p, o[0], depth + 1), self.ev(p, o[1], depth + 1)
            t = self.decide(p, i.pred, a, b)
            if t is not None:
                r = lin(1 if t else 0)
        return r

    def _ty(self, v):
        if isinstance(v, int) and v in self.f.inst:
            return self.f.inst[v].ty
        return None

    def decide(self, p, pred, a, b):
        if a == b:
            return pred in ("eq", "ule", "uge", "sle", "sge")
        if not a[1] and not b[1]:
            return {"eq": False, "ne": True, "ult": a[0] < b[0], "ugt": a[0] > b[0], "ule": a[0] <= b[0], "uge": a[0] >= b[0]}.get(pred)
        for (q, x, y, t) in p.conds:
            if (x, y) == (a, b) and q == pred:
                return t
        if pred == "ult" and a == lin(0) or pred == "ugt" and b == lin(0):
            t = self.decide(p, "eq", a, b)
            return None if t is None else not t
        if pred in ("eq", "ne"):
            d = add(a, b, -1)
            for (q, x, y, t) in p.conds:
                if q == "eq" and d in (add(x, y, -1), add(y, x, -1)):
                    return t == (pred == "eq")
        return None

    def assume(self, p, v, truth):
        i = self.f.inst.get(v) if isinstance(v, int) else None
        if i is None:
            return True
        if i.op == "icmp":
            a, b = self.ev(p, i.d["ops"][0]), self.ev(p, i.d["ops"][1])
            t = self.decide(p, i.pred, a, b)
            if t is not None:
                return t == truth
            pred = i.pred
            if pred == "ne":
                pred, truth = "eq", not truth
            elif pred in ("ugt", "uge", "sgt", "sge"):
                pred, a, b = {"g": "l"}[pred[1]].join([pred[0], pred[2]]), b, a
            if pred[1:] == "le":        # a <= b  is  !(b < a)
                pred, a, b, truth = pred[0] + "lt", b, a, not truth
            if pred == "ult" and a == lin(0):       # 0 < b
                pred, a, b, truth = "eq", b, a, not truth
            elif pred == "ult" and b == lin(1):     # a < 1
                pred, b = "eq", lin(0)
            p.conds.append((pred, a, b, truth))
            return True
        if i.op == "xor" and i.ty == "i1" and cint(i.d["ops"][1]) == -1:
            return self.assume(p, i.d["ops"][0], not truth)
        if i.op == "and" and i.ty == "i1" and truth or i.op == "or" and i.ty == "i1" and not truth:
            return self.assume(p, i.d["ops"][0], truth) and self.assume(p, i.d["ops"][1], truth)
        if i.op == "select" and i.ty == "i1":
            c, a, b = i.d["ops"]
            if truth and cint(b) == 0:
                return self.assume(p, c, True) and self.assume(p, a, True)
            if truth and cint(a) == 0:
                return self.assume(p, c, False) and self.assume(p, b, True)
            if not truth and cint(b) == -1:
                return self.assume(p, c, True) and self.assume(p, a, False)
            if not truth and cint(a) == -1:
                return self.assume(p, c, False) and self.assume(p, a, False)
        p.val[v] = lin(1 if truth else 0)
        return True

    def step(self, p, i):
        if i.op == "load":
            pl = self.place(p, i.ptr)
            p.val[i.id] = p.mem.get(pl, lin(0, ("in", pl))) if pl is not None else lin(0, ("val", i.id))
        elif i.op == "store":
            pl = self.place(p, i.ptr)
            if pl is not None:
                p.mem[pl] = self.ev(p, i.val)
            else:
                p.events.append(("store", i, self.ev(p, i.ptr), self.ev(p, i.val)))
        elif i.is_call:
            it = i.d.get("intr") or ""
            if it and not it.startswith("llvm.mem"):
                if it.startswith(("llvm.umin", "llvm.umax")):
                    p.val[i.id] = lin(0, ("val", i.id))
                return
            args = [self.ev(p, a) for a in i.args or []]
            p.events.append((it or i.d.get("fn") or "?", i, args))
            if self.on_call:
                self.on_call(self, p, i, args)
        elif i.op == "alloca":
            p.val[i.id] = lin(0, ("alloca", i.id))
        elif i.op not in ("phi",):
            p.val[i.id] = self.ev(p, i.id)

    def lt(self, p, a, b):
        """is a < b (unsigned) a recorded fact of the path?"""
        return any(q == "ult" and x == a and y == b and t for q, x, y, t in p.conds)

    def le(self, p, a, b):
        if a == b or a == lin(0):
            return True
        return any(q == "ult" and (x == b and y == a and not t or x == a and y == b and t) or q == "eq" and t and {a, b} == {x, y} for q, x, y, t in p.conds)

    def eq(self, p, a, b):
        if a == b:
            return True
        d = add(a, b, -1)
        return any(q == "eq" and t and d in (add(x, y, -1), add(y, x, -1)) for q, x, y, t in p.conds)
