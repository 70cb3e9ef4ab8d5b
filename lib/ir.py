"""In-memory form of the lirx export plus the path/dataflow helpers every rule uses."""
import heapq
from collections import defaultdict, deque


class Inst:
    __slots__ = ("d", "id", "op", "block", "idx", "fn")

    def __init__(self, d, fn, block, idx):
        self.d = d
        self.id = d["id"]
        self.op = d["op"]
        self.fn = fn
        self.block = block
        self.idx = idx

    def __getattr__(self, k):
        if k == "d" or k.startswith("__"):
            raise AttributeError(k)
        try:
            return self.d[k]
        except KeyError:
            return None

    @property
    def is_call(self):
        return self.op in ("call", "invoke")

    @property
    def may_throw(self):
        return self.op in ("call", "invoke") and not self.d.get("nothrow") and \
            not (self.d.get("intr")) and not (isinstance(self.d.get("callee"), dict) and self.d["callee"].get("k") == "asm")

    @property
    def this_arg(self):
        """argument position of 'this' if the callee is a member function"""
        return 1 if (self.d.get("aattr") or [""])[:1] == ["sret"] else 0

    def where(self, repo="/repo/"):
        """file:line of the innermost frame inside the repository."""
        loc = self.d.get("loc") or []
        for l in loc:
            if l.startswith(repo):
                return l[len(repo):]
        if loc:
            return loc[0]
        return "%s:%s" % (self.fn.relfile, self.fn.line)

    def chain(self, repo="/repo/"):
        loc = self.d.get("loc") or []
        sc = self.d.get("scope") or []
        r = []
        for l, s in zip(loc, sc):
            if l.startswith(repo):
                r.append("%s (%s)" % (l[len(repo):], s))
        return r


class Fn:
    def __init__(self, d, mod):
        self.d = d
        self.mod = mod
        self.name = d["name"]
        self.dem = d["dem"]
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.params = d["params"]
        self.this_class = d.get("this_class")
        self.this_const = d.get("this_const", False)
        self.blocks = []
        self.inst = {}
        for b, insts in enumerate(d["blocks"]):
            l = []
            for i, x in enumerate(insts):
                ins = Inst(x, self, b, i)
                l.append(ins)
                self.inst[ins.id] = ins
            self.blocks.append(l)
        self.pid = {p["id"]: n for n, p in enumerate(self.params)}
        self.has_sret = bool(self.params) and bool(self.params[0].get("sret"))
        # label of a parameter in access paths: 'this' of a member function is always 0
        self.plab = {p["id"]: (n if not self.has_sret else ("sret" if n == 0 else n - 1)) for n, p in enumerate(self.params)}
        self.succ = []
        self.pred = [[] for _ in self.blocks]
        for b, l in enumerate(self.blocks):
            s = list(l[-1].d.get("succ") or []) if l else []
            self.succ.append(s)
            for t in s:
                self.pred[t].append(b)
        self._uses = None
        self._dom = None
        self._pdom = None
        self._res = {}

    def param_by_label(self, lab):
        for p in self.params:
            if self.plab[p["id"]] == lab:
                return p
        return None

    @property
    def relfile(self):
        r = self.mod.repo
        return self.file[len(r):] if self.file.startswith(r) else self.file

    def insts(self):
        for l in self.blocks:
            for i in l:
                yield i

    def calls(self):
        for i in self.insts():
            if i.op in ("call", "invoke"):
                yield i

    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for i in self.insts():
                for v in operands(i):
                    if isinstance(v, int):
                        u[v].append(i)
            self._uses = u
        return self._uses

    @property
    def rpo(self):
        if getattr(self, "_rpo", None) is None:
            order, seen, st = [], {0}, [(0, iter(self.succ[0]))]
            while st:
                b, it = st[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t)
                        st.append((t, iter(self.succ[t])))
                        break
                else:
                    order.append(b)
                    st.pop()
            n = len(order)
            self._rpo = [n] * len(self.blocks)
            for k, b in enumerate(order):
                self._rpo[b] = n - 1 - k
        return self._rpo

    # -- dominators (iterative; small functions) ------------------------------
    @property
    def idom(self):
        if self._dom is None:
            self._dom = _idoms(len(self.blocks), self.succ, self.pred, 0)
        return self._dom

    def dominates(self, a, b):
        """block a dominates block b"""
        d = self.idom
        if d[b] is None and b != 0:
            return True  # unreachable
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = d[b]
            if b is None:
                return False

    def inst_dominates(self, i, j):
        if i.block == j.block:
            return i.idx < j.idx
        return self.dominates(i.block, j.block)

    def reachable(self, start):
        seen = {start}
        st = [start]
        while st:
            x = st.pop()
            for s in self.succ[x]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    # -- access paths ---------------------------------------------------------
    def path(self, v, depth=0):
        """Canonical access path of a pointer value: a tuple
        (root, step, step...) with steps ('+', off) / ('*',) / ('[]', stride)."""
        if isinstance(v, dict):
            return const_path(v)
        if v in self._res:
            return self._res[v]
        self._res[v] = (("val", v),)
        r = self._path(v, depth)
        self._res[v] = r
        return r

    def _path(self, v, depth):
        if v in self.pid:
            return (("param", self.plab[v]),)
        i = self.inst.get(v)
        if i is None or depth > 60:
            return (("val", v),)
        if i.op == "getelementptr":
            b = self.path(i.base, depth + 1)
            if i.off is None:
                return b + (("[]", 0),)
            r = add_off(b, i.off)
            for (_, stride) in i.var or []:
                r = r + (("[]", stride),)
            return r
        if i.op in ("bitcast", "addrspacecast", "freeze"):
            return self.path(i.d["ops"][0], depth + 1)
        if i.op == "load":
            return self.path(i.ptr, depth + 1) + (("*",),)
        if i.op in ("phi", "select"):
            vs = [x[0] for x in i.d["in"]] if i.op == "phi" else i.d["ops"][1:]
            ps = set()
            for x in vs:
                if isinstance(x, dict) and x.get("k") in ("null", "undef"):
                    continue
                p = self.path(x, depth + 1)
                if p == (("val", v),):
                    continue
                ps.add(p)
            if len(ps) == 1:
                return ps.pop()
            return (("val", v),)
        if i.op == "alloca":
            return (("alloca", v),)
        if i.is_call:
            # functions returning their argument
            return (("call", v),)
        return (("val", v),)

    def roots(self, v, seen=None):
        """All possible root paths of a pointer through phis/selects (set of paths)."""
        if isinstance(v, dict):
            return {const_path(v)}
        seen = seen if seen is not None else set()
        if v in seen:
            return set()
        seen.add(v)
        i = self.inst.get(v)
        if i is None:
            return {self.path(v)}
        if i.op in ("phi", "select"):
            r = set()
            vs = [x[0] for x in i.d["in"]] if i.op == "phi" else i.d["ops"][1:]
            for x in vs:
                r |= self.roots(x, seen)
            return r
        if i.op == "getelementptr":
            r = set()
            for b in self.roots(i.base, seen):
                p = add_off(b, i.off) if i.off is not None else b + (("[]", 0),)
                for (_, s) in (i.var or []):
                    p = p + (("[]", s),)
                r.add(p)
            return r
        if i.op in ("bitcast", "addrspacecast", "freeze"):
            return self.roots(i.d["ops"][0], seen)
        return {self.path(v)}


def const_path(v):
    k = v.get("k")
    if k == "glob":
        return (("glob", v["n"]),)
    if k == "fn":
        return (("fn", v["n"]),)
    if k == "cexpr" and v.get("op") == "off":
        return add_off(const_path(v["base"]), v["off"])
    if k == "null":
        return (("null",),)
    return (("const", k),)


def add_off(p, off):
    if off == 0:
        return p
    if p and p[-1][0] == "+":
        n = p[-1][1] + off
        return p[:-1] + ((("+", n),) if n else ())
    return p + (("+", off),)


def operands(i):
    d = i.d
    op = i.op
    if op in ("call", "invoke"):
        for a in d.get("args") or []:
            yield a
        c = d.get("callee")
        if isinstance(c, int):
            yield c
        return
    for k in ("base", "ptr", "val", "cond"):
        if k in d:
            yield d[k]
    for x in d.get("var") or []:
        yield x[0]
    for x in d.get("in") or []:
        yield x[0]
    for x in d.get("ops") or []:
        yield x


def _idoms(n, succ, pred, root):
    order = []
    seen = set()
    st = [(root, iter(succ[root]))]
    seen.add(root)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = [None] * n
    idom[root] = root
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b == root:
                continue
            new = None
            for p in pred[b]:
                if p in num and idom[p] is not None:
                    if new is None:
                        new = p
                    else:
                        f1, f2 = p, new
                        while f1 != f2:
                            while num[f1] > num[f2]:
                                f1 = idom[f1]
                            while num[f2] > num[f1]:
                                f2 = idom[f2]
                        new = f1
            if new is not None and idom[b] != new:
                idom[b] = new
                changed = True
    idom[root] = None
    return idom


class Module:
    def __init__(self, d, repo="/repo/"):
        self.repo = repo
        self.fns = [Fn(f, self) for f in d["functions"]]
        self.by_name = {f.name: f for f in self.fns}
        self.globals = {g["name"]: g for g in d.get("globals", [])}
        self.types = d.get("types", {})
        self.repo_functions = d.get("repo_functions", [])
        self.callers = d.get("callers", {})
        self.inlined = d.get("inlined")
        self.refused = d.get("refused")

    def field_name(self, cls, off):
        t = self.types.get(cls)
        if not t:
            return "+%d" % off
        best = None
        for f in t["fields"]:
            if f["kind"] == "base":
                if f["off"] <= off < f["off"] + max(f["size"], 1):
                    return self.field_name(f["type"], off - f["off"])
                continue
            if f["off"] <= off < f["off"] + max(f["size"], 1):
                best = f
        return best["name"] if best else "+%d" % off

    def gname(self, n):
        g = self.globals.get(n)
        return g["dem"] if g else n


def cint(v):
    """integer constant value or None"""
    if isinstance(v, dict):
        if v.get("k") == "int":
            return v.get("v")
        if v.get("k") == "null":
            return 0
    return None


class Forward:
    """Path-merging forward dataflow over a finite state (hashable, joined as sets).
    State = frozenset of abstract facts; each fact is processed independently."""

    def __init__(self, fn, init, step, edge=None, limit=20000):
        """step(inst, fact) -> iterable of ('n', fact) normal / ('x', fact) exceptional
        outcomes; edge(block, succ, fact) -> fact or None."""
        self.fn = fn
        self.at_ret = []      # (inst, fact)
        self.at_exc = []      # (inst, fact): leaves by exception
        self.parent = {}
        work = deque()
        seen = set()

        def push(b, fact, par):
            k = (b, fact)
            if k not in seen:
                seen.add(k)
                self.parent[k] = par
                work.append(k)
                if len(seen) > limit:
                    raise OverflowError("dataflow too large in " + fn.dem)
        push(0, init, None)
        while work:
            k = work.popleft()
            b, fact0 = k
            facts = [fact0]
            for ins in fn.blocks[b]:
                if ins.op == "ret":
                    for f in facts:
                        self.at_ret.append((ins, f, k))
                    facts = []
                    break
                if ins.op == "resume":
                    for f in facts:
                        self.at_exc.append((ins, f, k))
                    facts = []
                    break
                if ins.op == "unreachable":
                    facts = []
                    break
                nxt = []
                for f in facts:
                    for kind, g in step(ins, f):
                        if kind == "n":
                            if ins.op == "invoke":
                                t = ins.succ[0]
                                h = edge(ins, t, g) if edge else g
                                if h is not None:
                                    push(t, h, k)
                            else:
                                nxt.append(g)
                        else:
                            if ins.op == "invoke":
                                push(ins.succ[1], g, k)
                            else:
                                self.at_exc.append((ins, g, k))
                if ins.op == "invoke":
                    facts = []
                    break
                if ins.op in ("br", "switch", "indirectbr"):
                    for n, t in enumerate(ins.succ or []):
                        for g in nxt:
                            h = edge(ins, (n, t), g) if edge else g
                            if h is not None:
                                push(t, h, k)
                    facts = []
                    break
                # drop duplicates
                facts = list(dict.fromkeys(nxt))

    def trace(self, k, n=12):
        """block path (as source lines) leading to work item k"""
        r = []
        while k is not None and len(r) < 400:
            b = k[0]
            for i in self.fn.blocks[b]:
                if i.d.get("loc"):
                    r.append(i.where(self.fn.mod.repo))
                    break
            k = self.parent.get(k)
        r = r[::-1]
        out = []
        for x in r:
            if not out or out[-1] != x:
                out.append(x)
        return out[-n:]


def default_outcomes(ins, fact):
    """normal + exceptional continuation of an instruction that does not touch the fact."""
    if ins.op == "invoke" or ins.is_call:
        if ins.may_throw:
            if ins.noreturn:
                return [("x", fact)]
            return [("n", fact), ("x", fact)]
        if ins.noreturn:
            return []
    return [("n", fact)]


# ---------------------------------------------------------------------------
# Path-sensitive (for branch-deciding constants) forward exploration
# ---------------------------------------------------------------------------
NZ = "nz"   # known to be non-zero


def _wrap(v, ty):
    if isinstance(ty, str) and ty.startswith("i") and ty[1:].isdigit():
        b = int(ty[1:])
        v &= (1 << b) - 1
        if v >> (b - 1) and b > 1:
            v -= 1 << b
        elif b == 1:
            v = -1 if v else 0
    return v


def _uns(v, ty):
    if isinstance(ty, str) and ty.startswith("i") and ty[1:].isdigit():
        return v & ((1 << int(ty[1:])) - 1)
    return v & ((1 << 64) - 1)


def evalv(fn, env, v, depth=0):
    """Value of v under env: an int, NZ, or None when unknown."""
    if isinstance(v, dict):
        return cint(v)
    if v in env:
        return env[v]
    if depth > 12:
        return None
    i = fn.inst.get(v)
    if i is None:
        return None
    op = i.op
    if op == "icmp":
        a = evalv(fn, env, i.d["ops"][0], depth + 1)
        b = evalv(fn, env, i.d["ops"][1], depth + 1)
        if a is None or b is None:
            if i.pred in ("eq", "ne") and i.d["ops"][0] == i.d["ops"][1] and isinstance(i.d["ops"][0], int):
                return -1 if i.pred == "eq" else 0
            return None
        if a == NZ or b == NZ:
            if (a == NZ and b == 0) or (b == NZ and a == 0):
                if i.pred == "eq":
                    return 0
                if i.pred == "ne":
                    return -1
            return None
        ua, ub = a & ((1 << 64) - 1), b & ((1 << 64) - 1)
        r = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b,
             "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub}.get(i.pred)
        return None if r is None else (-1 if r else 0)
    if op in ("zext", "sext", "trunc", "freeze", "bitcast"):
        a = evalv(fn, env, i.d["ops"][0], depth + 1)
        if a is None:
            return None
        if a == NZ:
            return NZ if op != "trunc" else None
        if op == "zext":
            src = fn.inst.get(i.d["ops"][0]) if isinstance(i.d["ops"][0], int) else None
            sty = src.ty if src else None
            return _wrap(_uns(a, sty), i.ty) if sty else a
        return _wrap(a, i.ty)
    if op in ("and", "or", "xor"):
        a = evalv(fn, env, i.d["ops"][0], depth + 1)
        b = evalv(fn, env, i.d["ops"][1], depth + 1)
        if op == "and":
            if a == 0 or b == 0:
                return 0
        if op == "or" and (a == -1 or b == -1):
            return -1
        if op == "or" and (a == NZ or b == NZ or (a not in (None, 0)) or (b not in (None, 0))) and (a is None or b is None or NZ in (a, b)):
            return NZ if i.ty != "i1" else -1
        if a is None or b is None or NZ in (a, b):
            if i.ty == "i1" and NZ in (a, b):
                a = -1 if a == NZ else a
                b = -1 if b == NZ else b
                if a is None or b is None:
                    return None
            else:
                return None
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    if op in ("add", "sub", "mul"):
        a = evalv(fn, env, i.d["ops"][0], depth + 1)
        b = evalv(fn, env, i.d["ops"][1], depth + 1)
        if isinstance(a, int) and isinstance(b, int):
            return _wrap({"add": a + b, "sub": a - b, "mul": a * b}[op], i.ty)
        return None
    if op == "select":
        c = evalv(fn, env, i.d["ops"][0], depth + 1)
        if c is None:
            a = evalv(fn, env, i.d["ops"][1], depth + 1)
            b = evalv(fn, env, i.d["ops"][2], depth + 1)
            return a if a == b else None
        return evalv(fn, env, i.d["ops"][1] if c else i.d["ops"][2], depth + 1)
    if op == "phi":
        return None
    return None


def learn(fn, env, v, truth, track, depth=0):
    """Add to env (a dict) what is known when i1 value v is truth; returns False when contradictory."""
    if isinstance(v, dict):
        c = cint(v)
        return c is None or bool(c) == truth
    if v in track:
        env[v] = -1 if truth else 0
    i = fn.inst.get(v)
    if i is None or depth > 6:
        return True
    if i.op == "icmp" and i.pred in ("eq", "ne"):
        a, b = i.d["ops"]
        if isinstance(a, dict) and isinstance(b, int):
            a, b = b, a
        c = cint(b)
        ai = fn.inst.get(a) if isinstance(a, int) else None
        if ai is not None and c == 0 and ai.op in ("zext", "sext", "freeze"):
            src = ai.d["ops"][0]
            si = fn.inst.get(src) if isinstance(src, int) else None
            if si is not None and si.ty == "i1":
                return learn(fn, env, src, truth == (i.pred == "ne"), track, depth + 1)
        if isinstance(a, int) and c is not None and a in track:
            if (i.pred == "eq") == truth:
                env[a] = c
            elif c == 0:
                env[a] = NZ
    elif i.op == "xor" and i.ty == "i1" and cint(i.d["ops"][1]) == -1:
        return learn(fn, env, i.d["ops"][0], not truth, track, depth + 1)
    elif i.op == "and" and i.ty == "i1" and truth:
        return learn(fn, env, i.d["ops"][0], True, track, depth + 1) and learn(fn, env, i.d["ops"][1], True, track, depth + 1)
    elif i.op == "or" and i.ty == "i1" and not truth:
        return learn(fn, env, i.d["ops"][0], False, track, depth + 1) and learn(fn, env, i.d["ops"][1], False, track, depth + 1)
    elif i.op == "select" and i.ty == "i1":
        c, a, b = i.d["ops"]
        if truth and cint(b) == 0:      # c && a
            return learn(fn, env, c, True, track, depth + 1) and learn(fn, env, a, True, track, depth + 1)
        if not truth and cint(a) == -1:  # !(c || b)
            return learn(fn, env, c, False, track, depth + 1) and learn(fn, env, b, False, track, depth + 1)
        if truth and cint(a) == 0:      # !c && b
            return learn(fn, env, c, False, track, depth + 1) and learn(fn, env, b, True, track, depth + 1)
        if not truth and cint(b) == -1:  # !(!c || a)
            return learn(fn, env, c, True, track, depth + 1) and learn(fn, env, a, False, track, depth + 1)
    return True


class Explore:
    """Explore all paths of fn, merging states that agree on (block, env, fact).

    step(ins, fact, env) -> list of (kind, fact, assume) with kind 'n'/'x' and assume a dict of
    value-id -> int/NZ learned at this instruction (or None)."""

    def __init__(self, fn, init, step, limit=150000, start_block=0, extra_track=()):
        self.fn = fn
        self.parent = {}
        self.n_states = 0
        self.n_steps = 0
        self._relevance(extra_track)
        rpo = fn.rpo
        work = []
        queued = set()
        table = {}      # (block, fact) -> env, joined (property simulation: one env per fact)
        rets, excs = {}, {}

        def join(a, b):
            r = {}
            for k, v in a.items():
                if k in b:
                    w = b[k]
                    if v == w:
                        r[k] = v
                    elif v not in (0, None) and w not in (0, None):
                        r[k] = NZ
            return r

        def push(b, env, fact, par):
            live = self.live[b]
            e = {k: v for k, v in env.items() if (live >> self.bit[k]) & 1}
            k = (b, fact)
            if k in table:
                j = join(table[k], e)
                if j == table[k]:
                    return
                table[k] = j
            else:
                table[k] = e
                self.parent[k] = par
            if k not in queued:
                queued.add(k)
                self._seq = getattr(self, "_seq", 0) + 1
                heapq.heappush(work, (rpo[b], self._seq, k))
            self.n_steps += 1
            if len(table) > limit or self.n_steps > 20 * limit:
                raise OverflowError("too many states in " + fn.dem)

        def done(tab, ins, f, env, k):
            kk = (ins.id, f)
            if kk in tab:
                tab[kk] = (ins, f, join(tab[kk][2], env), k)
            else:
                tab[kk] = (ins, f, dict(env), k)
        push(start_block, {}, init, None)
        while work:
            k = heapq.heappop(work)[2]
            queued.discard(k)
            b, fact0 = k
            e = table[k]
            cur = [(fact0, dict(e))]
            for ins in fn.blocks[b]:
                op = ins.op
                if op == "phi":
                    continue
                if op == "ret":
                    for f, env in cur:
                        done(rets, ins, f, env, k)
                    break
                if op == "resume":
                    for f, env in cur:
                        done(excs, ins, f, env, k)
                    break
                if op == "unreachable":
                    break
                if op in ("br", "switch"):
                    for f, env in cur:
                        self._branch(ins, f, env, k, push)
                    break
                nxt = []
                inv = op == "invoke"
                for f, env in cur:
                    for kind, g, asm in step(ins, f, env):
                        env2 = env
                        if ins.id in self.track:
                            env2 = {a: c for a, c in env.items() if a != ins.id}
                        if asm:
                            env2 = dict(env2)
                            for a, c in asm.items():
                                if a in self.track:
                                    env2[a] = c
                        if kind == "n":
                            if inv:
                                self._edge(b, ins.succ[0], env2, g, k, push)
                            else:
                                nxt.append((g, env2))
                        elif inv:
                            self._edge(b, ins.succ[1], env2, g, k, push)
                        else:
                            done(excs, ins, g, env2, k)
                if inv:
                    break
                uniq = {}
                for f, env in nxt:
                    uniq.setdefault((f, frozenset(env.items())), (f, env))
                cur = list(uniq.values())
                if not cur:
                    break
        self.n_states = len(table)
        self.rets = list(rets.values())
        self.excs = list(excs.values())

    def _relevance(self, extra):
        fn = self.fn
        retset = set()
        need = [set() for _ in fn.blocks]   # ids deciding branches per block
        for b, l in enumerate(fn.blocks):
            t = l[-1]
            roots = []
            if t.op in ("br", "switch") and t.cond is not None:
                roots.append(t.cond)
            elif t.op == "ret" and t.d.get("ops"):
                roots.append(t.d["ops"][0])
                retset.update(x for x in roots if isinstance(x, int))
            st = [r for r in roots if isinstance(r, int)]
            s = need[b]
            while st:
                x = st.pop()
                if x in s:
                    continue
                s.add(x)
                i = fn.inst.get(x)
                if i is None:
                    continue
                if i.op in ("icmp", "zext", "sext", "trunc", "and", "or", "xor", "add", "sub", "select", "freeze", "bitcast"):
                    st += [o for o in i.d["ops"] if isinstance(o, int)]
                elif i.op == "phi":
                    st += [o[0] for o in i.d["in"] if isinstance(o[0], int)]
        cnt = defaultdict(int)
        for s in need:
            for x in s:
                cnt[x] += 1
        self.track = set(extra)
        for x, c in cnt.items():
            i = fn.inst.get(x)
            if i is None:
                if c > 1:
                    self.track.add(x)
            elif i.op == "phi":
                self.track.add(x)
            elif i.is_call:
                self.track.add(x)
            elif c > 1 and i.op in ("icmp", "load", "select", "and", "or", "xor", "trunc", "extractvalue"):
                self.track.add(x)
        self.bit = {x: n for n, x in enumerate(sorted(self.track))}
        use = [0] * len(fn.blocks)
        for b, s in enumerate(need):
            m = 0
            for x in s:
                if x in self.bit:
                    m |= 1 << self.bit[x]
            use[b] = m
        for x in extra:
            for b in range(len(use)):
                use[b] |= 1 << self.bit[x]
        # backward closure: relevant at b or in any block reachable from b
        live = list(use)
        changed = True
        while changed:
            changed = False
            for b in range(len(live) - 1, -1, -1):
                m = live[b]
                for s in fn.succ[b]:
                    m |= live[s]
                if m != live[b]:
                    live[b] = m
                    changed = True
        self.live = live

    def _edge(self, b, t, env, fact, par, push):
        fn = self.fn
        new = None
        for i in fn.blocks[t]:
            if i.op != "phi":
                break
            if i.id not in self.track:
                continue
            val = None
            for v, p in i.d["in"]:
                if p == b:
                    val = evalv(fn, env, v)
                    break
            if new is None:
                new = dict(env)
            if val is None:
                new.pop(i.id, None)
            else:
                new[i.id] = val
        if self.on_phis is not None:
            fact = self.on_phis(b, t, fact)
        push(t, new if new is not None else env, fact, par)

    on_phis = None

    def _branch(self, ins, fact, env, k, push):
        fn = self.fn
        b = ins.block
        if ins.op == "br" and ins.cond is None:
            self._edge(b, ins.succ[0], env, fact, k, push)
            return
        c = evalv(fn, env, ins.cond)
        if ins.op == "br":
            for n, t in enumerate(ins.succ):
                truth = n == 0
                if c is not None and (c != 0) != truth:
                    continue
                e2 = dict(env)
                if not learn(fn, e2, ins.cond, truth, self.track):
                    continue
                f2 = self.on_edge(ins, truth, fact, e2)
                if f2 is None:
                    continue
                self._edge(b, t, e2, f2, k, push)
        else:
            cases = ins.cases
            if isinstance(c, int):
                t = ins.succ[0]
                for v, s in zip(cases, ins.succ[1:]):
                    if v == c:
                        t = s
                f2 = self.on_edge(ins, ("case", t), fact, env)
                if f2 is not None:
                    self._edge(b, t, env, f2, k, push)
                return
            for n, t in enumerate(ins.succ):
                e2 = env
                if n > 0 and c == NZ and cases[n - 1] == 0:
                    continue
                if n > 0 and isinstance(ins.cond, int) and ins.cond in self.track:
                    e2 = dict(env)
                    e2[ins.cond] = cases[n - 1]
                f2 = self.on_edge(ins, ("case", t), fact, e2)
                if f2 is not None:
                    self._edge(b, t, e2, f2, k, push)

    def on_edge(self, ins, truth, fact, env):
        return fact

    def trace(self, k, n=14):
        r = []
        while k is not None and len(r) < 2000:
            for i in self.fn.blocks[k[0]]:
                if i.d.get("loc"):
                    r.append(i.where(self.fn.mod.repo))
                    break
            k = self.parent.get(k)
        out = []
        for x in r[::-1]:
            if not out or out[-1] != x:
                out.append(x)
        return out[-n:]


def outcomes(ins, fact):
    """What an instruction the rule does not interpret can do to control."""
    if ins.op in ("call", "invoke"):
        thr = ins.may_throw
        if ins.noreturn:
            return [("x", fact, None)] if thr else []
        return [("n", fact, None), ("x", fact, None)] if thr else [("n", fact, None)]
    return [("n", fact, None)]
