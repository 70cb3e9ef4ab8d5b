"""C04: a failing system or thread call is never taken for success (constant propagation of every error value)."""
import re
from lib.ctx import *
from lib.ir import *

ERRNOS = [22, 11, 16, 35, 1, 12, 110, 4, 3, 38, 75, 95, 13, 9999]
PTHREAD_SKIP = {"pthread_self", "pthread_equal", "pthread_getspecific", "pthread_exit", "pthread_testcancel",
                "pthread_attr_destroy", "pthread_mutexattr_destroy", "pthread_condattr_destroy"}
MINUS1 = {"open", "open64", "close", "dup", "dup2", "dup3", "pipe", "pipe2", "lseek", "lseek64", "read", "write", "pread", "pwrite", "readv", "writev",
          "waitpid", "wait", "wait4", "fork", "vfork", "kill", "stat", "lstat", "fstat", "stat64", "fstat64", "gethostname", "fseek", "fseeko", "closedir",
          "clock_gettime", "unlink", "rename", "mkdir", "rmdir", "fsync", "fdatasync", "ftruncate", "truncate", "chdir", "chmod", "link", "symlink",
          "readlink", "socket", "bind", "listen", "accept", "connect", "send", "recv", "poll", "fcntl", "ioctl", "sigprocmask", "sigaction",
          "setenv", "putenv", "fclose", "mprotect", "munmap", "vsnprintf", "nanosleep", "gettimeofday", "select", "remove", "access", "execv", "execvp",
          "sched_setaffinity", "sched_getaffinity", "flock", "lockf", "getrusage", "setrlimit", "getrlimit", "pclose", "fputs", "fputc"}
NULLF = {"fopen", "fopen64", "opendir", "popen", "fdopen", "freopen", "malloc", "calloc", "realloc", "strdup", "getcwd", "dlopen", "dlsym", "tmpfile",
         "readdir", "fgets", "strerror_r", "xmlReadFile", "xmlParseFile", "xmlReadMemory", "xmlGetProp"}
# calls that report an error by a count lower than asked for
COUNT = {"__isoc99_fscanf": (-1, 0, 1), "__isoc23_fscanf": (-1, 0, 1), "fscanf": (-1, 0, 1), "__isoc23_sscanf": (-1, 0), "__isoc99_sscanf": (-1, 0), "sscanf": (-1, 0),
         "fread": (0,), "fwrite": (0,)}
NONZERO = {"setvbuf", "getaddrinfo", "getnameinfo"}
GOOD = {"inet_addr": (-1,)}
# Calls whose failure is impossible or immaterial for the arguments the library gives them; the property names them.
IMMATERIAL = {"gettimeofday": "valid pointer and no time zone: cannot fail",
              "select": "used as a sleep without descriptors", "nanosleep": "a sleep cut short",
              "vsnprintf": "formats into memory", "pclose": "exit status of the helper command",
              "fputs": "diagnostic output", "fputc": "diagnostic output"}
STREAM_CTOR = re.compile(r"^std::basic_[io]?fstream<char, .*>::basic_[io]?fstream\(.*(char const\*|string)|^std::basic_[io]?fstream<.*>::open\(")
STREAM_TEST = re.compile(r"^std::(basic_ios<char, .*>::(good|fail|bad|operator!|operator bool|rdstate|eof)\(\)|basic_[io]?fstream<.*>::is_open\(\))")


def failing(ins):
    n = ins.d.get("fn") or ""
    if n.startswith("pthread_") and n not in PTHREAD_SKIP:
        return ERRNOS, [0]
    if n in MINUS1 and n not in IMMATERIAL:
        return [-1], [0, 1, 5, 4096]
    if n in NULLF:
        return [0], [NZ]
    if n in COUNT:
        return list(COUNT[n]), [7, 1 << 20] if "scanf" in n else [NZ]
    if n in NONZERO:
        return [-2, -1, 1, 4], [0]
    if n in GOOD:
        return list(GOOD[n]), [0, 1 << 24]
    return None


class Run(Explore):
    def __init__(self, fn, site, value, pins=None):
        self.site, self.value = site, value
        self.pins = pins or {}
        self.taken = {}
        self.pins = dict(self.pins)
        if site.ty != "void" and value is not None:
            self.pins.update(requested(fn, site, value))
        Explore.__init__(self, fn, 0, self.step, extra_track=([site.id] if site.ty != "void" else []) + list(self.pins))

    def step(self, ins, fact, env):
        if ins.id == self.site.id:
            if fact == 0:
                out = [("n", 1, {ins.id: self.value}), ("n", 0, None)]
            else:
                out = [("n", 2, None)]      # asked again
            return out
        if fact >= 1 and ins.id in self.pins:
            return [("n", fact, {ins.id: self.pins[ins.id]})]
        return outcomes(ins, fact)

    def on_edge(self, ins, truth, fact, env):
        if fact == 1:
            self.taken.setdefault(ins.id, set()).add(truth)
        return fact


def requested(fn, site, value):
    """comparisons of the result with the amount asked for: a failing call delivered less, a succeeding one all of it"""
    if (site.d.get("fn") or "") not in ("read", "write", "pread", "pwrite", "fread", "fwrite", "send", "recv"):
        return {}
    bad = value in (-1, 0)
    out = {}
    for i in fn.insts():
        if i.op != "icmp":
            continue
        a, b = i.d["ops"]
        da, db = dep(fn, a, site.id), dep(fn, b, site.id)
        if da == db or not isinstance(a, int) or not isinstance(b, int):
            continue
        pr = i.pred
        if db:
            pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pr, pr)
        less = {"eq": 0, "ne": -1, "slt": -1, "ult": -1, "sle": -1, "ule": -1, "sgt": 0, "ugt": 0, "sge": 0, "uge": 0}
        same = {"eq": -1, "ne": 0, "slt": 0, "ult": 0, "sle": -1, "ule": -1, "sgt": 0, "ugt": 0, "sge": -1, "uge": -1}
        if value == -1 and pr.startswith("u"):
            out[i.id] = {"ult": 0, "ule": 0, "ugt": -1, "uge": -1}[pr]    # -1 read as unsigned is huge
        elif pr in less:
            out[i.id] = (less if bad else same)[pr]
    return out


def dep(fn, v, site, seen=None, plain=False):
    """does value v depend on the call's result through data only? (plain: handed on or compared, not computed with)"""
    seen = seen if seen is not None else set()
    if not isinstance(v, int) or v in seen:
        return False
    seen.add(v)
    if v == site:
        return True
    i = fn.inst.get(v)
    if i is None or i.is_call or i.op == "load" or (plain and i.op in ("add", "sub", "mul", "shl", "getelementptr")):
        return False
    return any(dep(fn, o, site, seen, plain) for o in operands(i))


def run(ctx):
    r = Result()
    r.rules = ["for every call of a fallible OS interface and every error value it can return, constant propagation through the function: no normal return of a void "
               "function, no return of the value that success returns, and for other results a branch that separates failure from success",
               "an opened file stream's state is tested, and the failed state is separated from success before a normal return",
               "wrappers that hand the raw error on are treated as fallible calls in their callers"]
    bcs = ctx.lib_bc() + ctx.witness_bc("w_all.cpp", extra=("-femit-all-decls",))
    m = ctx.module(bcs, opaque=["."], export_repo=True, prepasses=PRE_PASSES, passes=STD_PASSES, globals=True)
    analyse(ctx, r, m)
    r.need("call_sites", 25)
    r.need("error_values_propagated", 150)
    r.need("stream_sites", 1)
    return r


def analyse(ctx, r, m):
    repo = m.repo
    wrappers = {}
    todo = [f for f in m.fns if not f.relfile.startswith("/verif/") and f.file.startswith(repo) and "drawRandomLogNormal" not in f.relfile]
    done = set()
    names = set()
    undecided = []
    for rnd in range(3):
        new = {}
        for f in todo:
            for i in f.calls():
                if (f.name, i.id) in done:
                    continue
                fl = failing(i)
                wr = False
                if fl is None and (i.d.get("fn") or "") in wrappers:
                    fl = wrappers[i.d["fn"]]
                    wr = True
                if fl is None:
                    continue
                done.add((f.name, i.id))
                names.add(i.d["fn"])
                r.count("call_sites")
                where = i.where(repo)
                if i.d["fn"] == "fclose" and read_only(f, i):
                    r.count("read_only_closes")
                    continue
                try:
                    judge(r, m, f, i, fl, where, new)
                except OverflowError:
                    undecided.append("%s in %s" % (i.d["fn"], f.dem))
            if rnd == 0:
                streams(r, m, f)
        wrappers = {k: v for k, v in new.items()}
        if not wrappers:
            break
    r.counts["interfaces"] = len(names)
    for n in sorted(names):
        r.sample(n)
    if undecided and not r.violations:
        raise AssertionError("not decided: %s" % undecided)


def read_only(f, close):
    """closing a stream this function opened for reading loses nothing when it fails"""
    for p in f.roots(close.args[0]):
        if p[0][0] == "call":
            o = f.inst[p[0][1]]
            if o.d.get("fn") in ("fopen", "fopen64") and isinstance(o.args[1], dict):
                g = f.mod.globals.get(o.args[1].get("n") or "") or {}
                if (g.get("str") or "").rstrip("\0") in ("r", "rb"):
                    continue
        return False
    return True


def judge(r, m, f, site, fl, where, new, pinsF=None, pinsS=None):
    fails, succ = fl
    name = site.d["fn"]
    void = f.params is not None and all(not b[-1].d.get("ops") for b in f.blocks if b and b[-1].op == "ret")
    sret = any(p.get("sret") for p in f.params)
    S = [Run(f, site, v, pinsS) for v in succ]
    staken = {}
    srv = set()
    for e in S:
        for k, t in e.taken.items():
            staken.setdefault(k, set()).update(t)
        for i, fact, env, k in e.rets:
            if fact >= 1 and i.d.get("ops"):
                srv.add(evalv(f, env, i.d["ops"][0]))
    for v in fails:
        e = Run(f, site, v, pinsF)
        r.count("error_values_propagated")
        rets = [x for x in e.rets if x[1] >= 1]
        if not rets:
            continue
        checked = any(t and not (t & staken.get(k, set())) for k, t in e.taken.items())
        for i, fact, env, k in rets:
            path = " <- ".join(e.trace(k))
            if fact == 2 and checked:
                continue        # noticed, and the call made again
            if void and not sret:
                r.violate("failure-ignored", where, "%s in %s" % (name, f.dem),
                          "%s returns normally although %s failed with %s (path %s)" % (short(f.dem), name, show(v), path))
                break
            if sret:
                if not checked:
                    r.violate("failure-unchecked", where, "%s in %s" % (name, f.dem),
                              "%s returns a result although no branch separates a %s that failed with %s from one that succeeded" % (short(f.dem), name, show(v)))
                break
            rv = evalv(f, env, i.d["ops"][0])
            if rv is not None and srv == {rv} and not isptr(f, i.d["ops"][0]):
                r.violate("failure-as-success", where, "%s in %s" % (name, f.dem),
                          "%s returns %s both when %s succeeds and when it failed with %s (path %s)" % (short(f.dem), show(rv), name, show(v), path))
                break
            if rv is not None and rv == v and v != 0 and (f.d.get("linkage") == 7 or f.d.get("access") == "private"):
                new.setdefault(f.name, ([], succ))[0].append(v)
            if not checked and (fact == 2 or not dep(f, i.d["ops"][0], site.id, plain=True)):
                r.violate("failure-unchecked", where, "%s in %s" % (name, f.dem),
                          "%s returns normally although no branch separates a %s that failed with %s from one that succeeded" % (short(f.dem), name, show(v)))
                break


def isptr(f, v):
    i = f.inst.get(v) if isinstance(v, int) else None
    return i is not None and i.ty == "ptr"


def show(v):
    return {0: "0/NULL", NZ: "non-zero"}.get(v, str(v))


def streams(r, m, f):
    tests = [i for i in f.calls() if STREAM_TEST.match(i.d.get("dem") or "")]
    for i in f.calls():
        d = i.d.get("dem") or ""
        if not STREAM_CTOR.match(d):
            continue
        r.count("stream_sites")
        bad, good = {}, {}
        for t in tests:
            td = t.d["dem"]
            if re.search(r"::(good|is_open|operator bool)\(", td):
                bad[t.id], good[t.id] = 0, -1
            elif re.search(r"::eof\(", td):
                continue
            elif "rdstate" in td:
                bad[t.id], good[t.id] = 4, 0
            else:
                bad[t.id], good[t.id] = -1, 0
        F = Run(f, i, None, bad)
        S = Run(f, i, None, good)
        rets = [x for x in F.rets if x[1] >= 1]
        r.count("error_values_propagated")
        if not rets:
            continue
        checked = any(t and not (t & S.taken.get(k, set())) for k, t in F.taken.items())
        void = all(not b[-1].d.get("ops") for b in f.blocks if b and b[-1].op == "ret") and not any(p.get("sret") for p in f.params)
        if void or not checked:
            r.violate("stream-unchecked", i.where(m.repo), f.dem, "%s returns normally although the file it opens here could not be opened" % short(f.dem))
