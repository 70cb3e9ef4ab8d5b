"""Compile the current sources of the repository and the witness units to bitcode,
and export their control-flow graphs through lirx.  Nothing is cached between runs."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LINTEL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"

# Sources that the project's own build does not compile on this platform
# (src/CMakeLists.txt does not list them, and they do not compile here).
# drawRandomLogNormal.cpp is a stand-alone program (Numerical Recipes code), not part of the library.
NOT_BUILT = {"StringId.cpp", "stdio_64.cpp", "drawRandomLogNormal.cpp"}


class AnalysisBroken(Exception):
    """The analysis lost its footing (source does not compile, an anchor vanished...)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tools(force=False):
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run([LLVM + "/bin/llvm-config", "--cxxflags"], stdout=subprocess.PIPE, text=True,
                           check=True).stdout.split()
    flags = [f for f in flags if f.startswith("-I") or f.startswith("-D")]
    jobs = []
    for name, libs in (("lirx", ["-lLLVM-18"]), ("astx", ["-l:libclang-cpp.so.18.1", "-lLLVM-18"])):
        src = os.path.join(VERIF, "tools", name + ".cpp")
        exe = os.path.join(BUILD, name)
        if not os.path.exists(src):
            continue
        if not force and os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
            continue
        tmp = exe + ".%d.tmp" % os.getpid()
        jobs.append((["clang++-18", "-O1", "-std=gnu++17", "-fno-rtti", "-w"] + flags +
                     [src, "-o", tmp, "-L" + LLVM + "/lib"] + libs, tmp, exe))
    def run(j):
        r = sh(j[0])
        if r.returncode:
            raise AnalysisBroken("building the analysis tool failed:\n" + r.stdout[-3000:])
        os.rename(j[1], j[2])
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(run, jobs))


class Work:
    """A scratch directory with the generated header and the compiled units."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = tempfile.mkdtemp(prefix="lintel-sa.")
        self.gen = os.path.join(self.dir, "gen")
        os.makedirs(os.path.join(self.gen, "Lintel"))
        with open(os.path.join(self.repo, "include/Lintel/PThread.hpp.in")) as f:
            t = f.read()
        t = t.replace("@HAS_PTHREAD_ISLOCKED@", "1").replace("@PTHREAD_ISLOCKED_EXPR@", "m.__data.__lock != 0")
        self.pthread_hpp = os.path.join(self.gen, "Lintel/PThread.hpp")
        with open(self.pthread_hpp, "w") as f:
            f.write('#line 1 "%s/include/Lintel/PThread.hpp.in"\n' % self.repo)
            f.write(t)
        self.bc = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- compilation ----------------------------------------------------------
    def flags(self, ndebug=True):
        f = ["-std=gnu++17", "-DSYS_POSIX", "-Dpthread_mutexattr_setkind_np=pthread_mutexattr_settype",
             "-DLIBLINTEL_VERSION=\"0.0\"", "-I" + os.path.join(self.repo, "include"), "-I" + self.gen,
             "-I/usr/include/libxml2", "-I" + os.path.join(VERIF, "witness"), "-Wno-register", "-w", "-pthread"]
        if ndebug:
            f.append("-DNDEBUG")
        return f

    def lib_sources(self):
        r = []
        for p in sorted(glob.glob(os.path.join(self.repo, "src/*.cpp")) +
                        glob.glob(os.path.join(self.repo, "src/unstable/*.cpp"))):
            if os.path.basename(p) not in NOT_BUILT:
                r.append(p)
        return r

    def compile(self, sources, ndebug=True, extra=()):
        outs = []
        jobs = []
        for s in sources:
            key = (s, ndebug, tuple(extra))
            if key in self.bc:
                outs.append(self.bc[key])
                continue
            o = os.path.join(self.dir, "%03d_%s.bc" % (len(self.bc), os.path.basename(s)))
            self.bc[key] = o
            outs.append(o)
            jobs.append((s, o))
        def run(j):
            cmd = ["clang++-18"] + self.flags(ndebug) + list(extra) + \
                  ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", j[0], "-o", j[1]]
            r = sh(cmd)
            return (j[0], r)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for s, r in ex.map(run, jobs):
                if r.returncode:
                    raise AnalysisBroken("%s does not compile:\n%s" % (s, r.stdout[-3000:]))
        return outs

    def export(self, bcs, cfg):
        cfg = dict(cfg)
        cfg.setdefault("repo", [self.repo + "/", VERIF + "/witness/", self.gen + "/"])
        n = len(os.listdir(self.dir))
        cp = os.path.join(self.dir, "cfg%d.json" % n)
        op = os.path.join(self.dir, "out%d.json" % n)
        with open(cp, "w") as f:
            json.dump(cfg, f)
        r = sh([os.path.join(BUILD, "lirx"), "--config", cp, op] + bcs)
        if r.returncode:
            raise AnalysisBroken("lirx failed: " + r.stdout[-3000:])
        with open(op) as f:
            d = json.load(f)
        os.unlink(op)
        return d

    def ast(self, sources, ndebug=False, extra=()):
        """Run astx over the sources; returns the list of per-unit JSON facts."""
        def run(s):
            o = os.path.join(self.dir, "ast_%s_%d.json" % (os.path.basename(s), ndebug))
            cmd = [os.path.join(BUILD, "astx"), o, s, "--"] + self.flags(ndebug) + list(extra)
            r = sh(cmd)
            if r.returncode:
                raise AnalysisBroken("astx failed on %s:\n%s" % (s, r.stdout[-3000:]))
            with open(o) as f:
                return json.load(f)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(run, sources))
