"""What a rule gets and returns."""
import re
from . import build, ir


class Result:
    def __init__(self):
        self.violations = []    # dict(rule, where, construct, text)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.rules = []         # text of the rules applied
        self.minimums = {}      # count name -> least value confirmed by hand

    def violate(self, rule, where, construct, text, **kw):
        key = (rule, where, construct)
        for v in self.violations:
            if (v["rule"], v["where"], v["construct"]) == key:
                return
        d = dict(rule=rule, where=where, construct=construct, text=text)
        d.update(kw)
        self.violations.append(d)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, least):
        self.minimums[name] = least

    def sample(self, s, cap=40):
        if len(self.samples) < cap and s not in self.samples:
            self.samples.append(s)


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        build.build_tools()
        self.work = build.Work()
        self.repo = self.work.repo
        self._lib = None
        self._ast = None
        self._classes = None

    def lib_bc(self):
        return self.work.compile(self.work.lib_sources())

    def witness_bc(self, *names, ndebug=True, extra=()):
        return self.work.compile([build.VERIF + "/witness/" + n for n in names], ndebug=ndebug, extra=extra)

    def module(self, bcs, **cfg):
        return ir.Module(self.work.export(bcs, cfg), self.repo + "/")

    def close(self):
        self.work.close()

    def ast(self):
        """facts of the type-checked program: every library unit plus the all-templates witness, debug assertions on"""
        if self._ast is None:
            self._ast = self.work.ast(self.work.lib_sources() + [build.VERIF + "/witness/w_all.cpp"])
        return self._ast

    def classes(self):
        """class name (spaces removed) -> [facts]"""
        if self._classes is None:
            d = Classes()
            for u in self.ast():
                for c in u["classes"]:
                    c["file"] = c["file"].replace(self.repo + "/", "")
                    k = norm(c["name"])
                    if k not in d:
                        d[k] = [c]
            self._classes = d
        return self._classes


class Classes(dict):
    def get(self, k, default=None):
        return dict.get(self, norm(k), default)


def norm(n):
    return re.sub(r"\s+", "", n.replace("std::__cxx11::", "std::")).replace("(anonymousnamespace)", "(anonymous)")


STD_PASSES = "function(lower-expect,sroa,early-cse<memssa>,simplifycfg,sroa,early-cse<memssa>,simplifycfg,adce)"
PRE_PASSES = "inferattrs,cgscc(function-attrs)"
ASSERT_OPAQUE = ["^AssertFatal", "^AssertException", "^AssertBoost"]
SMALL_STD = ["^std::vector<.*>::(operator\\[\\]|size|begin|end|empty|front|back)\\(",
             "^__gnu_cxx::__normal_iterator<", "^boost::noncopyable_::"]


def short(dem, n=90):
    d = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>", "std::string", dem)
    return d if len(d) <= n else d[:n - 3] + "..."
