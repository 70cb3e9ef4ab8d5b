"""Known findings: /verif/known_findings.txt, read-only at run time.

  known: property=<id> rule=<rule> construct=<text> :: <what fails>
  fixed: property=<id> <commit> <what failed>          (suppresses nothing)
"""
import os
import re
from . import build


def load(pid):
    p = os.path.join(build.VERIF, "known_findings.txt")
    out = []
    if not os.path.exists(p):
        return out
    for line in open(p):
        m = re.match(r"known: property=(\S+) rule=(\S+) construct=(.*?) :: (.*)$", line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def match(known, v):
    for rule, construct, text in known:
        if v["rule"] == rule and v["construct"] == construct:
            return text
    return None
