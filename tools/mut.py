#!/usr/bin/env python3
"""Development aid: apply textual changes to scratch copies of the sources and report what the checks say.
mut.py FILE: a python file defining MUTS = [(property, name, file, old, new, expect), ...]; expect 'V' (violation) or 'Q' (quiet)."""
import os, shutil, subprocess, sys, tempfile, concurrent.futures
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def one(m):
    prop, name, file, old, new, expect = m
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("tests"))
        shutil.copytree("/repo/include", d + "/include")
        edits = [(file, old, new)] if isinstance(old, str) else list(zip([file] * len(old) if isinstance(file, str) else file, old, new))
        for f, o, n in edits:
            p = os.path.join(d, f); s = open(p).read()
            if o not in s: return (m, "NO MATCH in " + f)
            open(p, "w").write(s.replace(o, n, 1))
        env = dict(os.environ, LINTEL_REPO=d, LINTEL_EVIDENCE=d)
        r = subprocess.run([sys.executable, "/verif/check.py", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        return (m, (r.returncode, r.stdout[-1500:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
bad = 0
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for m, res in ex.map(one, [m for m in ns["MUTS"] if not only or m[1] in only or m[0] in only]):
        if isinstance(res, str):
            print("??", m[0], m[1], res); bad += 1; continue
        rc, out = res
        ok = (rc == 1) == (m[5] == "V") and rc in (0, 1)
        bad += not ok
        lines = [l for l in out.splitlines() if l.startswith("  ")]
        print("ok " if ok else "BAD", m[0], m[1], "rc", rc, (lines[0][:170] if lines else "") if ok else out[-900:])
print("unexpected:", bad)
