#!/usr/bin/env python3
"""Makes seeded/<id>/ from a description and confirms it in scratch copies of /repo (a maintenance tool; no check uses it).
usage: seedkit.py FILE.py [ID...]     FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=C++ text, needs, breaks, [c=1])]"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = V + "/tools/seedkit"


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def make(s):
    d = V + "/seeded/" + s["id"]
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        sh("cp -a /repo %s/repo" % t)
        R = t + "/repo"
        for f, a, b in s["edits"]:
            x = open(R + "/" + f).read()
            if x.count(a) != 1: return s["id"], "edit matches %d times in %s" % (x.count(a), f)
            open(R + "/" + f, "w").write(x.replace(a, b))
        diff = sh("git -C %s diff" % R).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        kind = s.get("kind", "lib")
        open(d + ("/demo.c" if kind == "c" else "/demo.cpp"), "w").write(s["demo"].lstrip())
        if kind in ("lib", "tsan", "v1"):
            shutil.copytree(V + "/shim", d + "/shim")
            shutil.copy(KIT + "/kit.hpp", d)
        shutil.copy(KIT + "/demo-%s.sh" % kind, d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)
        # the patched tree: demo has to fail, the tests have to pass
        r0 = sh("cd /repo && bash %s/demo.sh" % d, timeout=300)
        r1 = sh("cd %s && bash %s/demo.sh" % (R, d), timeout=300)
        if r0.returncode: return s["id"], "demo fails on the unchanged tree:\n" + r0.stdout[:500]
        if not r1.returncode: return s["id"], "demo passes with the patch"
        if "error:" in r1.stdout: return s["id"], "patched tree does not compile?\n" + r1.stdout[:500]
        r = sh("bash %s/tests.sh %s %s" % (KIT, R, t), timeout=900)
        if r.returncode: return s["id"], "tests fail with the patch:\n" + r.stdout[-600:]
        return s["id"], "ok (demo says: %s)" % r1.stdout.strip()[-150:].replace("\n", " | ")
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    with cf.ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(make, [s for s in g["SEEDS"] if not want or s["id"] in want]):
            print(i, m, flush=True)
            if not m.startswith("ok"): shutil.rmtree(V + "/seeded/" + i, ignore_errors=True)
