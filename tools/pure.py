"""Checks of functions without lasting state: TLC computes what has to be observed, a driver observes it."""
import concurrent.futures as cf
import glob, json, os, random, shutil, subprocess, time
import common
from common import VERIF

ENV = {"ASAN_OPTIONS": "detect_leaks=1:exitcode=66:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66"}
SAN = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-I" + common.CODE, "-I" + VERIF + "/shim"]


def diff(want, got, path=""):
    """first difference between two JSON values, None if there is none"""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got: return "%s.%s is missing" % (path, k)
            d = diff(want[k], got[k], path + "." + k)
            if d: return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got): return "%s: %d elements are expected, there are %d: %s / %s" % (path, len(want), len(got), str(want)[:300], str(got)[:300])
        for i, (a, b) in enumerate(zip(want, got)):
            d = diff(a, b, "%s[%d]" % (path, i))
            if d: return d
        return None
    return None if want == got or want == "*" else "%s: %s is expected, observed is %s" % (path, json.dumps(want)[:300], json.dumps(got)[:300])


def tlc_files(module, ctx, cases, env=None, timeout=600):
    """runs spec/<module>, which writes one JSON file per case into a directory; {name: contents}"""
    out = os.path.join(ctx.work, "out-" + module)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    f = os.path.join(ctx.work, "cases-" + module + ".json")
    json.dump(cases, open(f, "w"))
    r = common.tlc(module, module + ".cfg", ctx.work, env={"VF_CASES": f, "VF_OUT": out, **(env or {})}, timeout=timeout)
    if not r.ok: raise RuntimeError("TLC: " + (r.text[r.text.find("Error:"):][:2500] if "Error:" in r.text else r.text[-5000:]))
    res = {os.path.basename(x)[:-5]: json.load(open(x)) for x in glob.glob(out + "/*.json")}
    shutil.rmtree(out)
    return res, r


def run_lines(exe, inputs, first=0, timeout=200):
    """feeds the inputs (strings, one per case) to the driver; returns list of parsed lines (first + one per case) and the text of a crash"""
    env = dict(os.environ); env.update(ENV)
    try:
        p = subprocess.run([exe], input="\n".join(inputs) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=timeout)
        so, se, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        so, se, rc = (e.stdout or b"").decode(errors="replace"), "does not come to an end", -99
    if rc == 3: raise RuntimeError("driver: " + se[-2000:])
    lines = []
    for l in so.split("\n"):
        if not l.strip(): continue
        try: lines.append(json.loads(l))
        except ValueError: break
    crash = None
    if rc or len(lines) < first + len(inputs):
        i = se.find("ERROR: ")
        if i < 0: i = se.find("WARNING: ThreadSanitizer")
        crash = (se[i:i + 1500] if i >= 0 else se[-1500:]) or "exit code %d after %d of %d cases" % (rc, len(lines), first + len(inputs))
    return lines, crash


def chunks(l, n):
    k = max(1, (len(l) + n - 1) // n)
    return [l[i:i + k] for i in range(0, len(l), k)]


def run_parallel(exe, inputs, first=0, jobs=common.JOBS):
    """[(case number, parsed line or None, crash text)] ; the first lines are returned separately"""
    parts = chunks(list(enumerate(inputs)), jobs)
    res, heads = {}, []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for part, (lines, crash) in zip(parts, ex.map(lambda p: run_lines(exe, [s for _, s in p], first), parts)):
            heads = heads or lines[:first]
            body = lines[first:]
            for (n, _), l in zip(part, body): res[n] = (l, None)
            if crash: res[part[min(len(body), len(part) - 1)][0]] = (None, crash)
    return res, heads
