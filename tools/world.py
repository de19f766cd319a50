"""Scripts -> what the specification expects (TLC) and what the library does (driver) -> differences."""
import concurrent.futures as cf
import json, os, random, shutil, subprocess, sys, time
from collections import Counter
import common, dump
from common import VERIF, BUILD, JOBS, Broken


def expect(universes, scripts, work, cfg="Exec.cfg", timeout=700):
    """executes scripts in TLC. Returns (list of step lists, TlcResult)"""
    out = os.path.join(work, "exec-out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    fu, fs = os.path.join(work, "universes.json"), os.path.join(work, "scripts.json")
    json.dump([{k: v for k, v in u.items() if k != "strs"} for u in universes], open(fu, "w"))
    json.dump(scripts, open(fs, "w"))
    r = common.tlc("Exec", cfg, work, env={"VF_UNIVERSES": fu, "VF_SCRIPTS": fs, "VF_OUT": out}, timeout=timeout)
    if not r.ok: raise RuntimeError("TLC: " + r.text[-6000:])
    res = []
    for i in range(1, len(scripts) + 1):
        f = os.path.join(out, "%d.json" % i)
        res.append(json.load(open(f)))
    shutil.rmtree(out)
    return res, r


ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66"}


def run_driver(exe, universes, numbered, work, tag, timeout=300):
    """numbered: list of (number, script). Returns {number: out}, {number: crash text}"""
    fu = os.path.join(work, "drv-universes.json")
    if tag == "0" or not os.path.exists(fu): json.dump(universes, open(fu, "w"))
    todo = list(numbered)
    outs, crashes = {}, {}
    while todo:
        fs = os.path.join(work, "drv-%s.json" % tag)
        with open(fs, "w") as f:
            for n, s in todo: f.write(json.dumps([n, s]) + "\n")
        env = dict(os.environ); env.update(ENV)
        try:
            p = subprocess.run([exe, fu, fs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
            so, se, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            so, se, rc = e.stdout or b"", b"does not come to an end", -99
        last = None
        for line in so.decode(errors="replace").split("\n"):
            if not line: continue
            try: j = json.loads(line)
            except ValueError: continue
            if "start" in j: last = j["start"]
            if "script" in j: outs[j["script"]] = j["out"]; last = None
        if rc == 0: break
        if rc == 3: raise RuntimeError("driver: " + se.decode(errors="replace")[-2000:])
        if last is None: last = todo[0][0] if todo[0][0] not in outs else None
        if last is None: raise Broken("the driver fails at its end: " + se.decode(errors="replace")[-2000:])
        t = se.decode(errors="replace")
        i = t.find("ERROR: AddressSanitizer")
        crashes[last] = (t[i:i + 1500] if i >= 0 else t[-1500:]) or "exit code %d" % rc
        k = [n for n, _ in todo].index(last)
        todo = todo[k + 1:]
        if len(crashes) > 3: break
    return outs, crashes


def bag(l): return Counter(json.dumps(x) for x in l)


LISTS = {"mn", "fn", "tn", "ixn"}


def diff(path, exp, got):
    """first difference between what the specification says and what was observed"""
    if isinstance(exp, bool): exp = int(exp)
    if isinstance(got, bool): got = int(got)
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in exp:
            if k not in got: return "%s.%s is missing" % (path, k)
            if k in LISTS:
                for i, (a, b) in enumerate(zip(exp[k], got[k])):
                    if b not in a: return "%s.%s[%d]: %s is not one of %s" % (path, k, i, b, a)
                continue
            d = diff(path + "." + k, exp[k], got[k])
            if d: return d
        return None
    if isinstance(exp, list) and isinstance(got, list):
        if len(exp) != len(got): return "%s: expected %s, got %s" % (path, json.dumps(exp), json.dumps(got))
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff("%s[%d]" % (path, i), a, b)
            if d: return d
        return None
    if exp != got: return "%s: expected %s, got %s" % (path, json.dumps(exp), json.dumps(got))
    return None


def compare(U, steps, outs):
    """U: universe; steps: expectation; outs: driver output incl. the final record. Returns None or text"""
    if len(outs) != len(steps) + 1: return "the driver made %d steps instead of %d" % (len(outs) - 1, len(steps))
    for n, (s, o) in enumerate(zip(steps, outs)):
        op = json.dumps(s["op"])
        where = "step %d %s: " % (n + 1, op)
        if o["bad"]: return where + "; ".join(o["bad"])
        if s["r"] != o["r"] and not (s["r"] == "any" and o["r"] in ("type", "domain", "err")):
            return where + "expected result %s, got %s" % (s["r"], o["r"])
        e, g = s["e"], o["e"]
        if s["b"]:
            b = [x for x in g if x[0] in ("mi", "d")]
            if bag(b) != bag(s["b"]): return where + "expected (in any order) %s, got %s" % (json.dumps(s["b"]), json.dumps(b))
            g = [x for x in g if x[0] not in ("mi", "d")]
        if e != g: return where + "expected the calls %s, got %s" % (json.dumps(e), json.dumps(g))
        d = dump.difference(U, s["op"], s["x"], o["x"]) if s["op"]["o"] == "dump" else diff("result", s["x"], o["x"])
        if d: return where + d
        d = diff("state", s["obs"], o["obs"])
        if d: return where + d
    if outs[-1]["bad"]: return "at the end: " + "; ".join(outs[-1]["bad"])
    return None


def concrete(script, steps):
    return {"u": script["u"], "nob": script["nob"], "ops": [s["op"] for s in steps]}


JUDGED = {}  # recorded layout of an object -> whether it is sound


def judge_layouts(texts, work):
    """lets TLC judge the layouts which were not seen before (spec/Layout.tla)"""
    new = [t for t in dict.fromkeys(texts) if t not in JUDGED]
    if not new: return
    out = os.path.join(work, "layout-out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    f = os.path.join(work, "layouts.json")
    with open(f, "w") as h: h.write("[" + ",".join(new) + "]")
    r = common.tlc("LayoutExec", "LayoutExec.cfg", work, env={"VF_LAYOUTS": f, "VF_OUT": out}, timeout=300)
    if not r.ok: raise RuntimeError("TLC: " + r.text[-4000:])
    unsound = {int(x.split(".")[0]) for x in os.listdir(out)}
    shutil.rmtree(out)
    for n, t in enumerate(new): JUDGED[t] = n + 1 not in unsound


def check(exe, universes, scripts, steps, work, layouts=False):
    """runs all scripts; returns list of (index, text) of the ones which deviate"""
    con = [concrete(s, t) for s, t in zip(scripts, steps)]
    json.dump(universes, open(os.path.join(work, "drv-universes.json"), "w"))
    n = len(con)
    parts = [[(i, con[i]) for i in range(k, n, JOBS)] for k in range(JOBS)]
    outs, crashes = {}, {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for a, b in ex.map(lambda k: run_driver(exe, universes, parts[k], work, str(k + 1)), range(JOBS)):
            outs.update(a); crashes.update(b)
    bads = []
    for i in range(n):
        if i in crashes: bads.append((i, "crash: " + crashes[i]))
        elif i in outs:
            t = compare(universes[con[i]["u"] - 1], steps[i], outs[i])
            if t: bads.append((i, t))
    if layouts:
        lay = {i: [json.dumps(l) for l in outs[i][-1]["lay"]] for i in outs}
        judge_layouts([t for i in lay for t in lay[i]], work)
        for i in lay:
            for t in lay[i]:
                if not JUDGED[t] and not any(b[0] == i for b in bads): bads.append((i, "the memory layout of an object is not sound: " + t))
    done = [i for i in range(n) if i in outs]
    return bads, outs, done
