"""C20: several threads on one domain, decided with spec/Conc.tla."""
import concurrent.futures as cf
import json, os, random, re, time
import common, gen, pure
from common import VERIF

ENV = {**pure.ENV, "TSAN_OPTIONS": "exitcode=67:halt_on_error=1:second_deadlock_stack=1:history_size=4"}


def universe(rng, kind):
    u = gen.universe(rng, nd=(1, 1), nm=(3, 5), nf=(2, 4), nr=(2, 4), nt=(2, 3), dep=.15, ext=.1, no=0, noinit=0, canon=.3, dup=.1, emptyname=0, samename=.12 if kind == "reg" else .02,
                     clash=.85, alloc=0, fs=(0, 2), rk={"addif": 5, "add": 4, "rem": 3, "back": 1.5, "sub": 2, "tog": .4, "err": .5})
    for x in u["tcs"]: x["k"], x["a"] = "num", 1
    for m in u["mixs"]:
        if m["ag"] == 0: m["sz"], m["ag"] = 4, 4
    del u["strs"]
    return u


# the universe and the operations of spec/ConcModel.tla
MODEL_U = {"canon": [False], "dupM": [False], "dupF": [False], "feats": [], "names": 4, "tcs": [],
           "mixs": [{"n": i, "sz": 4, "ag": 4, "p": 0, "dep": False, "fe": False, "al": 0, "no": [], "fs": []} for i in (1, 2)],
           "rules": [{"n": 1, "p": 0, "k": "add", "a": 2, "b": 2}, {"n": 2, "p": 1, "k": "rem", "a": 1, "b": 1}]}
MODEL_OPS = [{"o": "get", "ms": [1], "via": 0}, {"o": "get", "ms": [1, 2], "via": 0}, {"o": "addR", "r": 1}, {"o": "remR", "r": 1}, {"o": "addR", "r": 2}, {"o": "gc"}]
MODEL_BEGINS = [[], [MODEL_OPS[1]], [MODEL_OPS[2], MODEL_OPS[0]]]


def model_program(rng):
    nth, nops = rng.choice([(2, 2), (2, 2), (3, 1)])
    setup = [{"o": "regM", "m": 1}, {"o": "regM", "m": 2}] + rng.choice(MODEL_BEGINS)
    return {"u": MODEL_U, "nob": 1, "setup": setup, "th": [[dict(rng.choice(MODEL_OPS)) for _ in range(nops)] for _ in range(nth)], "yrel": 0, "yalloc": 0,
            "wfirst": int(rng.random() < .4), "bound": 2, "max": 0, "rnd": 0, "seed": rng.randint(1, 10**6), "rounds": 0, "kind": "model", "free": False}


def model_check(ctx, cov):
    """the lock-level model, all interleavings; the switches show the two defects which the design avoids"""
    runs = [("Spec", 2, 2, "FALSE", "TRUE", "TRUE"), ("Spec", 3, 1, "FALSE", "TRUE", "TRUE"), ("Spec", 2, 2, "TRUE", "FALSE", "TRUE"), ("Spec", 2, 1, "FALSE", "TRUE", "FALSE")]
    if not ctx.quick: runs += [("Fair", 2, 2, "TRUE", "TRUE", "TRUE"), ("Spec", 3, 2, "TRUE", "TRUE", "TRUE")]
    for spec, nth, nops, few, ver, rec in runs:
        cfg = os.path.join(ctx.work, "ConcModel.cfg")
        open(cfg, "w").write("SPECIFICATION %s\nCONSTANTS NTh = %d NOps = %d Few = %s Versioned = %s Recheck = %s\n%s\nCHECK_DEADLOCK FALSE\n" %
                             (spec, nth, nops, few, ver, rec, "PROPERTY AllEnd" if spec == "Fair" else "INVARIANTS Possible Sound Remembered"))
        r = common.tlc("ConcModel", cfg, ctx.work, workers=3, timeout=900)
        good = ver == rec == "TRUE"
        if r.ok != good or (not good and "is violated" not in r.text): raise RuntimeError("ConcModel: " + r.text[-3000:])
        cov.setdefault("lock_level_model", []).append({"threads": nth, "operations": nops, "versioned": ver, "recheck": rec, "behaviour": spec, "states": r.distinct, "holds": good})


def program(rng, kind):
    if kind == "model": return model_program(rng)
    u = universe(rng, kind)
    nm, nf, nr, nt, nn = len(u["mixs"]), len(u["feats"]), len(u["rules"]), len(u["tcs"]), u["names"]
    via = lambda: rng.choice([0, 0, 1, 2])
    setup, nth = [], rng.choice([2, 2, 3] if kind != "mix" else [2, 3])
    th = [[] for _ in range(nth)]
    slots = [0]

    def slot():
        slots[0] += 1
        return slots[0]
    pool = [rng.sample(range(1, nm + 1), rng.randint(1, min(3, nm))) for _ in range(rng.randint(1, 2 if kind == "types" else 3))]
    get = lambda: {"o": "get", "ms": rng.choice(pool), "via": via()}
    rule = lambda: {"o": rng.choice(["addR", "addR", "remR"]), "r": rng.randint(1, nr)}
    look = lambda: rng.choice([lambda: {"o": "lookM", "n": rng.choice(u["mixs"])["n"]}, lambda: {"o": "lookI", "i": rng.randint(0, nm)},
                               lambda: {"o": "lookF", "n": rng.choice(u["feats"])["n"]}, lambda: {"o": "lookJ", "i": rng.randint(0, nf)},
                               lambda: {"o": "lookT", "n": rng.choice(u["tcs"])["n"]}, lambda: {"o": "trav"}, lambda: {"o": "dmp"}])()
    count = lambda: rng.choice([{"o": "numT"}, {"o": "numR"}, {"o": "trav"}, {"o": "dmp"}])
    yrel, yalloc, free = rng.random() < .4, rng.random() < .3, True
    if kind == "reg":
        used = {f["f"] for m in u["mixs"] for f in m["fs"]}
        for t in range(nth):
            mine = [m for m in range(1, nm + 1) if m % nth == t]
            mf = [f for f in range(1, nf + 1) if f % nth == t]
            mt = [k for k in range(1, nt + 1) if k % nth == t]
            regd = set()
            for m in mine:
                if rng.random() < .5:
                    setup.append({"o": "regM", "m": m}); regd.add(m)
            for _ in range(rng.randint(2, 3)):
                k = rng.random()
                if k < .45 and mine: th[t].append({"o": rng.choice(["regM", "unregM"]), "m": rng.choice(mine)})
                elif k < .6 and mf:
                    f = rng.choice(mf)
                    th[t].append({"o": "regF" if f in used else rng.choice(["regF", "unregF"]), "f": f})
                elif k < .75 and mt: th[t].append({"o": rng.choice(["regT", "regT", "unregT"]), "t": rng.choice(mt)})
                else: th[t].append(look())
    else:
        setup += [{"o": "regM", "m": m} for m in range(1, nm + 1)]
        setup += [{"o": "addR", "r": r} for r in range(1, nr + 1) if rng.random() < (.45 if kind != "obj" else .25)]
        setup += [get() for _ in range(rng.choice([0, 0, 1, 2]))]
        if kind == "types":
            for t in th:
                for _ in range(rng.randint(1, 3)): t.append(rng.choices([get, rule, count], [6, 3, 1])[0]())
            if not any(o["o"] == "get" for t in th for o in t): th[0].append(get())
        elif kind == "rules":
            few = rng.sample(range(1, nr + 1), min(nr, rng.randint(1, 2)))
            setup += [{"o": "addR", "r": r} for r in few for _ in range(rng.choice([0, 0, 1, 2]))]
            for t in th:
                for _ in range(rng.randint(1, 3)):
                    t.append(rng.choices([lambda: {"o": rng.choice(["addR", "remR"]), "r": rng.choice(few)}, count, get], [6, 2, 2])[0]())
        elif kind == "churn":
            # for free threads
            u["canon"][0] = u["dupM"][0] = u["dupF"][0] = False
            pool = pool[:1] + [pool[0] + [m] for m in range(1, nm + 1) if m not in pool[0]][:1]
            x, f = nm, nf # a mixin and a feature nobody else has to do with
            pool = [[m for m in p if m != x] or [1] for p in pool]
            for m in u["mixs"]: m["fs"] = [k for k in m["fs"] if k["f"] != f]
            u["mixs"][x - 1]["n"] = u["feats"][f - 1]["n"] = 0
            u["names"] += 1
            u["mixs"][x - 1]["fs"] = []
            u["mixs"][x - 1]["n"] = u["feats"][f - 1]["n"] = u["names"] - 1
            for k, tc in enumerate(u["tcs"]): tc["n"] = k + 1
            for r in u["rules"]:
                if r["a"] == x: r["a"] = 1
                if r["b"] == x: r["b"] = 2
                if r["k"] in ("tog", "err"): r["k"] = "add"
            setup[:] = [{"o": "regM", "m": m} for m in range(1, nm)]
            setup += [{"o": "mk", "ob": slot(), "ms": p, "via": 0} for p in pool]
            u["mixs"][0]["fs"] = [{"f": 1, "b": 0, "p": 0}]
            th[:] = [[], [], [], []]
            rchurn = rng.random() < .4 # rules in motion: types are not what they were, so that objects are left alone
            n = rng.choice([60, 200])
            for i, t in enumerate(th):
                k = rng.random()
                if i == 0: t.append(rng.choice([{"o": "churnM", "m": x, "n": n // 4}, {"o": "churnF", "f": f, "n": n // 2}, {"o": "churnT", "t": 1, "n": n}]))
                elif k < .15: t.append({"o": "churnL", "n": n // 4})
                elif k < .3 and not any(o["o"] == "churnT" and o["t"] == 2 for q in th for o in q): t.append({"o": "churnT", "t": 2, "n": n})
                elif k < .4: t.append({"o": "use", "ob": rng.randint(1, slots[0]), "n": n // 15})
                elif rchurn: t.append({"o": "churnR", "r": rng.randint(1, nr), "n": n})
                else: t.append({"o": "churn", "ms": rng.choice(pool), "ms2": rng.choice(pool), "via": 0, "n": n})
                if rng.random() < .5: t.append(count() if rchurn or i == 0 else {"o": "cnt", "ms": rng.choice(pool), "via": 0})
            for t in th: t[:] = [o for o in t if o["o"].startswith("churn") or o["o"] == "use"] # nothing is looked at meanwhile
            if rchurn: th[1].append({"o": "addR", "r": 1})
            yrel = yalloc = False
        elif kind == "obj":
            for t in th:
                own = []
                for _ in range(rng.randint(1, 2)):
                    k = slot(); own.append(k)
                    setup.append({"o": "mk", "ob": k, "ms": rng.choice(pool), "via": 0})
                for _ in range(rng.randint(2, 3)):
                    k = rng.random()
                    if k < .3:
                        n = slot(); own.append(n)
                        t.append({"o": "mk", "ob": n, "ms": rng.choice(pool), "via": via()})
                    elif k < .5: t.append({"o": "del", "ob": rng.choice(own)})
                    elif k < .7: t.append({"o": "mut", "ob": rng.choice(own), "ms": rng.choice(pool), "via": via()})
                    elif k < .8: t.append({"o": "clr", "ob": rng.choice(own)})
                    elif k < .92: t.append({"o": "cnt", "ms": rng.choice(pool), "via": via()})
                    else: t.append(get())
        elif kind == "gc":
            # objects which stay keep the types of the pool; further types may be collected at any time,
            # so that nobody may go on using them: no turns are given away where the library is about to return
            yrel = yalloc = False
            pinned = list(pool)
            setup += [{"o": "mk", "ob": slot(), "ms": p, "via": 0} for p in pinned]
            loose = rng.random() < .6
            free = not loose
            if loose: pool.append(rng.sample(range(1, nm + 1), rng.randint(1, nm)))
            for i, t in enumerate(th):
                own = []
                for _ in range(rng.randint(1, 3)):
                    k = rng.random()
                    if k < .3: t.append({"o": "gc"})
                    elif k < .65: t.append(get())
                    elif k < .75 and loose: t.append(rule())
                    elif k < .85:
                        n = slot(); own.append(n)
                        t.append({"o": "mk", "ob": n, "ms": rng.choice(pool if loose else pinned), "via": via()})
                    elif k < .92 and own: t.append({"o": "del", "ob": rng.choice(own)})
                    else: t.append(count())
            if not any(o["o"] == "gc" for t in th for o in t): th[-1].append({"o": "gc"})
            if loose and rng.random() < .5: # little, so that all schedules are tried
                th[:] = [[{"o": "get", "ms": pool[-1], "via": via()}], [rng.choice([{"o": "gc"}, {"o": "gc"}, rule()])]]
                if rng.random() < .4: th[1].append(rng.choice([get(), {"o": "gc"}]))
                setup[:] = [o for o in setup if o["o"] != "get"]
                if rng.random() < .6: setup += [{"o": "get", "ms": pool[-1], "via": 0}, {"o": "addR", "r": rng.randint(1, nr)}] # the type is there, but not known to be the answer
        elif kind == "unreg":
            # the last mixin belongs to the first thread alone
            yrel = yalloc = False
            x = nm
            for p in pool:
                if x in p: p.remove(x)
            pool[:] = [p for p in pool if p] or [[1]]
            for r in u["rules"]:
                if r["a"] == x: r["a"] = 1
                if r["b"] == x: r["b"] = 2
            setup[:] = [o for o in setup if o["o"] != "get"] + [get()]
            mine = [{"o": "get", "ms": p + [x], "via": via()} for p in pool]
            if rng.random() < .7: setup.append(rng.choice(mine))
            a = [{"o": "unregM", "m": x}]
            if rng.random() < .5: a.insert(0, rng.choice(mine))
            if rng.random() < .6: a.append(rng.choice([{"o": "regM", "m": x}, {"o": "lookM", "n": u["mixs"][x - 1]["n"]}, {"o": "numT"}]))
            th[0] = a
            for t in th[1:]:
                for _ in range(rng.randint(1, 3)): t.append(rng.choices([get, rule, count, look], [4, 2, 1, 2])[0]())
            free = False # looks ask for the mixin
        else:
            for t in th:
                for _ in range(rng.randint(1, 2)): t.append(rng.choices([get, rule, count, look], [5, 3, 1, 1])[0]())
    return {"u": u, "nob": max(1, slots[0]), "setup": setup, "th": th, "yrel": int(yrel), "yalloc": int(yalloc), "wfirst": int(rng.random() < .4),
            "bound": 2, "max": 0, "rnd": 0, "seed": rng.randint(1, 10**6), "rounds": 0, "kind": kind, "free": free}


KINDS = ["churn"] * 2 + ["rules"] * 2 + ["types"] * 4 + ["reg"] * 3 + ["obj"] * 2 + ["gc"] * 3 + ["unreg"] * 2 + ["mix"] * 1 + ["model"] * 3


def run(exe, progs):
    """[(program index, result or None, crash text)]"""
    old = dict(pure.ENV)
    pure.ENV.update(ENV)
    try:
        order = sorted(range(len(progs)), key=lambda i: i % (common.JOBS * 3))
        res, _ = pure.run_parallel(exe, [json.dumps(progs[i]) for i in order])
        return {order[k]: v for k, v in res.items()}
    finally:
        pure.ENV.clear(); pure.ENV.update(old)


def tree(r):
    kids = [[] for _ in r["par"]]
    for i, p in enumerate(r["par"]):
        if i: kids[p - 1].append(i + 1)
    return kids


def path(r, node):
    out = []
    while node != 1:
        out.append(r["ev"][node - 1])
        node = r["par"][node - 1]
    return out[::-1]


def tlc(ctx, progs, results, timeout=600):
    cases = [{"u": p["u"], "nob": p["nob"], "setup": p["setup"], "th": p["th"], "kids": tree(r), "ev": r["ev"]} for p, r in zip(progs, results)]
    f = os.path.join(ctx.work, "conc-cases.json")
    json.dump(cases, open(f, "w"))
    return common.tlc("ConcExec", "ConcExec.cfg", ctx.work, env={"VF_CASES": f}, timeout=timeout)


def histories(r):
    k = tree(r)
    return sum(1 for x in k if not x)


def show(p, r, node):
    t = []
    for e in path(r, node):
        op = None
        if e[0] == "c": op = {"o": "trav"} if e[2] == 0 else p["setup"][e[2] - 1] if e[1] == 0 else p["th"][e[1] - 1][e[2] - 1]
        t.append("%d %s" % (e[1], "calls " + json.dumps({k: v for k, v in op.items()}) if op else "gets " + json.dumps(e[2])))
    return t


def judge(ctx, Violation, progs, res, cov, what):
    """crashes, deadlocks and impossible histories"""
    for i, p in enumerate(progs):
        if i not in res: continue
        r, crash = res[i]
        if crash and r is None:
            if "no progress" in crash: raise common.Broken("a program of threads makes no progress: " + json.dumps(p)[:500])
            raise Violation("%s: a program of threads ends in: %s" % (what, crash[:1200]), ctx.replayFile({"kind": "prog", "prog": p, "what": what}), cov)
        if r["end"] == "deadlock":
            h = [k for k in range(1, len(r["ev"]) + 1)]
            raise Violation("%s: threads wait for each other for ever after:\n%s" % (what, "\n".join(show(p, r, len(r["ev"])))), ctx.replayFile({"kind": "prog", "prog": {**p, "plan": r["plan"]}, "what": what}), cov)
    ok = [i for i in range(len(progs)) if i in res and res[i][0]]
    missing = [i for i in range(len(progs)) if i not in res]
    if missing: raise Violation("%s: a program of threads was not finished" % what, ctx.replayFile({"kind": "prog", "prog": progs[missing[0]], "what": what}), cov)
    r = tlc(ctx, [progs[i] for i in ok], [res[i][0] for i in ok])
    cov["states"] += r.distinct
    cov["transitions"] += r.generated
    cov["traces_validated_against_impl"] += sum(histories(res[i][0]) for i in ok)
    cov["executions"] = cov.get("executions", 0) + sum(res[i][0]["runs"] for i in ok)
    if r.ok: return
    if "Invariant Possible is violated" in r.text or "Invariant Sound is violated" in r.text:
        if os.environ.get("VF_DEBUG"): print(r.text[-6000:])
        pr = int(re.findall(r"program = (\d+)", r.text)[-1]) - 1
        node = int(re.findall(r"node = (\d+)", r.text)[-1])
        i = ok[pr]
        raise Violation("%s: no order of the operations explains this history:\n%s" % (what, "\n".join(show(progs[i], res[i][0], node))),
                        ctx.replayFile({"kind": "prog", "prog": progs[i], "what": what, "history": path(res[i][0], node)}), cov)
    raise RuntimeError("TLC: " + (r.text[r.text.find("Error:"):][:2500] if "Error:" in r.text else r.text[-3000:]))


def build(ctx, free=False):
    if free: return common.build_driver("conc_free", VERIF + "/driver/conc_driver.cpp", san=("thread",), defs=("FREE",), opt="-O1")
    return common.build_driver("conc", VERIF + "/driver/conc_driver.cpp", san=("address", "undefined"), opt="-O1")


def check(ctx, Violation):
    rng = random.Random("conc %d" % ctx.seed)
    quick = ctx.quick
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    rounds = 1 if quick else 12
    with cf.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(model_check, ctx, cov)
        exe, exeFree = build(ctx), build(ctx, True)
        t0 = time.time()
        n = explore(ctx, Violation, rng, cov, rounds, exe, exeFree, t0)
        fut.result()
    cov["states"] += sum(x["states"] for x in cov["lock_level_model"])
    cov["programs"] = n
    return cov


def explore(ctx, Violation, rng, cov, rounds, exe, exeFree, t0):
    quick = ctx.quick
    for k in range(rounds):
        n = 240 if quick else 500
        progs = [program(rng, KINDS[i % len(KINDS)]) for i in range(n)]
        for p in progs: p["max"], p["rnd"] = (120, 60) if quick else (1500, 300)
        progs, all = [p for p in progs if p["kind"] != "churn"], progs
        res = run(exe, progs)
        judge(ctx, Violation, progs, res, cov, "controlled schedules")
        cov["schedules_exhausted"] = cov.get("schedules_exhausted", 0) + sum(1 for i in res if res[i][0] and res[i][0]["all"])
        fp = [{**p, "rounds": 15 if quick else 60} for p in all if p["free"]]
        res = run(exeFree, fp)
        judge(ctx, Violation, fp, res, cov, "free threads")
        if not cov["samples"]: cov["samples"] = [{"setup": p["setup"], "th": p["th"]} for p in progs[:2]]
        if time.time() - t0 > 600: break
    return n * (k + 1)


def replay(ctx, d):
    p = d["prog"]
    free = d["what"] == "free threads"
    exe = build(ctx, free)
    if free: p = {**p, "rounds": 2000}
    elif not p["max"]: p = {**p, "max": 1500}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}

    class V(Exception):
        def __init__(self, text, *a): super().__init__(text); self.text = text
    ctx.replayFile = lambda d: None
    try: judge(ctx, V, [p], run(exe, [p]), cov, d["what"])
    except V as v: return v.text
    return None
