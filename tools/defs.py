"""C25: definitions of mixins and features: builders, traits of types, settings, perks, registration of definitions."""
import concurrent.futures as cf
import json, os, random, time
import common, pure
from common import VERIF

SIZES = [(4, 4), (1, 1), (64, 32), (16, 8), (11, 1), (0, 0)]
NM = 6
NAMES = ["", "a", "b", "ab", "walker", "walker rule 0", "a rule 0", "a attaches_to<0>", "x" * 40, "a much longer name than what a string keeps inside"]
INTS = [0, 1, 2, 3, 7, 100, 65536, 2 ** 31 - 2]


def build(ctx):
    return common.build_driver("defs", VERIF + "/driver/def_driver.cpp", opt="-O0")


def B(s):
    return list(s.encode())


def perk(rng):
    k = rng.choice(["bid", "prio", "both", "none", "bid", "prio"])
    small = rng.random() < .8
    n = lambda: rng.randint(-3, 3) if small else rng.choice(INTS) * rng.choice([1, -1])
    b, p = n(), n()
    lit = int(k != "both" and rng.random() < .5)
    if lit: b, p = abs(b), abs(p)
    return {"k": k, "b": b, "p": p, "neg": int(rng.random() < .35), "lit": lit}


def perks(rng):
    return [perk(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]))]


class Cells:
    def __init__(self): self.free = list(range(1, 8))

    def take(self): return self.free.pop() if self.free else 0


def defcall(rng, m, n, cells, wild):
    """a call on the builder of mixin m"""
    u = 16 * rng.randint(1, n) + rng.randint(1, n) if rng.random() < .8 else 0
    void = m == 6
    while True:
        c = rng.choice(["name", "store", "alloc", "allocany", "allocown", "ud", "dep", "dep", "noop", "adopt", "rinfo", "rnamed", "rfunc", "rfunc", "attaches", "alsoadds",
                        "feat", "feat", "feat", "feat", "feat", "feat"])
        if c in ("name", "store"):
            # an empty name makes a mixin which cannot be registered
            n = rng.choice(NAMES[1:] if not wild or rng.random() < .8 else NAMES)
            if rng.random() < .6: n += str(m)
            return {"c": c, "n": B(n)}
        if c in ("alloc", "allocany"): return {"c": c, "k": rng.randint(1, 3)}
        if c in ("allocown", "noop", "adopt"): return {"c": c}
        if c == "ud": return {"c": c, "u": rng.choice(INTS)}
        if c == "dep": return {"c": c, "b": rng.randint(0, 1), "d": rng.randint(0, 1)}
        if c == "rinfo": return {"c": c, "g": rng.choice([1, 1, 2, 2, 3] if wild else [1, 2])}
        if c == "rnamed": return {"c": c, "n": B(rng.choice(NAMES[1:]) + "r"), "u": u, "ks": perks(rng)[:1]}
        if c == "rfunc": return {"c": c, "u": u, "ks": perks(rng)[:1]}
        if c in ("attaches", "alsoadds"):
            if void: continue
            return {"c": c, "x": rng.randint(1, 5), "u": rng.choice(INTS), "ks": perks(rng)[:1]}
        f = rng.randint(1, 6)
        ks = perks(rng)
        if f >= 5:
            if void: continue
            if rng.random() < .5: return {"c": "timpl", "f": f, "v": 0, "cell": 0, "ks": ks}
            return {"c": "tby", "f": f, "v": rng.choice([51, 52]), "cell": 0, "ks": ks}
        k = rng.choice(["fpayload", "fby", "tby", "fwith", "twith", "tbyc", "timpl"])
        v = rng.randint(1, 500)
        cell = cells.take() if k in ("fby", "tby") or k == "fpayload" and rng.random() < .5 else 0
        if k in ("fby", "tby") and not cell: continue
        return {"c": k, "f": f, "v": v, "cell": cell, "ks": ks}


def defscase(rng, thorough):
    wild = rng.random() < .4
    cells = Cells()
    n = rng.choice([5, 6, 6])
    defs = []
    for m in range(1, n + 1):
        cs = [defcall(rng, m, n, cells, wild) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9, 14 if rng.random() < .3 else 5]))]
        defs.append({"n": B(rng.choice(["a", "b", "walker", "zz", "a"]) + (str(m) if rng.random() < .85 else "")), "s": SIZES[m - 1][0], "a": SIZES[m - 1][1], "sv": rng.randint(0, 1), "cs": cs})
    shared = [{"n": B(rng.choice(["shared%d" % g, "a", "rule"])), "ud": 16 * rng.randint(1, 5) + rng.randint(1, 5), "p": rng.randint(-2, 2), "t": "null" if g == 3 else "u"} for g in (1, 2, 3)]
    feats = [{"n": B(rng.choice(["f%d" % f] * 9 + ["f"])), "cl": int(rng.random() < .3)} for f in range(1, 7)]
    ops, reg = [], set()
    for _ in range(rng.randint(4, 22)):
        x = rng.random()
        if x < .5 or not reg:
            m = rng.randint(1, n)
            ops.append({"o": "reg", "m": m, "i": rng.randint(0, 1)})
            reg.add(m)
        elif x < .65:
            m = rng.choice(sorted(reg)) if rng.random() < .9 else rng.randint(1, n)
            ops.append({"o": "unreg", "m": m})
        else:
            k = rng.randint(0, 3)
            pool = sorted(reg) if rng.random() < .85 else list(range(1, n + 1))
            ops.append({"o": "get", "l": rng.sample(pool, min(k, len(pool)))})
    return {"k": "defs", "defs": defs, "shared": shared, "feats": feats, "set": {"canon": rng.randint(0, 1), "dupM": int(rng.random() < .3), "dupF": int(rng.random() < .3)}, "ops": ops}


def featcase(rng):
    cells = Cells()
    cs = []
    for _ in range(rng.randint(0, 6)):
        c = rng.choice(["name", "store", "payload", "payby", "paywith", "adopt"])
        if c in ("name", "store"): cs.append({"c": c, "n": B(rng.choice(NAMES))})
        elif c == "adopt": cs.append({"c": c})
        else:
            cell = cells.take() if c == "payby" or c == "payload" and rng.random() < .5 else 0
            cs.append({"c": c, "v": rng.randint(1, 999), "cell": cell})
    return {"k": "feat", "n": B(rng.choice(NAMES)), "sv": rng.randint(0, 1), "cs": cs}


def settingscase(rng):
    return {"k": "settings", "cs": [{"c": rng.choice(["canon", "dupM", "dupF"]), "v": rng.randint(0, 1), "d": rng.randint(0, 1)} for _ in range(rng.randint(0, 7))]}


def cases(rng, thorough, first, traits):
    res = []
    if first:
        res += [{"k": "traits", "key": t["key"], "t": t["t"]} for t in traits]
        res += [{"k": "settings", "cs": []}] + [{"k": "settings", "cs": [{"c": c, "v": v, "d": d}]} for c in ("canon", "dupM", "dupF") for v in (0, 1) for d in (0, 1)]
        one = [{"k": k, "b": 3, "p": 5, "neg": n, "lit": 0} for k in ("none", "bid", "prio", "both") for n in (0, 1)]
        two = [{"k": k, "b": 30, "p": 50, "neg": n, "lit": 0} for k in ("none", "bid", "prio", "both") for n in (0, 1)]
        zero = [{"k": k, "b": 0, "p": 0, "neg": 0, "lit": l} for k in ("bid", "prio") for l in (0, 1)]
        res += [{"k": "perks", "ks": []}] + [{"k": "perks", "ks": [a]} for a in one + zero] + [{"k": "perks", "ks": [a, b]} for a in one + zero for b in two]
    res += [settingscase(rng) for _ in range(40)]
    res += [{"k": "perks", "ks": perks(rng)} for _ in range(60)]
    res += [featcase(rng) for _ in range(80)]
    res += [defscase(rng, thorough) for _ in range(500 if not thorough else 1500)]
    return res


def effects(key, ops):
    """what the operations do to an area, given which operation there is"""
    D, C, A, V, W, X = (int(k) for k in key)
    r = {"rc": 0}
    ev = {"init": "d" if D == 1 else "", "cc": "cc" if C == 1 else "", "ca": "ca" if A == 1 else "", "mc": "mc" if V in (1, 2) else "", "ma": "ma" if W in (1, 2) else "", "x": "x" if X == 1 else ""}
    if V == 3: ev["mc"] = ""    # the base without a move constructor copies; it has no event of its own
    # a base with a user copy constructor (assignment) has a defaulted move which is silent
    r["init"] = "no" if ops["init"] == "no" else {"zero": 1, "ev": "", "rc": 0} if ops["init"] == "all" else {"ev": ev["init"], "rc": 0}
    for o in ("cc", "ca", "mc", "ma"):
        if ops[o] == "no": r[o] = "no"
        elif ops[o] == "all": r[o] = {"dst": "same", "src": "same" if o in ("cc", "ca") else "zero", "ev": ""}
        else: r[o] = {"dst": "same", "src": "same", "ev": ev[o]}
    r["x"] = "no" if ops["x"] == "no" else ev["x"]
    r["eq"] = r["cmp"] = r["name"] = 0
    return r


def want(c, w):
    w = w["want"]
    if c["k"] == "defs":
        for d in w["defs"]:
            for e in d:
                e["rest"] = 1
                e["rs"] = [{k: v for k, v in r.items() if k not in "tx"} for r in e["rs"]]
        for o in w["dom"]:
            if o["r"] == "any": o.update(r="*", x="*")
            if o["r"] == "skip": o.update(r="*", x="*")
        return w
    if c["k"] == "settings": return {**w, "same": 1}
    if c["k"] == "feat": return [{**e, "rest": 1} for e in w]
    if c["k"] == "traits": return effects(c["key"], w)
    return w


MACROS = {"domain": ["macro_domain", 1, 0, 1, 232, 1, 2],
          "one": ["macro_one", 8, 11, 1, -7, 3, 2077, 0, 1, 1], "two": ["the second", 3, 0, 1, 0, 1],
          "type": [2, 1, 1, 1], "init": ["macro_two", 3, 1], "msgs": ["msg5", 1, 0, "msg6", 0, 1, 1], "default": 65, "any": [0, 7, 1, 1]}


def judge(exe, cs, ws):
    out, heads = pure.run_parallel(exe, [json.dumps(c) for c in cs], 1)
    if heads:
        d = pure.diff(MACROS, heads[0])
        if d: return None, "definition macros: " + d
    for i in sorted(out):
        l, crash = out[i]
        if crash: return cs[i], crash + "\n" + json.dumps(cs[i])[:1500]
        d = pure.diff(want(cs[i], ws[i]), l["got"])
        if d: return cs[i], "%s\ncase: %s" % (d, json.dumps(cs[i])[:2500])
    return None


def expect(ctx, cs):
    files, r = pure.tlc_files("DefsExec", ctx, cs)
    return [files[str(i + 1)] for i in range(len(cs))], r


def traits_of(exe):
    r = common.sh([exe, "--traits"])
    if r.returncode == 3: raise common.Broken("driver: " + r.stdout[-3000:])
    if r.returncode: return None, "definition macros: " + r.stdout[-1500:]  # what is defined as in the examples is refused
    return json.loads(r.stdout), None


def check(ctx, Violation):
    t0 = time.time()
    budget = 0 if ctx.quick else 400
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases": {}, "samples": []}
    exe = build(ctx)
    traits, crash = traits_of(exe)
    if crash: raise Violation(crash, ctx.replayFile({"kind": "defs", "case": None, "text": crash}), cov)
    rnd = 0
    while True:
        rng = random.Random("defs/%d/%d" % (ctx.seed, rnd))
        cs = cases(rng, not ctx.quick, rnd == 0, traits)
        ws, r = expect(ctx, cs)
        bad = judge(exe, cs, ws)
        cov["states"] += r.distinct
        cov["transitions"] += r.generated - len(cs)
        if bad: raise Violation(bad[1], ctx.replayFile({"kind": "defs", "case": bad[0], "text": bad[1]}), cov)
        cov["traces_validated_against_impl"] += len(cs)
        for c in cs: cov["cases"][c["k"]] = cov["cases"].get(c["k"], 0) + 1
        for c, w in zip(cs, ws):
            if c["k"] == "defs":
                for o in w["want"]["dom"]:
                    k = "domain:" + o["r"]
                    cov["cases"][k] = cov["cases"].get(k, 0) + 1
        if rnd == 0:
            m = [i for i, c in enumerate(cs) if c["k"] == "defs"]
            i = m[ctx.seed % len(m)]
            cov["samples"] = [{"case": cs[i], "expected": ws[i]["want"]["dom"]}]
        rnd += 1
        if time.time() - t0 > budget: break
    return cov


def replay(ctx, d):
    exe = build(ctx)
    _, crash = traits_of(exe)
    if crash: return crash
    cs = [d["case"]] if d["case"] else [{"k": "settings", "cs": []}]
    ws, _ = expect(ctx, cs)
    bad = judge(exe, cs, ws)
    return bad and bad[1]
