"""C23, C24: the version 1 interface: combinators and messages; definitions, rules and objects."""
import json, os, random, re, shutil, time
import common, pure
from common import VERIF, REPO

NM = 6
ARITY = 5
V1 = REPO + "/v1compat"


# ------------------------------------------------------------- what gen_message_macros.rb does (there is no ruby here)
def params(n):
    p = dict.fromkeys(("args", "arg_types", "args_coma", "args_signature", "coma_args_signature", "coma_args", "coma_arg_types", "fwd_args", "coma_fwd_args"), "")
    p["arity"] = str(n)
    if not n: return p
    a = ["a%d" % i for i in range(n)]
    t = ["arg%d_type" % i for i in range(n)]
    p["args"], p["arg_types"] = ", ".join(a), ", ".join(t)
    p["args_coma"] = ", " + ", ".join(x for i in range(n) for x in (t[i], a[i]))
    p["args_signature"] = ", ".join("%s %s" % (t[i], a[i]) for i in range(n))
    p["fwd_args"] = ", ".join("std::forward<%s>(%s)" % (t[i], a[i]) for i in range(n))
    for k in ("args_signature", "args", "arg_types", "fwd_args"): p["coma_" + k] = ", " + p[k]
    return p


def expand(template):
    s = open(V1 + "/gen/" + template).read()
    return "".join(re.sub(r"%\{(\w+)\}", lambda m, p=params(n): p[m.group(1)], s) for n in range(ARITY + 1))


def build(ctx):
    g = os.path.join(common.BUILD, "v1gen-" + ctx.prop)
    shutil.rmtree(g, ignore_errors=True)
    os.makedirs(g + "/gen")
    for t, o, pre in (("message_macros_template", "template_message_macros.ipp", ""), ("arity_message_macros_template", "arity_message_macros.ipp", "#include <limits>\n#include <type_traits>\n"),
                      ("create_combinator_call_template", "create_combinator_call.ipp", "")):
        open(g + "/gen/" + o, "w").write(pre + expand(t))
    src = [V1 + "/code/dynamix/v1compat/" + s for s in sorted(os.listdir(V1 + "/code/dynamix/v1compat")) if s.endswith(".cpp")]
    return common.build_driver("v1-" + ctx.prop, VERIF + "/driver/v1_driver.cpp", opt="-O0", extra=src, include=[V1 + "/code", g])


# ------------------------------------------------------------- cases
def feat(ar, mc, df=False, t="int"): return {"ar": ar, "mc": bool(mc), "df": df, "t": t}


F = [feat(n, 1) for n in range(6)] + [feat(n, 0) for n in range(6)] + [feat(0, 1, t="bool"), feat(1, 1, t="double"), feat(2, 1, True), feat(3, 0, True), feat(1, 1), feat(2, 1), feat(0, 0), feat(0, 0)]
NF = len(F)
MULTI = [f for f in range(1, NF + 1) if F[f - 1]["mc"]]
NAMES = ["a", "b", "ab", "walker", "x" * 40]


def B(s): return list(s.encode())


def comb(rng, long=False):
    c = rng.choice(["and", "or", "sum", "mean"])
    t = rng.choice(["bool", "int", "double"] if c in ("and", "or") else ["int", "double"])
    val = lambda: rng.randint(0, 1) if t == "bool" else rng.choice([0, 0, 1, -1, 2, 3, -7, 10, 256, 4096, rng.randint(-100000, 100000)])
    os = []
    for _ in range(rng.randint(1, 4)):
        n = rng.choice([1, 1, 2, 3, 4, 7, 12])
        if rng.random() < .9: os.append({"o": "num", "v": n})
        yes = rng.random() < .6    # long runs of the same
        for _ in range(n if rng.random() < .7 else rng.randint(0, n)):
            os.append({"o": "add", "v": (1 if c == "and" else 0) if c in ("and", "or") and yes and rng.random() < .8 else val()})
        if rng.random() < .5: os.append({"o": "reset", "v": 0})
    return {"k": "comb", "c": c, "t": t, "os": os or [{"o": "reset", "v": 0}]}


def item(rng, used, few):
    c = rng.choice(["tag"] * 8 + ["bind"] * 3 + ["ud", "name", "dep", "none"])
    if c in ("tag", "bind"):
        fs = [f for f in (few or range(1, NF + 1)) if f not in used]
        if not fs: return None
        f = rng.choice(fs)
        used.add(f)
        ps = []
        if c == "tag":
            small = rng.random() < .9
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                ps.append({"k": rng.choice(["bid", "prio", "uprio"]), "v": rng.randint(-2, 2) if small else rng.choice([2 ** 31 - 1, -2 ** 31 + 1, 70000, -70000])})
        return {"c": c, "f": f, "ps": ps}
    if c == "ud": return {"c": c, "v": rng.choice([0, 1, 77, 2 ** 31 - 1])}
    if c == "name": return {"c": c, "n": B(rng.choice(NAMES) + rng.choice(["", str(rng.randint(0, 99))]))}
    if c == "dep": return {"c": c, "v": rng.randint(0, 1)}
    return {"c": c}


def defs(rng, rich, few=None):
    """few: the features of interest"""
    res = []
    for m in range(NM):
        used, its = set(), []
        for _ in range(rng.choice([1, 3, 5, 8]) if rich else rng.choice([0, 0, 1, 2])):
            i = item(rng, used, few)
            if i: its.append(i)
        res.append(its)
    return res


def common_part(rng, rich, few=None):
    return {"defs": defs(rng, rich, few), "F": F, "rules": [], "tcs": [{"k": "has", "a": rng.randint(1, NM)}, {"k": "num", "a": rng.randint(0, 4)}, {"k": "impl", "a": rng.randint(1, NF)}], "nocopy": [5]}


def some(rng, n=None):
    return rng.sample(range(1, NM + 1), n if n is not None else rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6]))


def callop(rng, few, prop):
    f = rng.choice(few)
    d = F[f - 1]
    op = {"o": "call", "l": some(rng, None if rng.random() < .5 else rng.choice([3, 4, 5, 6])), "f": f, "args": [rng.randint(-20, 20) for _ in range(d["ar"])], "lv": 0, "stop": 0, "k": 0}
    style = rng.random()
    op["ret"] = [rng.choice([0, 0, 1, 2, 3, -4, 5, 8, rng.randint(-1000, 1000)]) for _ in range(NM)]
    if style < .3: op["ret"] = [x if rng.random() < .3 else 0 for x in op["ret"]]
    if style > .8: op["ret"] = [2 * x for x in op["ret"]]
    # most answers true or most false
    if rng.random() < .5 and d["ar"]: op["args"] = [0] * d["ar"]
    wild = rng.random()
    op["beh"] = [("ret" if wild < .5 else rng.choice(["ret", "ret", "ret", "next", "nextq", "nextq", "thr" if wild > .85 else "ret"])) for _ in range(NM)]
    if d["mc"] and rng.random() < (.85 if prop == "C23" else .3):
        op["k"] = rng.randint(1, 5)
        if op["k"] == 5: op["stop"] = rng.randint(0, 6)
        elif d["t"] == "int" and rng.random() < .5: op["lv"] = 1
        if d["t"] == "bool" and op["k"] in (3, 4): op["k"] = rng.choice([1, 2])
    return op


def calls(rng, prop):
    few = rng.sample(MULTI if rng.random() < (.8 if prop == "C23" else .3) else range(1, NF + 1), rng.choice([1, 2, 3, 4]))
    c = {"k": "calls", **common_part(rng, True, few if rng.random() < .85 else None)}
    if prop == "C23" and rng.random() < .5:    # everything at one bid
        for its in c["defs"]:
            for i in its:
                for p in i.get("ps", []):
                    if p["k"] == "bid": p["v"] = 1
    ops = []
    for _ in range(rng.randint(3, 12)):
        x = rng.random()
        if x < .12: ops.append({"o": "reset", "k": rng.randint(1, 4)})
        elif x < .2 or prop == "C24" and x < .4: ops.append({"o": rng.choice(["impl", "isa", "copy"]), "l": some(rng)})
        else: ops.append(callop(rng, few, prop))
    return {**c, "ops": ops}


def rule(rng):
    k = rng.choice(["v1one", "v1one", "v1dep", "v1mx", "v1mx", "rem", "add", "v1sub", "v1sub", "addif", "thr" if rng.random() < .3 else "rem"])
    a, b = rng.sample(range(1, NM + 1), 2)
    l = rng.sample(range(1, NM + 1), rng.choice([0, 1, 2, 2, 3, 4])) if k in ("v1one", "v1dep", "v1mx") else []
    return {"k": k, "a": a, "b": b, "l": l, "raw": rng.randint(0, 1)}


def rules(rng):
    c = {"k": "rules", **common_part(rng, False)}
    for i, its in enumerate(c["defs"]):
        if rng.random() < .4: its.append({"c": "dep", "v": 1})
    c["rules"] = [rule(rng) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
    ops, live = [], []
    n = 0
    dead = []
    for _ in range(rng.randint(4, 20)):
        x = rng.random()
        if x < .35 and len(live) < 4:
            r = rng.randint(1, len(c["rules"]))
            if c["rules"][r - 1]["raw"] and r in [q for _, q in live]: continue
            n += 1
            live.append((n, r))
            ops.append({"o": "add", "r": r})
        elif x < .5 and live:
            h = rng.choice(live)
            live.remove(h)
            dead.append(h[0])
            ops.append({"o": "rm", "h": h[0]})
        elif x < .55 and dead: ops.append({"o": "rm", "h": rng.choice(dead)})
        elif x < .6: ops.append({"o": "bad", "big": rng.randint(0, 1), "v": rng.choice([0, 0, 1, 5]) })
        else:
            l = some(rng)
            # rules have something to say about it
            ops.append({"o": "get", "l": l})
    return {**c, "ops": ops}


def cases(rng, prop, quick):
    if prop == "C23": return [comb(rng) for _ in range(300)] + [calls(rng, prop) for _ in range(500 if quick else 1000)]
    return [rules(rng) for _ in range(500 if quick else 1000)] + [calls(rng, prop) for _ in range(250 if quick else 500)]


def number(t, r):
    """a result [v] or [sum, number] as a double, given in quarters"""
    return [r[0] / 4.0] if len(r) == 1 else [(r[0] / 4.0) / float(r[1])]


def want(c, w):
    w = w["want"]
    if c["k"] == "comb":
        for h in w:
            h["r"] = h["r"] if c["c"] in ("and", "or") or not h["r"] else number(c["t"], h["r"]) if c["t"] == "double" else h["i"]
            del h["i"]
        return w
    for k, (o, x) in enumerate(zip(c["ops"], w["ops"])):
        if o["o"] == "call" and x["r"] != "refused":
            t = F[o["f"] - 1]["t"]
            if 1 <= o["k"] <= 4:
                if not x["x"] and (o["lv"] or x["r"] == "ok"): x["x"] = "*"
                elif t == "double" and o["k"] >= 3 and x["x"]: x["x"] = number(t, x["x"])
            if o["k"] == 5 and x["r"] != "ok": x["x"] = []
        if c["k"] == "rules" and o["o"] == "get": w["ops"][k] = x
    return w


class Any(list):
    pass


def differ(c, w, got):
    """like pure.diff, but an answer to a request with rules may be any of a set"""
    w = want(c, w)
    if c["k"] == "rules" and isinstance(got, dict) and isinstance(got.get("ops"), list) and len(got["ops"]) == len(w["ops"]):
        for i, x in enumerate(w["ops"]):
            if "any" in x:
                if any(pure.diff(a, got["ops"][i]) is None for a in x["any"]): w["ops"][i] = "*"
                else: return ".ops[%d]: one of %s is expected, observed is %s" % (i, json.dumps(x["any"])[:600], json.dumps(got["ops"][i]))
    return pure.diff(w, got)


MACROS = {"domain": ["v1compat", 1, 0, 0], "infos": [["macro_one", 4, 77, 0, 1, 1, 2], ["the second", 3, 0, 1, 1, 1, 1], ["macro_three", 1, 0, 0, 1, 1, 0]],
          "fs": [3, 0, 2, 5], "calls": [31, 33, 33], "names": ["m0", "dm", "du", "ov1", "ol0c"], "clash": [1, 0, 1, 1, 0, 1, 0], "tc": "tc1", "found": 1}


def judge(exe, cs, ws):
    out, heads = pure.run_parallel(exe, [json.dumps(c) for c in cs], 1)
    if heads:
        d = pure.diff(MACROS, heads[0])
        if d: return None, "definition macros: " + d
    for i in sorted(out):
        l, crash = out[i]
        if crash: return cs[i], crash + "\n" + json.dumps({k: v for k, v in cs[i].items() if k != "F"})[:1500]
        d = differ(cs[i], ws[i], l["got"])
        if d: return cs[i], "%s\ncase: %s" % (d, json.dumps({k: v for k, v in cs[i].items() if k != "F"})[:2500])
    return None


def expect(ctx, cs):
    files, r = pure.tlc_files("V1Exec", ctx, cs)
    return [files[str(i + 1)] for i in range(len(cs))], r


def check(ctx, Violation):
    t0 = time.time()
    budget = 0 if ctx.quick else 400
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases": {}, "samples": []}
    exe = build(ctx)
    rnd = 0
    while True:
        rng = random.Random("v1/%s/%d/%d" % (ctx.prop, ctx.seed, rnd))
        cs = cases(rng, ctx.prop, ctx.quick)
        ws, r = expect(ctx, cs)
        keep = json.loads(json.dumps(ws[-1]["want"]["ops"][:4]))
        bad = judge(exe, cs, ws)
        cov["states"] += r.distinct
        cov["transitions"] += r.generated - len(cs)
        if bad: raise Violation(bad[1], ctx.replayFile({"kind": "v1", "prop": ctx.prop, "case": bad[0], "text": bad[1]}), cov)
        cov["traces_validated_against_impl"] += len(cs)
        for c, w in zip(cs, ws):
            n = cov["cases"]
            n[c["k"]] = n.get(c["k"], 0) + 1
            if c["k"] in ("rules", "calls"):
                for o, x in zip(c["ops"], w["want"]["ops"]):
                    k = "%s:%s" % (o["o"], x if x == "*" else x.get("r", "some") if o["o"] == "call" else "done")
                    n[k] = n.get(k, 0) + 1
        if rnd == 0: cov["samples"] = [{"case": {k: v for k, v in cs[-1].items() if k != "F"}, "expected": keep}]
        rnd += 1
        if time.time() - t0 > budget: break
    return cov


def replay(ctx, d):
    exe = build(ctx)
    cs = [d["case"]] if d["case"] else [{"k": "comb", "c": "sum", "t": "int", "os": [{"o": "reset", "v": 0}]}]
    ws, _ = expect(ctx, cs)
    bad = judge(exe, cs, ws)
    return bad and bad[1]
