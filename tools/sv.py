"""C22: string views."""
import concurrent.futures as cf
import json, os, random, subprocess, time
import common, pure
from common import VERIF


def build(ctx):
    d = os.path.join(ctx.work, "sv")
    os.makedirs(d, exist_ok=True)
    c, cpp, big = d + "/sv-c", d + "/sv-cpp", d + "/sv-big"
    common.compile_all([["gcc", "-std=c11"] + pure.SAN + [VERIF + "/driver/sv_driver.c", "-o", c],
                        ["g++", "-std=c++17"] + pure.SAN + ["-x", "c++", VERIF + "/driver/sv_driver.c", "-o", cpp],
                        ["gcc", "-std=c11", "-O2", "-D_GNU_SOURCE", "-I" + common.CODE, VERIF + "/driver/sv_big.c", "-o", big]])
    return c, cpp, big


def cases(rng, n):
    res = []
    for _ in range(n):
        L = rng.choice([6, 9, 17, 33, 70, 260])
        alpha = rng.choice([[97, 98], [0, 97], [97, 200], [127, 128, 255, 0, 1], list(range(256))])
        m = [rng.choice(alpha) for _ in range(L)]
        if rng.random() < .5:      # the same content at several places
            k = rng.randint(1, L // 2)
            m = (m[:k] * L)[:L]
            if rng.random() < .6: m[rng.randrange(L)] = rng.choice(alpha)
        vs = [[-1, -1]]
        for _ in range(14):
            b = rng.randint(0, L); vs.append([b, rng.randint(b, L)])
        b = rng.randint(0, L)      # the same beginning, the same end, the same length
        vs += [[b, rng.randint(b, L)] for _ in range(3)]
        e = rng.randint(0, L)
        vs += [[rng.randint(0, e), e] for _ in range(3)]
        w = rng.randint(0, L)
        vs += [[x, x + w] for x in [rng.randint(0, L - w) for _ in range(4)]]
        qs = rng.sample(range(256), 3) + [rng.choice(m), m[-1], m[0], 0, 128, 255]
        ps = []
        for _ in range(8):
            b = rng.randint(0, L)
            p = m[b:rng.randint(b, min(L, b + 12))]
            if p and rng.random() < .4: p = p[:-1] + [rng.choice(alpha)]
            if rng.random() < .2: p = m[b:]
            ps.append(p[:p.index(0)] if 0 in p else p)
        for v in vs[1:6]:
            p = m[v[0]:v[1]]
            if p and 0 not in p: ps += [p, p + [97], p[:-1]]
        res.append({"mem": m, "vs": vs, "qs": qs, "ps": ps})
    return res


def text(c):
    return " ".join(map(str, [len(c["mem"])] + c["mem"] + [len(c["vs"])] + [x for v in c["vs"] for x in v] + [len(c["qs"])] + c["qs"] +
                        [len(c["ps"])] + [x for p in c["ps"] for x in [len(p)] + p]))


FIXED = {"len": [0, 1, 4, 8, 0, 3, 2, 0], "empty": [1, 0, 0, 0, 1, 0, 0, 1], "null": [0] * 7 + [1]}


def want(w, cpp):
    r = {k: w[k] for k in ("len", "empty", "null", "cmp", "eq", "starts", "first", "last")}
    if cpp:
        n = len(w["len"])
        r["mempty"] = w["empty"]
        r["to_std"] = r["from_std"] = [1] * n
        for k in "123":
            r["eq" + k] = w["eq"]
            r["ne" + k] = [[1 - x for x in row] for row in w["eq"]]
        r["lt"] = r["lt2"] = [[int(x < 0) for x in row] for row in w["cmp"]]
    return {"shared": r, "apart": r, "str": w["str"]}


def judge(exes, cs, lang=("c", "cpp")):
    """the first deviation: (case, text), or None"""
    for exe, name in zip(exes, ("c", "cpp")):
        if name not in lang: continue
        out, heads = pure.run_parallel(exe, [text(c) for c in cs], 1)
        if heads:
            d = pure.diff(FIXED, heads[0]["fixed"])
            if d: return None, "literals and null (%s): %s" % (name, d)
        for i in sorted(out):
            l, crash = out[i]
            if crash: return cs[i], "%s: %s" % (name, crash)
            d = pure.diff(want(cs[i]["want"], name == "cpp"), l)
            if d: return cs[i], "compiled as %s: %s\nmemory %s views %s bytes %s prefixes %s" % (name, d, cs[i]["mem"], cs[i]["vs"], cs[i]["qs"], cs[i]["ps"])
    return None


def big(exe, pairs):
    p = subprocess.run([exe], input="\n".join("%d %d %d %d" % (*x["a"], *x["b"]) for x in pairs), stdout=subprocess.PIPE, text=True, timeout=120)
    if p.stdout.startswith("nomem"): return None, 0
    lines = p.stdout.strip().split("\n")
    for i, x in enumerate(pairs):
        if i >= len(lines): return "lengths %s %s: the comparison fails" % (x["a"], x["b"]), i
        w = "%d %d %d %d %d %d %d" % (x["cmp"], x["eq"], *x["len"], *x["last"], x["starts"])
        if lines[i] != w: return "zeroes, lengths (2^30, 1) %s %s: cmp eq len last starts expected %s, observed %s" % (x["a"], x["b"], w, lines[i]), i
    return None, len(pairs)


def check(ctx, Violation):
    t0 = time.time()
    budget = 0 if ctx.quick else 420
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "comparisons": 0, "samples": []}
    with cf.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, ctx)
        rnd = 0
        while True:
            rng = random.Random("sv/%d/%d" % (ctx.seed, rnd))
            # everything short in the first round, longer ones in all
            files, r = pure.tlc_files("SvExec", ctx, cases(rng, 150 if ctx.quick else 400), {"VF_MAXLEN": ("4" if ctx.quick else "6") if rnd == 0 else "0"})
            exes = fut.result()
            b = files.pop("big")
            cs = [files[k] for k in sorted(files)]
            cov["states"] += r.distinct
            cov["transitions"] += r.generated - len(cs)
            bad = judge(exes[:2], cs)
            if bad:
                raise Violation(bad[1], ctx.replayFile({"kind": "sv", "case": bad[0], "text": bad[1]}), cov)
            if rnd == 0:
                t, n = big(exes[2], b)
                if t: raise Violation(t, ctx.replayFile({"kind": "sv-big", "pairs": b, "text": t}), cov)
                cov["lengths_beyond_2^31"] = n
                cov["samples"] = [cs[ctx.seed % len(cs)]]
            cov["traces_validated_against_impl"] += 2 * len(cs)
            cov["comparisons"] += sum(4 * len(c["vs"]) ** 2 for c in cs)
            rnd += 1
            if time.time() - t0 > budget: break
    return cov


def replay(ctx, d):
    exes = build(ctx)
    if d["kind"] == "sv-big": return big(exes[2], d["pairs"])[0]
    files, _ = pure.tlc_files("SvExec", ctx, [{k: d["case"][k] for k in ("mem", "vs", "qs", "ps")}] if d["case"] else [], {"VF_MAXLEN": "0"})
    files.pop("big")
    bad = judge(exes[:2], list(files.values()))
    return bad and bad[1]
