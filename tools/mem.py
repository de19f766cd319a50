"""C26: sizes, orders of infos, stock functions, owner references, forwarding."""
import concurrent.futures as cf
import json, os, random, time
import common, pure
from common import VERIF

FLAGS = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer", "-ffunction-sections", "-fdata-sections",
         "-I" + common.CODE, "-I" + VERIF + "/shim", "-pthread"]


def build(ctx):
    d = os.path.join(ctx.work, "mem")
    os.makedirs(d, exist_ok=True)
    cxx, cc = ["g++", "-std=c++17"] + FLAGS, ["gcc", "-std=c11"] + FLAGS
    src = [(cxx, VERIF + "/driver/mem_driver.cpp"), (cxx, common.CODE + "/dynamix/object_mutate_ops.cpp"),
           (cc, VERIF + "/driver/mem_c.c"), (cc, common.CODE + "/dnmx/mixin_common_funcs.c")]
    objs = [d + "/%d.o" % i for i in range(len(src))]
    common.compile_all([c + ["-c", s, "-o", o] for (c, s), o in zip(src, objs)])
    r = common.sh(cxx + objs + ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", d + "/mem"])
    if r.returncode: raise common.Broken("does not link: " + r.stdout[-3000:])
    return d + "/mem"


KINDS = ["v", "cv", "l", "cl", "r"]
ARGS = [[]] + [[a] for a in KINDS] + [[a, b] for a in KINDS for b in KINDS] + [[a] * 3 for a in KINDS] + \
    [["v", a, "l", "r", a, "cl"] for a in KINDS] + [[a, "r", "v", "l"] for a in KINDS]
REFS = ["l", "cl", "r"]
OPARGS = [[a] for a in REFS] + [[a, b] for a in REFS for b in REFS] + [[a] * 3 for a in REFS] + [["r", a, "l", "r", a] for a in REFS]
SMALL = list(range(0, 70)) + [96, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 65535, 65536, 65537]
BIG = [2 ** 20, 2 ** 24 - 1, 2 ** 24 + 1, 2 ** 30, 2 ** 30 + 3, 2 ** 31 - 70000]
POW = [0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 4096]


def memcase(rng, thorough):
    n = rng.choice([8, 24, 40, 64] + ([160, 600] if rng.random() < .3 else []))
    m = [rng.choice([0, 1, 254, 255, 128, rng.randrange(256)]) for _ in range(n)]
    if rng.random() < .5:
        k = rng.randint(1, n // 2)
        m = (m[:k] * n)[:n]
    ops = []
    for _ in range(rng.randint(3, 14)):
        o = rng.choice(["init", "copy", "copy", "move", "move", "movecopy", "destroy", "cmp", "cmp", "eq", "eq", "ninit", "ncopy", "nmove", "ncmp", "own", "own", "of", "ofc"])
        if o in ("own", "of", "ofc"):
            p = 8 * rng.randint(1, n // 8)
            ops.append({"o": o, "p": p, "q": 0, "n": rng.randint(0, 6), "l": 0})
            continue
        # two areas which do not overlap
        s = min(n // 2, rng.choice([0, 1, 2, 3, 7, 8, 9, rng.randint(0, n // 2), n]))
        p = rng.randint(0, n - 2 * s)
        q = rng.randint(p + s, n - s)
        if rng.random() < .5: p, q = q, p
        if o in ("cmp", "eq") and rng.random() < .25: q = p
        if o in ("cmp", "eq") and rng.random() < .6 and s:
            ops.append({"o": "copy", "p": p, "q": q, "n": s, "l": 0}) if p != q else None
        ops.append({"o": o, "p": p, "q": q, "n": s, "l": rng.randint(0, 1)})
    return {"k": "mem", "m": m, "ops": ops}


def cases(rng, thorough, first):
    res = []
    if first:
        for n in list(range(1, 66 if not thorough else 260)) + [96, 100, 127, 128, 255, 256, 1000, 4096, 65536]: res.append({"k": "mul", "s": SMALL + BIG, "n": n})
        for a in POW: res.append({"k": "size", "s": SMALL + BIG, "a": a})
        for t in ("l", "cl", "r"): res.append({"k": "args", "l": ARGS, "t": [t] * len(ARGS), "w": [t] * len(ARGS)})
        for w in ("add", "construct"): res.append({"k": "args", "l": OPARGS, "t": ["r"] * len(OPARGS), "w": [w] * len(OPARGS)})
        # ids are 32 bit numbers; here as signed ones
        res.append({"k": "ids", "v": [0, 1, 2, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31 - 1, -2 ** 31, -2, -1]})
    for _ in range(40): res.append({"k": "mul", "s": [rng.randrange(2 ** rng.randint(1, 30)) for _ in range(60)], "n": rng.randint(1, 2 ** rng.randint(1, 20))})
    for _ in range(40): res.append({"k": "size", "s": [rng.randrange(2 ** rng.randint(1, 30)) for _ in range(30)], "a": rng.choice(POW)})
    for _ in range(20): res.append({"k": "ids", "v": [rng.randrange(-2 ** 31, 2 ** 31) for _ in range(8)]})
    for _ in range(150 if not thorough else 400):
        ps = rng.choice([[0], [-1, 0, 1], [-2 ** 31, 2 ** 31 - 1, 0, -2 ** 31 + 1], [-5, 5]])
        ns = rng.choice([[[]], [[97], [97, 98], [98], []], [[200], [97], [0], [0, 0]], [[97] * 9 + [k] for k in (97, 98, 200)]])
        ids = rng.choice([[-1], [0, 1, 2, -1], list(range(40)), [2 ** 31 - 1, 0, -1]])
        res.append({"k": "order", "i": [{"p": rng.choice(ps), "n": rng.choice(ns), "id": rng.choice(ids), "at": k} for k in range(rng.randint(2, 10))]})
    for _ in range(300 if not thorough else 1200): res.append(memcase(rng, thorough))
    return res


BLANK = {"id": -1, "reg": 0, "dom": 0, "name": "", "s": {"size": 0, "align": 0, "buf": 8, "off": 8}, "f": [0] * 8, "rest": 1, "ext": 1}


def fixed_want(got):
    """the values of fresh infos and of the macros; sizes of types are those of the compiler, buffers are judged by the specification"""
    macros = []
    for k, name in enumerate(["one", "eleven", "mixed_up", "wide", "shorts", "nothing at all", ""]):
        g = got["macros"][k] if k < len(got["macros"]) else {"size": 0, "align": 0}
        s, a = g["size"], g["align"]
        m = max(8, a)
        macros.append({"name": name, "i": {**BLANK, "name": name, "ext": 0, "s": {"size": s, "align": a, "buf": s + m, "off": m} if k < 5 else BLANK["s"],
                                           "f": [1, 1, 1, 1, 1, 0, 0, 0] if k < 5 else [2, 2, 2, 2, 2, 0, 0, 2]}})
    return {"blank": [BLANK] * 3, "named": [1, 1], "features": [[-1, "", 0, 0, 0]] * 3 + [[-1, "feat", 1, 2, 0], [-1, "feat3", 0, 0, 0]], "macros": macros,
            "invalid": [2 ** 32 - 1] * 5 + [8], "parentheses": [2, 1, 0, 2]}


def want(c, w):
    w = w["want"]
    if c["k"] == "size": return [w, w, w]
    if c["k"] == "order": return [w, w]
    if c["k"] == "ids": return [w] * 4
    return w


def judge(exe, cs, ws):
    out, heads = pure.run_parallel(exe, [json.dumps(c) for c in cs], 1)
    if heads:
        d = pure.diff(fixed_want(heads[0]), heads[0])
        if d: return None, "fresh infos and macros: " + d
    for i in sorted(out):
        l, crash = out[i]
        if crash: return cs[i], crash + "\n" + json.dumps(cs[i])[:1500]
        d = pure.diff(want(cs[i], ws[i]), l["got"])
        if d: return cs[i], "%s\ncase: %s" % (d, json.dumps(cs[i])[:1500])
    return None


def expect(ctx, cs):
    files, r = pure.tlc_files("MemExec", ctx, cs)
    return [files[str(i + 1)] for i in range(len(cs))], r


def check(ctx, Violation):
    t0 = time.time()
    budget = 0 if ctx.quick else 400
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases": {}, "samples": []}
    with cf.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build, ctx)
        rnd = 0
        while True:
            rng = random.Random("mem/%d/%d" % (ctx.seed, rnd))
            cs = cases(rng, not ctx.quick, rnd == 0)
            ws, r = expect(ctx, cs)
            exe = fut.result()
            bad = judge(exe, cs, ws)
            cov["states"] += r.distinct
            cov["transitions"] += r.generated - len(cs)
            if bad: raise Violation(bad[1], ctx.replayFile({"kind": "mem", "case": bad[0], "text": bad[1]}), cov)
            cov["traces_validated_against_impl"] += len(cs)
            for c in cs: cov["cases"][c["k"]] = cov["cases"].get(c["k"], 0) + 1
            if rnd == 0:
                m = [i for i, c in enumerate(cs) if c["k"] == "mem"]
                i = m[ctx.seed % len(m)]
                cov["samples"] = [{"case": cs[i], "expected": ws[i]["want"][-1]}]
            rnd += 1
            if time.time() - t0 > budget: break
    return cov


def replay(ctx, d):
    exe = build(ctx)
    cs = [d["case"]] if d["case"] else []
    if not cs: cs = [{"k": "ids", "v": [1]}]
    ws, _ = expect(ctx, cs)
    bad = judge(exe, cs, ws)
    return bad and bad[1]
