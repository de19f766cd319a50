"""The checks of all properties."""
import concurrent.futures as cf
import json, os, random, shutil, sys, time
import common, conc, defs, explore, gen, known, mem, profiles, sv, v1, world
from common import VERIF


class Violation(Exception):
    def __init__(self, text, replay, coverage):
        super().__init__(text)
        self.text, self.replay, self.coverage = text, replay, coverage


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.work = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        common.BUILD = self.work

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def replayFile(self, data):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (self.prop, self.seed))
        json.dump(data, open(f, "w"))
        return f

    def evidence(self, coverage, wall, violations=0):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump({"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": LEVEL.get(self.prop, "model_checking"),
                   "coverage": coverage, "wall_s": round(wall, 2), "violations": violations},
                  open(os.path.join(d, self.prop + ".json"), "w"), indent=1)


LEVEL = {}


# ---------------------------------------------------------------------- world: scripts against the library
def make_scripts(rng, prop, n, length):
    us, scs = [], []

    def add(p, k):
        L = p.get("length", length)
        for _ in range(k):
            u = gen.universe(rng, **p["u"])
            us.append(u)
            for _ in range(2):
                g = gen.Gen(rng, u, p["w"], fault=p.get("fault", .12), via=p.get("via", .3), length=L, nob=rng.choice([3, 5, 6]),
                            foreign=p.get("foreign", .05), setup=rng.random() < p.get("setup", .93), rt=p.get("rt", .12))
                s = g.script()
                s["u"] = len(us)
                scs.append(s)
    add(profiles.P[prop], n * 7 // 20)
    few = {**profiles.P[prop], "u": {**profiles.P[prop]["u"], **profiles.FEW["u"]}}
    add(few, n // 20)
    add(profiles.P["all"], n // 10)
    many = {**profiles.P[prop], "u": {**profiles.P[prop]["u"], **profiles.MANY["u"]}, "length": profiles.MANY["length"]}
    add(many, max(1, n // 80))
    return us, scs


def minimize(ctx, exe, u, con, text, budget=60):
    """drops operations as long as the deviation stays"""
    t0 = time.time()
    best, btext = con, text
    while time.time() - t0 < budget and len(best["ops"]) > 1:
        n = len(best["ops"])
        size = max(1, n // 8)
        cands = []
        for at in range(0, n, size):
            ops = best["ops"][:at] + best["ops"][at + size:]
            if ops: cands.append({"u": 1, "nob": best["nob"], "ops": ops})
        steps, r = world.expect([u], cands, ctx.work)
        bads, _, _ = world.check(exe, [u], cands, steps, ctx.work, ctx.prop == "C09")
        if not bads:
            if size == 1: break
            # try single operations
            cands = [{"u": 1, "nob": best["nob"], "ops": best["ops"][:k] + best["ops"][k + 1:]} for k in range(n)]
            steps, r = world.expect([u], cands, ctx.work)
            bads, _, _ = world.check(exe, [u], cands, steps, ctx.work, ctx.prop == "C09")
            if not bads: break
        i, btext = min(bads, key=lambda b: len(steps[b[0]]))
        best = world.concrete(cands[i], steps[i])
        beststeps = steps[i]
    steps, r = world.expect([u], [{**best, "u": 1}], ctx.work)
    return best, steps[0], btext


COMPAT = {"C21"}


def compat_driver():
    try: return common.build_driver("world-compat", VERIF + "/driver/world_driver.cpp", defs=("_LIBCPP_VERSION=15000",), link=("-Wl,--wrap=aligned_alloc", "-Wl,--wrap=free"))
    except common.Broken: return False


def world_check(ctx):
    n = 170 if ctx.quick else 260
    length = 90 if ctx.quick else 160
    budget = 0 if ctx.quick else 480
    t0 = time.time()
    with cf.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(common.build_driver, "world", VERIF + "/driver/world_driver.cpp")
        cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "operations": {}, "results": {}, "deviations_KF1": 0, "samples": []}
        rnd, second = 0, None
        while True:
            rng = random.Random("%s/%d/%d" % (ctx.prop, ctx.seed, rnd))
            us, scs = make_scripts(rng, ctx.prop, n, length)
            if ctx.prop in explore.OF:
                # small worlds, exhaustively
                eu, es, ec, er = explore.scripts(rng, 2 * explore.OF[ctx.prop], not ctx.quick, 2500 if ctx.quick else 9000, 90, ctx.work)
                scs += [{**s, "u": s["u"] + len(us)} for s in es]
                us += eu
                cov["states"] += er.distinct
                cov["transitions"] += er.generated - len(eu)
                cov.setdefault("explored", []).extend(ec)
            steps, r = world.expect(us, scs, ctx.work)
            exe = fut.result()
            if rnd == 0:
                lines, dev = known.look(ctx.prop, exe, ctx.work)
                for l in lines: print(l, flush=True)
                if lines: cov["known_findings"] = lines
                if dev: raise Violation("the witness of a known finding behaves in another way: " + dev, ctx.replayFile({"kind": "world", "universe": known.KF1, "script": {"nob": 1, "ops": known.KF1_OPS}, "text": dev}), cov)
            bads, outs, done = world.check(exe, us, scs, steps, ctx.work, ctx.prop == "C09")
            bads = [("", exe, *b) for b in bads]
            if ctx.prop in COMPAT and not bads:
                # the same with the library's own memory resources and allocators, which stand in where there are no std::pmr
                if second is None: second = compat_driver()
                if second:
                    b2, _, d2 = world.check(second, us, scs, steps, ctx.work, False)
                    bads = [("compat", second, *b) for b in b2]
                    cov["traces_with_own_memory_resources"] = cov.get("traces_with_own_memory_resources", 0) + len(d2)
            cov["states"] += r.distinct
            cov["transitions"] += r.generated - len(scs)
            cov["traces_validated_against_impl"] += len(done)
            if ctx.prop == "C09": cov["layouts_judged"] = len(world.JUDGED)
            for i in done:
                for s in steps[i]:
                    for d, k in ((cov["operations"], s["op"]["o"]), (cov["results"], s["r"])): d[k] = d.get(k, 0) + 1
            if rnd == 0 and done:
                i = done[ctx.seed % len(done)]
                cov["samples"] = [{"script": world.concrete(scs[i], steps[i])["ops"][:8], "results": [s["r"] for s in steps[i]][:8],
                                   "last_state": steps[i][-1]["obs"] if steps[i] else None}]
            for build, exe_, i, text in bads[:5]:
                u = us[scs[i]["u"] - 1]
                con = world.concrete(scs[i], steps[i])
                con["u"] = 1
                # once more, to be sure
                s2, _ = world.expect([u], [con], ctx.work)
                b2, _, _ = world.check(exe_, [u], [con], s2, ctx.work, ctx.prop == "C09")
                if b2:
                    con, st, text = minimize(ctx, exe_, u, con, b2[0][1])
                    f = ctx.replayFile({"kind": "world", "universe": u, "script": con, "text": text, "build": build})
                    raise Violation("%s\nscript:\n%s" % (text, "\n".join("  " + json.dumps(o) for o in con["ops"])), f, cov)
            rnd += 1
            if time.time() - t0 > budget: break
    return cov


def replay(ctx, f):
    d = json.load(open(f))
    if d["kind"] == "world":
        exe = compat_driver() if d.get("build") else common.build_driver("world", VERIF + "/driver/world_driver.cpp")
        s, _ = world.expect([d["universe"]], [{**d["script"], "u": 1}], ctx.work)
        b, _, _ = world.check(exe, [d["universe"]], [{**d["script"], "u": 1}], s, ctx.work, ctx.prop == "C09")
        ctx.cleanup()
        if b:
            print(b[0][1])
            print("VIOLATION property=%s replay=%s" % (ctx.prop, f))
            return 1
        print("no deviation")
        return 0
    if ctx.prop in PURE:
        t = PURE[ctx.prop].replay(ctx, d)
        print("%s\nVIOLATION property=%s replay=%s" % (t, ctx.prop, f) if t else "no deviation")
        return 1 if t else 0
    raise SystemExit("unknown kind of replay")


PURE = {"C20": conc, "C22": sv, "C23": v1, "C24": v1, "C25": defs, "C26": mem}


def run(ctx):
    if ctx.prop in PURE: return PURE[ctx.prop].check(ctx, Violation)
    if ctx.prop in profiles.P and ctx.prop != "all": return world_check(ctx)
    raise SystemExit("unknown property " + ctx.prop)
