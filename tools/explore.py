"""Small worlds explored exhaustively by TLC (spec/Explore.tla) and scripts which perform every transition found."""
import collections, itertools, json, os, random, re
import common, gen
from gen import NOFT

BASE = 720720


def T(k): return BASE + k


def lists(nm, most): return [list(p) for k in range(1, most + 1) for p in itertools.permutations(range(1, nm + 1), k)]


def e(k, m, n=-1, iv=-9, uv=-9, tp=False): return {"k": k, "m": m, "n": n, "iv": iv, "uv": uv, "tp": tp}


def regs(u): return [{"o": "regM", "m": m, "d": 1, "via": "p"} for m in range(1, len(u["mixs"]) + 1)]


def getT(ms, kind="i"): return {"o": "getT", "d": 1, "md": 1, "ms": ms, "kind": kind, "via": "p"}


def obj(o, ob=1, **kw): return {"o": o, "ob": ob, "ft": dict(NOFT), "via": "p", **kw}


def fault(k, m, h="thr"): return {"k": k, "m": m, "h": h if k != "al" else ""}


def fam_registry(rng, deep):
    u = gen.universe(rng, nd=(2, 2), nm=(3, 3), nf=(2, 2), nr=(0, 1), nt=(2, 2), fs=(0, 1), samename=.4, dup=.5, dep=.1)
    a = []
    for d in (1, 2):
        for m in (1, 2, 3): a += [{"o": "regM", "m": m, "d": d}, {"o": "unregM", "m": m, "d": d}]
        for f in (1, 2): a += [{"o": "regF", "f": f, "d": d}, {"o": "unregF", "f": f, "d": d}]
    for t in (1, 2): a += [{"o": "regT", "t": t, "d": 1}, {"o": "unregT", "t": t, "d": 1}]
    for x in a: x["via"] = rng.choice("ppc")
    return {"u": u, "nob": 1, "pre": [], "alpha": a, "depth": 6 if deep else 5}


def fam_types(rng, deep):
    u = gen.universe(rng, nd=(1, 1), nm=(3, 3), nf=(1, 2), nr=(2, 2), nt=(0, 0), fs=(0, 2), dep=.3, emptyname=0, samename=0, dup=0,
                     rk={"addif": 5, "add": 2, "rem": 3, "back": 3, "mutex": 2, "sub": 2, "tog": 1, "app": 1, "err": 1, "thr": 1})
    a = [getT([])] + [getT(l, rng.choice("im")) for l in lists(3, 3)]
    a += [{"o": "gc", "d": 1, "via": "p"}]
    for r in (1, 2): a += [{"o": "addR", "r": r, "d": 1, "via": "p"}, {"o": "remR", "r": r, "d": 1, "via": "p"}]
    m = rng.randint(1, 3)
    a += [{"o": "unregM", "m": m, "d": 1, "via": "p"}, {"o": "regM", "m": m, "d": 1, "via": "p"}]
    a += [obj("newT", d=1, t=T(k), al=0, seal=False) for k in range(2)] + [obj("del")]
    return {"u": u, "nob": 1, "pre": regs(u), "alpha": a, "depth": 4 if deep else 3}


def small_objects(rng):
    return gen.universe(rng, nd=(1, 1), nm=(3, 3), nf=(0, 1), nr=(0, 0), nt=(0, 0), fs=(0, 0), dep=0, emptyname=0, samename=0, dup=0, ext=.35, alloc=.25, no=.12, canon=.15)


def with_init(u):
    for x in u["mixs"][:2]: x["no"] = [f for f in x["no"] if f != "i"]
    return u


def fam_mutation(rng, deep):
    u = with_init(small_objects(rng))
    ts = [[], [1], [1, 2], [2, 1], [1, 2, 3], [3], [3, 2]]
    # in most worlds all types are there from the start, so that steps lead back to states met before
    if rng.random() < .7: ts += [l for l in lists(3, 3) if l not in ts]
    pre = regs(u) + [getT(l) for l in ts[1:]]
    a = [obj("newE", d=1, al=1), obj("del"), obj("clear"), obj("set", i=0, v=3), obj("seal")]
    for k in range(7):
        a.append(obj("reset", d=1, t=T(k)))
        if k < 6:
            a += [obj("newT", d=1, t=T(k), al=1, seal=False), obj("newT", d=1, t=T(k), al=1, seal=False, ft=fault("al", k % 3)),
                  obj("reset", d=1, t=T(k), ft=fault("al", 0)), obj("reset", d=1, t=T(k), ft=fault("al", 1)), obj("reset", d=1, t=T(k), ft=fault("i", 1 + k % 3, "err"))]
    for m in (1, 2, 3):
        a += [obj("mutate", ops=[e("add", m, iv=5)], unw=False), obj("mutate", ops=[e("rem", m)], unw=m == 1),
              obj("mutate", ops=[e("add", m, iv=-1)], unw=False), obj("mutate", ops=[e("rem", m), e("add", m % 3 + 1, iv=7)], unw=False),
              obj("mutate", ops=[e("add", m), e("add", m % 3 + 1, iv=2, tp=u["mixs"][m % 3]["sz"] > 0)], unw=False, ft=fault("i", m)),
              obj("mutate", ops=[e("back", m)], unw=False), obj("mutate", ops=[e("add", m, iv=-3)], unw=False, via="c"),
              obj("gradual", ops=[e("addl", m), e("rem", m % 3 + 1)], end=["dtor", "apply", "throw"][m - 1], unw=False)]
        a += [obj("piece", d=1, t=T(4), ss=[{"k": "at", "i": m - 1, "nv": 4, "uv": 6}], unw=False),
              obj("piece", d=1, t=T(m), ss=[{"k": "next", "i": 0, "nv": 2, "uv": -2}, {"k": ["thr", "rb", "fin"][m - 1], "i": 0, "nv": 1, "uv": -2}], unw=False),
              obj("mutateTo", d=1, t=T(4 - m % 2), ops=[e("con", m, iv=6)], unw=False),
              obj("mutateTo", d=1, t=T(m + 1), ops=[e("con", m, iv=6, uv=3), e("con", m % 3 + 1, iv=-3 if m == 2 else 2, uv=-9)], unw=False, via="c")]
    return {"u": u, "nob": 1, "pre": pre, "alpha": a, "depth": 4 if deep else 3}


def fam_copies(rng, deep):
    u = with_init(small_objects(rng))
    if rng.random() < .4:
        no = rng.choice([("mi", "ma"), ("mi", "ma"), ("ci", "ca"), ("ma",), ("eq", "cm"), ("cm",)])
        x = rng.choice(u["mixs"])
        x["no"] = [f for f in gen.FNS if f in no or f in x["no"]]
    ts = [[], [1], [1, 2], [2, 1], [2, 3], [3, 1, 2]]
    pre = regs(u) + [getT(l) for l in ts[1:]]
    pre += [obj("newT", ob=1, d=1, t=T(1), al=1, seal=False), obj("newT", ob=2, d=1, t=T(rng.randint(0, 4)), al=rng.choice([1, 2]), seal=False)]
    a = []
    for o, s in ((1, 2), (2, 1)):
        a += [obj(k, ob=o, src=s, **({"fb": True} if k == "moveMatch" else {})) for k in ("massign", "copyFrom", "copyMatch", "moveMatch", "equals", "compare")]
        a += [obj("moveMatch", ob=o, src=s, fb=False)]
        a += [obj("clear", ob=o), obj("del", ob=o), obj("seal", ob=o), obj("set", ob=o, i=0, v=2)]
        a += [obj("copyFrom", ob=o, src=s, ft=f) for f in (fault("al", 0), fault("ci", 2), fault("ca", 1, "err"))]
        a += [obj("reset", ob=o, d=1, t=T(k)) for k in range(6)]
    a += [obj("massign", ob=1, src=1), obj("copyFrom", ob=2, src=2), obj("equals", ob=1, src=1)]
    a += [obj("mv", ob=3, src=1), obj("copy", ob=3, src=1, al=2), obj("copy", ob=3, src=2, al=0, via="c"), obj("copy", ob=3, src=1, al=1, ft=fault("al", 1)),
          obj("copy", ob=3, src=1, al=1, ft=fault("ci", 1)), obj("massign", ob=3, src=1), obj("massign", ob=1, src=3), obj("del", ob=3), obj("compare", ob=3, src=1),
          obj("newE", ob=1, d=1, al=0), *pre[-2:], obj("mv", ob=1, src=2), obj("copyFrom", ob=3, src=2), obj("moveMatch", ob=3, src=2, fb=True)]
    return {"u": u, "nob": 3, "pre": pre, "alpha": a, "depth": 4 if deep else 3}


def fam_messages(rng, deep):
    u = gen.universe(rng, nd=(1, 1), nm=(3, 3), nf=(2, 4), nr=(0, 0), nt=(0, 0), fs=(1, 3), dep=0, emptyname=0, samename=0, dup=0, clash=.8, alloc=0, ext=.1, no=0, canon=.2,
                     bids=[-1, 0, 0, 1], prios=[-1, 0, 0, 1])
    for x in u["mixs"]: x["sz"] = max(x["sz"], 1)
    tls = lists(3, 3)
    if not deep: tls = [l for l in tls if len(l) < 3] + [[1, 2, 3], [3, 1, 2], [2, 3, 1]]
    pre = regs(u) + [getT(l) for l in tls] + [obj("newE", d=1, al=0)]
    a = [obj("reset", d=1, t=T(k)) for k in range(len(tls))] + [{"o": "tinfo", "d": 1, "t": T(k), "via": "p"} for k in range(len(tls))]
    kinds = ["ret", "next", "nextq", "setq", "topq", "thr"] if deep else ["ret", "next", "setq", "topq"]
    for f in range(1, len(u["feats"]) + 1):
        for b in itertools.product(kinds, repeat=3):
            if not deep and rng.random() < .3: continue
            a.append(obj("call", f=f, arg=rng.randint(1, 9), beh=list(b), cb=rng.choice([0, 0, 1, 2, 9]) if u["feats"][f - 1]["mc"] else 0))
    return {"u": u, "nob": 1, "pre": pre, "alpha": a, "depth": 2}


def fam_edits(rng, deep):
    u = gen.universe(rng, nd=(1, 1), nm=(3, 3), nf=(2, 2), nr=(0, 1), nt=(0, 0), fs=(0, 2), dep=.1, emptyname=0, samename=rng.choice([0, 0, .3]), dup=rng.choice([0, 0, .3]), clash=.05, canon=.2)
    ts = [[], [1], [1, 2], [3, 1, 2]]
    pre = regs(u) + [getT(l) for l in ts[1:]] + ([{"o": "addR", "r": 1, "d": 1, "via": "p"}] if u["rules"] else [])
    pre += [{"o": "unregM", "m": 3, "d": 1, "via": "p"}] if rng.random() < .15 else []
    def edits(c):
        l = [e("dedup", 1)]
        for k in ("add", "addl", "rem", "back", "has") + (() if c else ("sadd", "saddl")):
            for m in (1, 2, 3):
                l.append(e(k, m))
                if not (c and k in ("add", "addl")): l.append(e(k, m, n=u["mixs"][m - 1]["n"]))
        for f in (1, 2):
            l += [e("impl", f), e("imps", f), e("impn", f, n=u["feats"][f - 1]["n"])]
        return l
    a = []
    for via in "pc":
        es = edits(via == "c")
        for t in range(4):
            for ops in itertools.product(es, repeat=2):
                if rng.random() < (.5 if deep else .12): a.append({"o": "tm", "d": 1, "t": T(t), "ops": list(ops) + ([rng.choice(es)] if rng.random() < .5 else []), "fin": False, "alt": rng.random() < .5, "via": via})
    return {"u": u, "nob": 1, "pre": pre, "alpha": a, "depth": 1}


def fam_c(rng, deep):
    """mutations and copies through the C interface, and afterwards through C++"""
    f = fam_mutation(rng, deep)
    a = []
    for x in f["alpha"]:
        if x["o"] in ("piece", "gradual", "set") or rng.random() < .2: a.append(x); continue
        x = {**x, "via": "c"}
        if x["o"] in ("newE", "newT"): x["al"] = 0
        if "ops" in x: x["ops"] = [{**s, "tp": False, "iv": -3 if s["iv"] == -1 else s["iv"]} for s in x["ops"]]
        a.append(x)
    a += [obj("newT", ob=2, d=1, t=T(1), al=0, seal=False, via="c"), obj("copy", ob=2, src=1, al=0, via="c"), obj("copyFrom", ob=1, src=2, via="c"), obj("mv", ob=2, src=1, via="c"),
          obj("compare", ob=1, src=2, via="c"), obj("del", ob=2, via="c")]
    return {**f, "nob": 2, "alpha": a}


FAMILIES = {"edits": fam_edits, "c": fam_c, "registry": fam_registry, "types": fam_types, "mutation": fam_mutation, "copies": fam_copies, "messages": fam_messages}

OF = {"C01": ["registry"], "C02": ["registry"], "C03": ["types"], "C04": ["types"], "C05": ["types"], "C06": ["types"], "C07": ["messages"], "C08": ["messages"],
      "C09": ["mutation"], "C10": ["mutation"], "C11": ["mutation"], "C12": ["mutation"], "C13": ["copies"], "C14": ["copies"], "C15": ["copies"], "C16": ["edits"],
      "C17": ["mutation"], "C18": ["mutation"], "C19": ["c"], "C21": ["mutation"]}


BACK = {"del", "unregM", "unregF", "unregT", "gc"}  # steps which lead to where one has been before


def explore(fams, work, timeout=500):
    """[(initial state, {state: [(letter, state)]})] per family"""
    f = os.path.join(work, "families.json")
    for x in fams: x["back"] = [k + 1 for k, l in enumerate(x["alpha"]) if l["o"] in BACK]
    json.dump([{**x, "u": {k: v for k, v in x["u"].items() if k != "strs"}} for x in fams], open(f, "w"))
    r = common.tlc("Explore", "Explore.cfg", work, env={"VF_FAMILIES": f}, timeout=timeout, workers=1)
    if not r.ok: raise RuntimeError("TLC: " + "\n".join(l for l in r.text.split("\n") if "VF_" not in l)[-6000:])
    res = [[None, collections.defaultdict(dict)] for _ in fams]
    for g in re.finditer(r'<<"VF_INIT", (\d+), <<(-?\d+), (-?\d+)>>>>', r.text): res[int(g[1]) - 1][0] = (g[2], g[3])
    for g in re.finditer(r'<<"VF_EDGE", (\d+), <<(-?\d+), (-?\d+)>>, (\d+), <<(-?\d+), (-?\d+)>>>>', r.text):
        res[int(g[1]) - 1][1][(g[2], g[3])][int(g[4])] = (g[5], g[6])
    return res, r


def tours(rng, init, edges, cap, length):
    """walks from the initial state which together take every edge (or as many of them as cap chosen at random)"""
    todo = {s: set(k) for s, k in edges.items()}
    total = sum(len(k) for k in todo.values())
    if total > cap:
        all_ = [(s, k) for s in sorted(todo) for k in sorted(todo[s])]
        todo = collections.defaultdict(set)
        for s, k in rng.sample(all_, cap): todo[s].add(k)
    todo = {s: k for s, k in todo.items() if k}
    walks = []
    while todo:
        s, walk, took = init, [], 0
        while len(walk) < length:
            if todo.get(s):
                loops = [k for k in todo[s] if edges[s][k] == s]
                k = min(loops) if loops else rng.choice(sorted(todo[s]))
                todo[s].discard(k)
                if not todo[s]: del todo[s]
                walk.append(k); s = edges[s][k]; took += 1
                continue
            # the nearest state with something left to do
            prev, q, goal = {s: None}, collections.deque([s]), None
            while q and goal is None:
                x = q.popleft()
                for k, y in edges.get(x, {}).items():
                    if y in prev: continue
                    prev[y] = (x, k)
                    if todo.get(y): goal = y; break
                    q.append(y)
            if goal is None: break
            path = []
            while goal != s: goal, k = prev[goal]; path.append(k)
            walk += reversed(path)
            for k in reversed(path): s = edges[s][k]
        if not took: break  # (what cannot be reached)
        walks.append(walk)
    return walks, total


def scripts(rng, kinds, deep, cap, length, work):
    """universes, scripts (numbered from 1 in these universes) and what was explored"""
    fams = [FAMILIES[k](rng, deep) for k in kinds]
    graphs, r = explore(fams, work)
    us, scs, cov = [], [], []
    for kind, f, (init, edges) in zip(kinds, fams, graphs):
        walks, total = tours(rng, init, edges, cap, length)
        us.append(f["u"])
        for wk in walks: scs.append({"u": len(us), "nob": f["nob"], "ops": f["pre"] + [f["alpha"][k - 1] for k in wk]})
        cov.append({"family": kind, "letters": len(f["alpha"]), "depth": f["depth"], "states": len(set(edges) | {y for x in edges.values() for y in x.values()}),
                    "transitions": total, "scripts": len(walks), "operations": sum(map(len, walks))})
    return us, scs, cov, r
