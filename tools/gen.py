"""Universes and scripts for spec/Exec.tla and the world driver."""
import random

FNS = ["i", "ci", "ca", "mi", "ma", "d", "eq", "cm"]
NOFT = {"k": "", "m": 0, "h": ""}


def names(rng, n):
    """n distinct byte strings, the empty one first, ordered byte-wise; many prefixes and shared bytes"""
    out = {()}
    pool = [rng.choice([0x61, 0x62, 0x41, 0x7f, 0x80, 0xff, 0x2e, 0x00, 0x5f, 0x39]) for _ in range(4)]
    dry = 0
    while len(out) < n:
        k = len(out)
        base = rng.choice(sorted(out)) if rng.random() < .6 else ()
        s = tuple(base) + tuple(rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3])))
        out.add(s[:12])
        if len(out) == k: dry += 1
        if dry > 200: pool.append(rng.randrange(256))  # few distinct bytes allow for few strings
    return [list(x) for x in sorted(out)]


DEF_U = dict(nd=(1, 2), nm=(4, 8), nf=(2, 6), nr=(0, 5), nt=(0, 4), dep=.2, ext=.25, no=.08, canon=.3, dup=.1,
             noinit=.1, noeq=.08, emptyname=.03, samename=.05, clash=.6, alloc=.2,
             rk={"addif": 5, "add": 3, "rem": 3, "back": 3, "mutex": 3, "sub": 2, "tog": 1, "app": 1, "err": 1, "thr": 1, "none": 1, "null": .5},
             bids=[-1, 0, 0, 0, 1, 2], prios=[-1, 0, 0, 1], fs=(0, 4), orders=[-1, 0, 0, 0, 1], rprios=[-2, 0, 0, 0, 1, 5], sizes=[])


def wchoice(rng, d):
    ks = list(d)
    return rng.choices(ks, [d[k] for k in ks])[0]


def universe(rng, **kw):
    P = {**DEF_U, **kw}
    nd, nm, nf, nr, nt = (rng.randint(*P[k]) for k in ("nd", "nm", "nf", "nr", "nt"))
    dup = rng.random() < P["dup"]
    nn = max(nm, nf, nr, nt) + rng.randint(2, 6)
    strs = names(rng, nn)

    def pickNames(n, same=None):
        same = P["samename"] if same is None else same
        ns = rng.sample(range(1, nn), n)
        for i in range(n):
            if rng.random() < same: ns[i] = rng.choice(ns)
            if rng.random() < P["emptyname"]: ns[i] = 0
        return ns
    b = lambda p: rng.random() < p
    dupM = [b(.5) if dup else False for _ in range(nd)]
    dupF = [b(.5) if dup else False for _ in range(nd)]
    fn = pickNames(nf, .3 if dup else None)
    feats = [{"n": fn[k], "cl": b(P["clash"]), "df": b(.35), "mc": k % 2 == 1} for k in range(nf)]
    mn = pickNames(nm, .3 if dup else None)
    mixs = []
    for m in range(nm):
        no = [f for f in FNS if b(P["noinit"] if f == "i" else P["no"] + P["noeq"] if f == "eq" else P["no"])]
        if b(P.get("grp", P["no"] / 2)): no = sorted(set(no) | set(rng.choice([("mi", "ma"), ("mi", "ma"), ("ci", "ca"), ("eq", "cm")])), key=FNS.index)
        sz, ag = rng.choice([(0, 1), (1, 1), (2, 1), (3, 1), (4, 4), (8, 8), (8, 1), (16, 8), (12, 4), (24, 8), (40, 8), (16, 16), (32, 32), (96, 32),
                             (64, 64), (1, 1), (10, 2), (100, 4), (128, 128), (0, 0)] + P["sizes"])
        n = rng.randint(*P["fs"]) if nf else 0
        fs = []
        for _ in range(n):
            f = rng.randint(1, nf)
            if any(x["f"] == f for x in fs) and rng.random() < .85: continue
            fs.append({"f": f, "b": rng.choice(P["bids"]), "p": rng.choice(P["prios"])})
        mixs.append({"n": mn[m], "sz": sz, "ag": ag, "p": rng.choice(P["orders"]), "dep": b(P["dep"]), "fe": b(P["ext"]),
                     "al": rng.choice([1, 2]) if b(P["alloc"]) else 0, "no": no, "fs": fs})
    rn = pickNames(nr, .2)
    rules = [{"n": rn[r], "p": rng.choice(P["rprios"]), "k": wchoice(rng, P["rk"]), "a": rng.randint(1, nm), "b": rng.randint(1, nm)} for r in range(nr)]
    tn = pickNames(nt)
    tcs = []
    for t in range(nt):
        k = rng.choice(["has", "has", "num", "impl", "null" if b(.2) else "has"])
        if k == "impl" and not nf: k = "num"
        tcs.append({"n": tn[t], "k": k, "a": rng.randint(1, {"has": nm, "num": 3, "impl": max(nf, 1), "null": 1}[k])})
    return {"canon": [b(P["canon"]) for _ in range(nd)], "dupM": dupM, "dupF": dupF, "feats": feats, "mixs": mixs, "rules": rules,
            "tcs": tcs, "names": nn, "strs": strs}


# relative frequency of the operations
BASE = dict(regF=1, unregF=1, regM=3, unregM=2, regT=1, unregT=1, addR=2, remR=1.5, gc=1.5, getT=8, tinfo=4, tcmp=.7, tm=2,
            newE=1.5, newT=5, dele=3, clear=1, seal=.4, mv=1.2, massign=1.5, copy=2, copyFrom=2, copyMatch=1, moveMatch=1.2,
            equals=1.2, compare=1.5, reset=4, set=5, mutate=5, mutateTo=3, gradual=2, piece=3, call=5, twin=.8, dump=0)


class Gen:
    def __init__(self, rng, u, weights=None, fault=.12, via=.3, length=60, nob=6, foreign=.05, setup=True, rt=.12):
        self.r, self.u = rng, u
        self.w = {**BASE, **(weights or {})}
        self.fault, self.via, self.length, self.nob, self.foreign, self.setup = fault, via, length, nob, foreign, setup
        self.rt = rt
        self.nm, self.nf, self.nr, self.nt, self.nd = len(u["mixs"]), len(u["feats"]), len(u["rules"]), len(u["tcs"]), len(u["canon"])
        if not self.nf: self.w["regF"] = self.w["unregF"] = self.w["call"] = 0
        if not self.nr: self.w["addR"] = self.w["remR"] = 0
        if not self.nt: self.w["regT"] = self.w["unregT"] = 0

    # -- pieces
    def m(self): return self.r.randint(1, self.nm)
    def d(self): return 1 if self.r.random() < .75 else self.r.randint(1, self.nd)
    def any(self): return (10080 if self.r.random() < .6 else 100) + self.r.randrange(5040)
    def c(self, p=None): return "c" if self.r.random() < (self.via if p is None else p) else "p"
    def val(self): return self.r.choice([1, 2, 2, 3, 5, 7, 11])
    def name(self): return self.r.randrange(self.u["names"])

    def nameOfMixin(self):
        ms = self.u["mixs"]
        x = self.r.choice(ms)["n"] if self.r.random() < .85 else self.name()
        return x

    def ft(self, kinds):
        if self.r.random() >= self.fault: return dict(NOFT)
        k = self.r.choice(kinds)
        if k == "al": return {"k": "al", "m": self.r.choice([0, 0, 1, 1, 2, 3]), "h": ""}
        return {"k": k, "m": self.m(), "h": self.r.choice(["err", "thr"])}

    def ms(self, maxn=5):
        n = min(self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, maxn]), maxn)
        pool = list(range(1, self.nm + 1))
        l = self.r.sample(pool, min(n, len(pool)))
        if self.r.random() < .06 and l: l.append(self.r.choice(l))
        return l

    def seen(self):
        """requests tend to be repeated"""
        if self.hist and self.r.random() < .55:
            l = list(self.r.choice(self.hist))
            x = self.r.random()
            if x < .2: self.r.shuffle(l)
            elif x < .3 and l: l.pop(self.r.randrange(len(l)))
            elif x < .4: l.insert(self.r.randint(0, len(l)), self.m())
            return l
        l = self.ms()
        self.hist.append(l)
        return l

    def edit(self, kinds, byname=.3, init=False, c=False):
        k = self.r.choice(kinds)
        s = {"k": k, "m": self.m(), "n": -1, "iv": -9, "uv": -9, "tp": False}
        if self.r.random() < byname: s["n"] = self.nameOfMixin()
        if init and k in ("add", "con"):
            x = self.r.random()
            if x < .6:
                s["iv"] = self.val()
                if not c and s["n"] == -1 and s["m"] <= 8 and self.r.random() < .4: s["tp"] = True
            elif x < .6 + self.fault / 2: s["iv"] = -3 if c else -1
            if k == "con" and s["iv"] == -9 and not c: s["iv"] = self.val()
            if k == "con" and c: s["uv"] = self.r.choice([-9, -9, -2, self.val(), -3 if self.r.random() < self.fault else -2])
        return s

    def op(self, o):
        r = self.r
        f = getattr(self, "op_" + o, None)
        x = f() if f else {}
        x.setdefault("o", "del" if o == "dele" else o)
        x.setdefault("via", self.c() if o not in self.CPP else "p")
        if x["o"] in self.OBJ:
            x.setdefault("ob", self.any())
            x.setdefault("ft", dict(NOFT))
        if x["o"] in self.DOM and self.rt and r.random() < self.rt and x.get("ft", NOFT)["k"] == "": x["rt"] = True
        return x
    # what allocates from the domain: may be performed with these allocations failing first
    DOM = {"regF", "regM", "regT", "addR", "getT", "tm", "mutate", "mutateTo", "gradual"}
    CPP = {"dump", "tinfo", "tcmp", "massign", "copyMatch", "moveMatch", "gradual", "piece", "call", "set", "equals"}
    OBJ = {"newE", "newT", "del", "clear", "seal", "mv", "massign", "copy", "copyFrom", "copyMatch", "moveMatch", "equals", "compare", "reset", "set",
           "mutate", "mutateTo", "gradual", "piece", "call"}

    def op_regF(self): return {"f": self.r.randint(1, self.nf), "d": self.d()}
    def op_unregF(self): return {"f": self.r.randint(1, self.nf), "d": self.d()}
    def op_regM(self): return {"m": self.m(), "d": self.d()}
    def op_unregM(self): return {"m": self.m(), "d": self.d()}
    def op_regT(self): return {"t": self.r.randint(1, self.nt), "d": self.d()}
    def op_unregT(self): return {"t": self.r.randint(1, self.nt), "d": self.d()}
    def op_addR(self): return {"r": self.r.randint(1, self.nr), "d": self.d()}
    def op_remR(self): return {"r": self.r.randint(1, self.nr), "d": self.d()}
    def op_gc(self): return {"d": self.d()}

    def op_getT(self):
        d = self.d()
        md = self.r.randint(1, self.nd) if self.r.random() < self.foreign else d
        k = "i" if md == d and self.r.random() < .5 else "m"
        return {"d": d, "md": md, "ms": self.seen(), "kind": k}
    def op_tinfo(self): return {"d": self.d(), "t": self.any()}

    FLAGS = [1, 2, 4, 8, 16, 32, 64, 0x100, 0x200, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000]
    def op_dump(self):
        what = self.r.choice(["dom", "dom", "dom", "type", "type", "mix", "mix", "feat", "rule", "tc"])
        x = self.r.random()
        fl = 0 if x < .25 else -1 if x < .45 else sum(f for f in self.FLAGS if self.r.random() < .6)
        n = {"mix": self.nm, "feat": self.nf, "rule": self.nr, "tc": self.nt}.get(what, 1)
        return {"d": self.d(), "t": self.any(), "what": what, "k": self.r.randint(1, n) if n else 0, "fl": fl}

    def op_tm(self):
        ks = ["add", "add", "sadd", "addl", "saddl", "rem", "rem", "back", "back", "dedup", "has", "impl", "imps", "impn"]
        via = self.c(max(.35, self.via))
        ops = []
        for _ in range(self.r.randint(1, 8)):
            k = self.r.choice(ks if via == "p" else [k for k in ks if k not in ("sadd", "saddl")])
            if k in ("impl", "imps", "impn"):
                if not self.nf: continue
                fn = self.r.choice(self.u["feats"])["n"] if self.r.random() < .85 else self.name()
                ops.append({"k": k, "m": self.r.randint(1, self.nf), "n": fn if k == "impn" else -1, "iv": -9, "uv": -9, "tp": False})
            else:
                s = self.edit([k], byname=0 if (via == "c" and k in ("add", "addl")) else .4)
                ops.append(s)
        return {"d": self.d(), "t": self.any(), "ops": ops, "fin": self.r.random() < .6, "alt": self.r.random() < .5, "via": via}

    def op_newE(self):
        via = self.c()
        return {"d": self.d(), "al": 0 if via == "c" else self.r.randrange(4), "via": via}
    def op_newT(self):
        via = self.c()
        return {"d": self.d(), "t": self.any(), "al": 0 if via == "c" else self.r.randrange(4), "seal": via == "p" and self.r.random() < .06,
                "ft": self.ft(["al", "i"]), "via": via}
    def op_mv(self): return {"src": self.any()}
    def op_massign(self): return {"src": self.any()}
    def op_equals(self): return {"src": self.any()}
    def op_compare(self): return {"src": self.any()}
    def op_copy(self):
        via = self.c()
        return {"src": self.any(), "al": 0 if via == "c" else self.r.randrange(4), "ft": self.ft(["al", "ci"]), "via": via}
    def op_copyFrom(self): return {"src": self.any(), "ft": self.ft(["al", "ci", "ca"])}
    def op_copyMatch(self): return {"src": self.any(), "ft": self.ft(["ca"])}
    def op_moveMatch(self): return {"src": self.any(), "fb": self.r.random() < .5}
    def op_reset(self): return {"d": 0, "t": self.any(), "ft": self.ft(["al", "i"])}
    def op_set(self): return {"i": self.any(), "v": self.val()}

    def op_mutate(self):
        via = self.c(max(.3, self.via))
        n = self.r.randint(1, 5) if via == "p" else self.r.randint(0, 6)
        kinds = ["add", "add", "rem", "rem", "back"] + (["what"] if via == "c" and self.r.random() < .08 else [])
        return {"ops": [self.edit(kinds, .25, True, via == "c") for _ in range(n)], "ft": self.ft(["al", "i"]),
                "unw": via == "p" and self.r.random() < .12, "via": via}

    def op_mutateTo(self):
        via = self.c(max(.35, self.via))
        n = self.r.choice([0, 1, 1, 2, 3, 5])
        ops = [self.edit(["con"], .25, True, via == "c") for _ in range(n)]
        d = 0 if self.r.random() < .95 else self.d()
        return {"d": d, "t": self.any(), "ops": ops, "ft": self.ft(["al", "i"]), "unw": via == "p" and self.r.random() < .12, "via": via}

    def op_gradual(self):
        return {"ops": [self.edit(["add", "addl", "rem", "back"], .25) for _ in range(self.r.randint(0, 5))],
                "end": self.r.choice(["dtor", "dtor", "apply", "apply", "cancel", "throw", "applythrow"]), "ft": self.ft(["al", "i"]),
                "unw": self.r.random() < .15}

    def op_piece(self):
        ss, at = [], 0
        for _ in range(self.r.randint(0, 4)):
            k = self.r.choice(["at", "at", "next", "next", "each", "def"] + (["thr"] if self.r.random() < self.fault else []))
            i = at + self.r.choice([0, 0, 1, 2]) if self.r.random() < .85 else self.r.randint(0, 7)
            nv = -1 if self.r.random() < self.fault / 2 else self.val()
            uv = self.r.choice([-2, self.val(), self.val()]) if self.r.random() >= self.fault / 2 else -1
            if k == "each" and self.r.random() < .5: i = 9
            ss.append({"k": k, "i": i, "nv": nv, "uv": uv})
            at = i + 1 if k == "at" else at + 1 if k == "next" else max(at, min(i, 8))
        if self.r.random() < .25:
            # ended by hand
            if self.r.random() < .6 and self.r.random() > self.fault: ss.append({"k": "def", "i": 9, "nv": 1, "uv": -2})
            k = self.r.choice(["fin", "fin", "rb"])
            ss.insert(self.r.randint(0, len(ss)) if k == "fin" and self.r.random() < .3 else len(ss), {"k": k, "i": 0, "nv": 1, "uv": -2})
            for _ in range(self.r.choice([0, 0, 1, 2])):
                k = self.r.choice(["fin", "rb", "thr", "thr"] + (["next", "at", "each", "def"] if k == "fin" else []))
                ss.append({"k": k, "i": self.r.choice([0, 1, 3, 9]), "nv": 1, "uv": -2})
        return {"d": 0, "t": self.any(), "ss": ss, "ft": self.ft(["al", "i"]), "unw": self.r.random() < .1}

    def op_call(self):
        f = self.r.randint(1, self.nf)
        mode = self.r.random()
        if mode < .35: beh = ["ret"] * self.nm
        else: beh = [self.r.choice(["ret", "next", "nextq", "set", "setq", "top", "topq", "nextq", "setq", "topq"] + (["thr"] if self.r.random() < .2 else [])) for _ in range(self.nm)]
        mc = self.u["feats"][f - 1]["mc"]
        return {"f": f, "arg": self.r.randint(1, 20), "beh": beh, "cb": self.r.choice([0, 0, 0, 1, 2, 9]) if mc else 0}

    def twin(self):
        """an object made like another one, changed a little, compared"""
        a, b = self.any(), self.any()
        ops = [self.op("copyFrom"), self.op("set"), self.op("compare"), self.op("equals"), self.op("compare"), self.op("equals")]
        if self.r.random() < .3: del ops[1]
        elif self.r.random() < .3: ops.insert(1, self.op("set"))
        for o in ops: o["ob"] = a
        for o in ops:
            if "src" in o: o["src"] = b
        for o in ops[-2:]: o["ob"], o["src"] = b, a
        return ops

    def script(self):
        self.hist = []
        ops = []
        if self.setup:
            for m in range(1, self.nm + 1):
                if self.r.random() < .85: ops.append({"o": "regM", "m": m, "d": 1 if self.nd == 1 or self.r.random() < .8 else self.r.randint(1, self.nd), "via": self.c()})
            self.r.shuffle(ops)
            for _ in range(3): ops.append(self.op("getT"))
            for _ in range(2): ops.append(self.op("newT"))
        while len(ops) < self.length:
            o = wchoice(self.r, self.w)
            ops += self.twin() if o == "twin" else [self.op(o)]
        return {"nob": self.nob, "ops": ops}
