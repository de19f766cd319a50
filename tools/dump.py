"""What the debug dump of a domain, or of something in it, has to say (from what the specification says is there)."""
import re

DOMS = ["dom1", "", "dom3"]
ALL = {"features": 1, "mixins": 2, "rules": 4, "classes": 8, "types": 16, "queries": 32, "settings": 64,
       "mex": 0x100, "mfe": 0x200, "tex": 0x1000, "tft": 0x2000, "tff": 0x4000, "ttc": 0x8000, "ttq": 0x10000}
DEFAULT = {"dom": 0xFFFFFFFF, "type": 0xFF000, "mix": 0xF00, "feat": 0, "rule": 0, "tc": 0xF00000}
APPLY = {False: "@", True: "none"}


def text(bs): return bytes(b if b >= 32 else 63 for b in bs).decode(errors="replace")


class Render:
    def __init__(self, U, op, x):
        self.U, self.op, self.x = U, op, x
        fl = op["fl"] & 0xFFFFFFFF or DEFAULT[op["what"]]
        self.has = lambda k: bool(fl & ALL[k])

    def name(self, n): return "'" + text(self.U["strs"][n]) + "'"
    def mixins(self, ms): return "{" + ", ".join(self.name(self.U["mixs"][m - 1]["n"]) for m in ms) + "}"

    def feature(self, f):
        F = self.U["feats"][f - 1]
        d, i = self.x["fr"][f - 1]
        return "feature: %s, %s, allow clashes: %s, class: #, default payload: %s" % (
            self.name(F["n"]), "id: %d" % i if d else "unregistered", "true" if F["cl"] else "false", "@" if F["df"] else "none")

    def mixin(self, m):
        X = self.U["mixs"][m - 1]
        d, i = self.x["mr"][m - 1]
        l = ["%smixin: %s, %s, %s, %d features" % ("dep-" if X["dep"] else "", self.name(X["n"]), "id: %d ('%s')" % (i, DOMS[d - 1]) if d else "unregistered",
                                                  "external" if self.x["ext"][m - 1] else "internal", len(X["fs"]))]
        if self.has("mex"):
            fn = lambda k: "none" if k in X["no"] else "@"
            l += ["  size: %d" % X["sz"], "  alignment: %d" % X["ag"], "  obj_buf_size: #", "  obj_buf_align: #"]
            l += ["  %s: %s" % (k, fn(s)) for k, s in (("init", "i"), ("copy_init", "ci"), ("move_init", "mi"), ("copy_asgn", "ca"), ("move_asgn", "ma"),
                                                        ("destroy", "d"), ("equals", "eq"), ("compare", "cm"))]
            l += ["  allocator: " + ("@" if X["al"] else "none"), "  class: #", "  type_info_class: #", "  user_data: %d" % m,
                  "  order_priority: %d" % X["p"], "  force_external: " + ("true" if X["fe"] else "false")]
        if self.has("mfe"):
            l.append("  %d features:" % len(X["fs"]))
            l += ["    %s: @ %d_bid %d_prio" % (self.name(self.U["feats"][f["f"] - 1]["n"]), f["b"], f["p"]) for f in X["fs"]]
        return l

    def rule(self, r):
        R = self.U["rules"][r - 1]
        return "rule: %s, prio: %d, ud: %d, apply: %s" % (self.name(R["n"]), R["p"], 0 if r % 2 else r, "none" if R["k"] == "null" else "@")

    def cls(self, t): return "type class: %s, match: %s" % (self.name(self.U["tcs"][t - 1]["n"]), "none" if self.U["tcs"][t - 1]["k"] == "null" else "@")

    def type(self, t):
        l = ["type: %s (@) ('%s')" % (self.mixins(t["ms"]), DOMS[self.op["d"] - 1])]
        if self.has("tex"):
            l += ["  size: #", "  obj buf size: #", "  obj buf align: #", "  num obj: %d" % t["n"]]
            l += ["  %s: %d" % (k, v) for k, v in zip(("default_constructible", "copy_constructible", "copy_assignable", "equality_comparable", "comparable"), t["tr"])]
            l.append("  features: %d" % len(t["ft"]))
        if self.has("tft"):
            l.append("  %d features:" % len(t["ft"]))
            for f in t["ft"]:
                l.append("    impl: %s %d/%d" % (self.name(self.U["feats"][f["f"] - 1]["n"]), f["top"], len(f["ps"])))
                if self.has("tff"):
                    l += ["      %s: @ with %d_bid %d_prio" % (self.name(self.U["mixs"][m - 1]["n"]), b, p) for m, b, p in f["ps"]]
        if self.has("ttc"):
            l.append("  matching type classes:")
            l += sorted("    " + text(self.U["strs"][self.U["tcs"][k - 1]["n"]]) for k in t["of"])
        return l

    def sparse(self, s, of):
        out, free = [], 0
        for v in s:
            if not v: free += 1; continue
            if free: out.append(["%d empty slots" % free])
            free = 0
            out.append(of(v))
        return out

    def blocks(self):
        """list of (section, blocks of lines); sections of which the order is open are sorted"""
        w, k, x = self.op["what"], self.op["k"], self.x
        if w == "type": return [("", [self.type(x["one"])])]
        if w == "mix": return [("", [self.mixin(k)])]
        if w == "feat": return [("", [[self.feature(k)]])]
        if w == "rule": return [("", [[self.rule(k)]])]
        if w == "tc": return [("", [[self.cls(k)]])]
        d = self.op["d"]
        out = [("", [["domain: '%s' (@), ud: %d, ctx : @, alloc: mr @" % (DOMS[d - 1], 500 + d)]])]
        tf = lambda b: "true" if b else "false"
        if self.has("settings"):
            out.append(("## Settings", [["  canonicalize_types: " + tf(self.U["canon"][d - 1])], ["  allow_duplicate_feature_names: " + tf(self.U["dupF"][d - 1])],
                                        ["  allow_duplicate_mixin_names: " + tf(self.U["dupM"][d - 1])]]))
        if self.has("features"): out.append(("## %d Features" % sum(1 for f in x["fs"] if f), self.sparse(x["fs"], lambda f: [self.feature(f)])))
        if self.has("mixins"): out.append(("## %d Mixins" % sum(1 for m in x["ms"] if m), self.sparse(x["ms"], self.mixin)))
        if self.has("rules"):
            l = [[self.rule(r) + ", %d refs" % c] for r, c in x["rs"]]
            if self.U["canon"][d - 1]: l.append(["rule of the domain"])
            out.append(("## %d Mutation Rules" % len(l), l))
        if self.has("types"): out.append(("## %d Types" % len(x["ty"]), sorted(self.type(t) for t in x["ty"])))
        if self.has("classes"): out.append(("## %d Type Classes" % len(x["ts"]), sorted([self.cls(t)] for t in x["ts"])))
        return out


def difference(U, op, x, got):
    """None, or how the text deviates from what it has to say"""
    R = Render(U, op, x)
    exp = R.blocks()
    known = {R.mixins(t["ms"]) for t in x["ty"]} | {"{}"}
    # what only this implementation can tell (addresses, sizes of its own) is left out
    got = re.sub(r"0x[0-9a-f]+", "@", got)
    got = re.sub(r"(?m)^(  (?:obj buf size|obj buf align|obj_buf_size|obj_buf_align|class|type_info_class)): \d+$", r"\1: #", got)
    got = re.sub(r"class: \d+, default payload", "class: #, default payload", got)
    got = re.sub(r"(?m)^(  features: \d+)/\d+$", r"\1", got)
    got = re.sub(r"(constructible|assignable|comparable): (true|false)", lambda m: m.group(1) + ": " + ("1" if m.group(2) == "true" else "0"), got)
    got = re.sub(r"(?m)^rule: '.*', prio: 2147483647, ud: \d+, apply: @, 1 refs$", "rule of the domain", got) # (makes types canonical)
    secs, queries = [("", [])], None
    left, classes = 0, None
    for line in got.split("\n"):
        if not line: continue
        if left:
            left -= 1
            if not re.match(r"    \{.*\}$", line): return "a matching query is missing before: " + line
            continue
        m = re.match(r"  (\d+) matching queries:$", line)
        if m:
            if not R.has("ttq"): return "queries which were not asked for: " + line
            left = int(m.group(1))
            continue
        m = re.match(r"## (\d+) Type Queries$", line)
        if m: queries = int(m.group(1)); continue
        m = re.match(r"tq: (\{.*\}) -> type: (\{.*\})$", line)
        if m and queries is not None:
            queries -= 1
            if m.group(2) not in known: return "a remembered answer is no type of the domain: " + line
            continue
        if line.startswith("## "): secs.append((line, []))
        elif line.startswith(" ") and secs[-1][1] and not secs[-1][0] == "## Settings": secs[-1][1][-1].append(line)
        else: secs[-1][1].append([line])
    if left: return "matching queries are missing at the end"
    if queries not in (None, 0): return "the number of type queries is not that of the ones which follow"
    if (op["what"] == "dom" and R.has("queries")) != (queries is not None): return "type queries are told when not asked for, or the other way round"
    out = []
    for h, bl in secs:
        for b in bl:
            if b[0].startswith("type class: ") and h.endswith("Type Classes") or op["what"] == "tc":
                b[0] = re.sub(r"^(type class: '.*?)'?, match: ", r"\1', match: ", b[0])
            if b[0].startswith("type: "): b[1:] = [re.sub(r"^  size: \d+$", "  size: #", l) for l in b[1:]]
            if "  matching type classes:" in b:
                i = b.index("  matching type classes:")
                b[i + 1:] = sorted(b[i + 1:])
        if h.endswith(" Types") or h.endswith(" Type Classes"): bl = sorted(bl)
        out.append((h, bl))
    if exp == out: return None
    for (h, a), (g, b) in zip(exp, out):
        if h != g: return "expected %r, got %r" % (h, g)
        for p, q in zip(a, b):
            for r, s in zip(p, q):
                if r != s: return "%s: expected %r, got %r" % (h, r, s)
            if len(p) != len(q): return "%s: expected the lines %r, got %r" % (h, p, q)
        if len(a) != len(b): return "%s: expected %d entries, got %d" % (h, len(a), len(b))
    return "expected the sections %s, got %s" % ([h for h, _ in exp], [h for h, _ in out])
