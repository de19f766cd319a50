"""Known findings: inputs on which the code is known not to keep a property (known-findings.txt)."""
import os, re
import common, world
from common import VERIF

FILE = os.path.join(VERIF, "known-findings.txt")


def _universe(deps, rules, n):
    names = [[]] + [[0x61 + i] for i in range(12)]
    mixs = [{"n": i + 1, "sz": 4, "ag": 4, "p": 0, "dep": i + 1 in deps, "fe": False, "al": 0, "no": [], "fs": []} for i in range(n)]
    return {"canon": [False], "dupM": [False], "dupF": [False], "feats": [], "mixs": mixs, "rules": [dict(r, n=i + 1) for i, r in enumerate(rules)], "tcs": [], "names": 13, "strs": names}


# KF-1: 1 the dependency, 2 is put in by the first rule where the dependency is, 3 brings the dependency by the second rule
KF1 = _universe([1], [{"p": 0, "k": "addif", "a": 1, "b": 2}, {"p": 1, "k": "addif", "a": 3, "b": 1}], 3)
KF1_OPS = [{"o": "regM", "m": m, "d": 1, "via": "p"} for m in (1, 2, 3)] + [{"o": "addR", "r": r, "d": 1, "via": "p"} for r in (1, 2)] \
    + [{"o": "getT", "d": 1, "md": 1, "ms": ms, "kind": "m", "via": "p"} for ms in ([3, 1], [3])]


def listed(prop):
    """the findings listed for the property: {name: line}"""
    res = {}
    for line in open(FILE):
        m = re.match(r"(KF-\d+): property=(\w+) (.*)", line.strip())
        if m and m.group(2) == prop: res[m.group(1)] = m.group(3)
    return res


def look(prop, exe, work):
    """-> lines to print, and the text of a deviation which is not listed (or None)"""
    if prop != "C03": return [], None
    scs = [{"u": 1, "nob": 1, "ops": KF1_OPS}]
    ideal, _ = world.expect([KF1], scs, work, cfg="ExecIdeal.cfg")
    bads, _, _ = world.check(exe, [KF1], scs, ideal, work)
    if not bads: return [], None
    built, _ = world.expect([KF1], scs, work)
    bads2, _, _ = world.check(exe, [KF1], scs, built, work)
    names = listed(prop)
    if bads2 or "KF-1" not in names: return [], bads[0][1]
    return ["KNOWN-FINDING: property=C03 KF-1 " + names["KF-1"]], None
