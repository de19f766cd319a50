"""Building, running TLC and the drivers, comparing."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CODE = REPO + "/code"
SHIM = VERIF + "/shim"
BUILD = os.environ.get("VF_BUILD", VERIF + "/build")
JOBS = 8


class Broken(Exception):
    """the code under test cannot be built or run at all"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_all(jobs):
    """jobs: list of (command list, output). Runs in parallel, raises Broken on failure."""
    def one(j):
        r = sh(j)
        if r.returncode: raise Broken("does not compile: %s\n%s" % (" ".join(j), r.stdout[-4000:]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(one, j) for j in jobs]: f.result()


def lib_sources():
    import glob
    return sorted(glob.glob(CODE + "/dynamix/*.cpp") + glob.glob(CODE + "/dynamix/compat/pmr/*.cpp"))


def build_driver(name, src, san=("address", "undefined"), defs=(), opt="-O1", compiler="g++", extra=(), include=(), link=()):
    """library objects + driver -> executable"""
    out = os.path.join(BUILD, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    flags = ["-g", opt, "-I" + CODE, "-I" + SHIM, "-pthread"] + ["-I" + i for i in include] + ["-D" + d for d in defs]
    if san: flags += ["-fsanitize=" + ",".join(san), "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    if "undefined" in san: flags += ["-fno-sanitize=vptr"]
    cxx = [compiler, "-std=c++17"] + flags
    cc = [{"g++": "gcc", "clang++": "clang"}[compiler], "-std=c11"] + flags
    jobs, objs = [], []
    for s in [src] + list(extra) + lib_sources() + [CODE + "/dnmx/mixin_common_funcs.c"]:
        o = os.path.join(out, re.sub(r"\W", "_", s) + ".o")
        objs.append(o)
        jobs.append((cc if s.endswith(".c") else cxx) + ["-c", s, "-o", o])
    compile_all(jobs)
    exe = os.path.join(out, name)
    r = sh(cxx + objs + list(link) + ["-o", exe])
    if r.returncode: raise Broken("does not link: " + r.stdout[-3000:])
    return exe


class TlcResult:
    pass


def tlc(module, cfg, work, env=None, workers=JOBS, args=(), timeout=600, heap="8g"):
    """runs TLC on spec/module with cfg; the metadata goes to a scratch directory"""
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, "tlc-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    jars = "/opt/veriftools/tla/tla2tools.jar"
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-fp", "1", "-config", cfg] + list(args) + [module + ".tla"]
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m" % heap + " -Djava.io.tmpdir=" + work
    try:
        r = sh(cmd, cwd=VERIF + "/spec", env=e, timeout=timeout)
        txt, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        txt, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.text, res.rc, res.wall = txt, rc, time.time() - t0
    g = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    res.generated, res.distinct = (int(g[-1][0].replace(",", "")), int(g[-1][1].replace(",", ""))) if g else (0, 0)
    res.ok = rc == 0 and "No error has been found" in txt
    return res
