"""Building implementations from /repo, running the conformance driver, running TLC."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
TLA = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
ALGS = ["isapa128av20", "isapa128v20", "isapk128av20", "isapk128v20"]
RATE = {"isapa128av20": 8, "isapa128v20": 8, "isapk128av20": 18, "isapk128v20": 18}
XREF = "crypto_aead/isapxv20/ref"
XCFG = [("ISAP128A", "ASCON", "isapa128av20"), ("ISAP128", "ASCON", "isapa128v20"),
        ("ISAP128A", "KECCAKP400", "isapk128av20"), ("ISAP128", "KECCAKP400", "isapk128v20")]


class CheckError(Exception):
    pass


class Scratch:
    """One scratch directory per check run, removed at exit."""

    def __init__(self):
        base = os.environ.get("VERIF_SCRATCH") or os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run.", dir=base)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def have_avx512():
    try:
        flags = open("/proc/cpuinfo").read()
    except OSError:
        return False
    return all(f in flags for f in ("avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"))


class Impl:
    def __init__(self, name, alg, target, cc, flags, sources, has_hash, bits):
        self.name, self.alg, self.target, self.cc = name, alg, target, cc
        self.flags, self.sources, self.has_hash, self.bits = flags, sources, has_hash, bits
        self.exe = None
        self.runner = ["qemu-arm"] if target == "arm" else []
        self.hash = ""

    @property
    def slow(self):
        return self.target == "arm"


def target_of(impl):
    if "avx" in impl:
        return "avx512", ["gcc", "-march=x86-64-v4"]
    if impl.endswith("_armv6"):
        return "arm", ["arm-linux-gnueabi-gcc", "-march=armv6", "-marm"]
    if "arm" in impl:
        return "arm", ["arm-linux-gnueabi-gcc", "-march=armv7-a", "-mthumb"]
    return "x86", ["gcc"]


def discover():
    """Every implementation the repository's build knows, with the same compiler and flags."""
    out = []
    for d in sorted(glob.glob(os.path.join(REPO, "crypto_aead*/*/*/"))):
        rel = os.path.relpath(d, REPO)
        if rel == XREF:
            continue
        tree, alg, impl = rel.split("/")
        if alg not in ALGS:
            continue
        srcs = sorted(glob.glob(os.path.join(REPO, rel, "*.[cs]")))
        if not srcs:
            continue
        tgt, cc = target_of(impl)
        hh = tree == "crypto_aead_hash"
        flags = ["-I" + os.path.join(REPO, rel), "-I" + os.path.join(REPO, "tests"), "-DCRYPTO_AEAD"] + ["-DCRYPTO_HASH"] * hh
        out.append(Impl(rel, alg, tgt, cc, flags, srcs, hh, 32 if tgt == "arm" else 64))
    xs = [s for s in sorted(glob.glob(os.path.join(REPO, XREF, "*.c")) + glob.glob(os.path.join(REPO, XREF, "lib/*/*.c")))
          if "genkat" not in os.path.basename(s)]
    if xs:
        for size, perm, alg in XCFG:
            out.append(Impl(XREF + ":" + alg, alg, "x86", ["gcc"], ["-D" + size, "-D" + perm, "-DDEBUG=0"], xs, False, 64))
    if not have_avx512():
        out = [i for i in out if i.target != "avx512"]
    return out


def digest_of(i):
    """Identity of an implementation's sources without comments and blanks."""
    h = hashlib.sha256()
    for d in sorted({os.path.dirname(s) for s in i.sources}):
        for f in sorted(os.listdir(d)):
            if f.endswith((".c", ".h", ".s", ".S", ".inc", ".macros")) and "genkat" not in f:
                t = open(os.path.join(d, f), errors="replace").read()
                t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
                t = re.sub(r"//[^\n]*", " ", t)
                h.update((f + "\0" + re.sub(r"\s+", " ", t).strip() + "\0").encode())
    return h.hexdigest()[:16]


def changed(impls, cap=12):
    """Names of the implementations which differ from the tree the checks were made for (data/sources.json); none if they
    are many.  They get deeper explorations; it decides nothing else."""
    known = json.load(open(os.path.join(VERIF, "data", "sources.json")))
    c = {i.name for i in impls if known.get(i.name) != digest_of(i)}
    return c if len(c) <= cap else set()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def run_parallel(fn, items, workers=NCPU):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def build(scratch, impls, opt=("-O3", "-DNDEBUG"), tag="b", state=False, cc_map=None, driver_defs=(), must=True, ldflags=(), source="driver.c"):
    """Builds one driver executable per implementation.  Objects are shared between
    implementations whose preprocessed sources and flags are equal."""
    opt = list(opt)
    drv = {}

    def driver(cc, has_hash):
        key = (tuple(cc), has_hash)
        if key not in drv:
            o = scratch.path(tag, "driver_%d.o" % len(drv))
            drv[key] = o
            r = sh(cc + ["-O2", "-g0", "-w", "-c", os.path.join(HARNESS, source), "-o", o] + ["-DVD_HASH"] * has_hash
                   + ["-DVD_STATE"] * state + list(driver_defs))
            if r.returncode:
                raise CheckError("driver does not compile: " + r.stdout.decode()[-2000:])
            if state:
                t = o[:-2] + "_tail.o"
                sh(cc + ["-O2", "-c", os.path.join(HARNESS, "statetail.c"), "-o", t], check=True)
        return drv[key]

    base_cc = {}
    for i in impls:
        base_cc.setdefault(i.target, ["gcc"] if i.target != "arm" else ["arm-linux-gnueabi-gcc", "-march=armv7-a", "-mthumb"])
    for i in impls:
        driver(base_cc[i.target], i.has_hash)

    def compile_one(i):
        dst = scratch.path(tag, i.name.replace("/", "__").replace(":", "__"), "x")
        d = os.path.dirname(dst)
        objs = []
        cc = (cc_map or {}).get(i.target, i.cc)
        if callable(cc):
            cc = cc(i)
        for s in i.sources:
            o = os.path.join(d, os.path.basename(s) + ".o")
            r = sh(cc + opt + i.flags + ["-c", s, "-o", o])
            if r.returncode:
                return i, None, r.stdout.decode(errors="replace")[-1500:]
            if state:
                pre = "arm-linux-gnueabi-" if i.target == "arm" else ""
                sh([pre + "objcopy", "--set-section-flags", ".bss=alloc,load,data,contents", "--rename-section", ".bss=vdstate",
                    "--rename-section", ".data=vdstate", o])
            objs.append(o)
        exe = os.path.join(d, "drv")
        dr = driver(base_cc[i.target], i.has_hash)
        link = (["arm-linux-gnueabi-gcc", "-static"] if i.target == "arm" else ["gcc"])
        r = sh(link + [dr] + objs + ([dr[:-2] + "_tail.o"] if state else []) + ["-o", exe, "-lpthread"]
               + ([] if i.target == "arm" else list(ldflags)))
        if r.returncode:
            return i, None, r.stdout.decode(errors="replace")[-1500:]
        for o in objs:
            os.remove(o)
        h = hashlib.sha256(open(exe, "rb").read()).hexdigest()
        return i, exe, h

    res = run_parallel(compile_one, impls)
    ok = []
    bad = []
    for i, exe, msg in res:
        if exe is None:
            bad.append((i, msg))
        else:
            j = Impl(i.name, i.alg, i.target, i.cc, i.flags, i.sources, i.has_hash, i.bits)
            j.exe, j.runner, j.hash = exe, i.runner, msg
            ok.append(j)
    if bad and must:
        raise CheckError("does not build: " + "; ".join(i.name + ": " + m for i, m in bad))
    return (ok, bad) if not must else ok


class Died(Exception):
    pass


def drive(scratch, impl, script, timeout=600, tag="s", env=None, prefix=()):
    """Runs one script (list of lines); returns the events.  A driver that dies or hangs
    without an event for it is reported as a final pseudo event."""
    h = hashlib.md5((impl.exe + tag + str(time.time())).encode()).hexdigest()[:12]
    sp, op = scratch.path("io", h + ".in"), scratch.path("io", h + ".out")
    with open(sp, "w") as f:
        f.write("\n".join(script) + "\n")
    died = None
    try:
        r = subprocess.run(list(prefix) + impl.runner + [impl.exe, sp, op], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=env)
        if r.returncode == 3:
            raise CheckError("driver: " + r.stderr.decode(errors="replace")[-300:])
        if r.returncode != 0:
            died = "exit %d %s" % (r.returncode, r.stderr.decode(errors="replace")[-200:])
    except subprocess.TimeoutExpired:
        died = "timeout"
    ev = []
    if os.path.exists(op):
        with open(op) as f:
            for line in f:
                try:
                    ev.append(json.loads(line))
                except ValueError:
                    break
    done = bool(ev) and ev[-1].get("op") == "end"
    ev = [e for e in ev if e.get("op") != "end"]
    if not done or died:
        ev.append({"id": "died", "op": "died", "why": died or "no end event"})
    for p in (sp, op):
        if os.path.exists(p):
            os.remove(p)
    return ev


# ------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, text, rc):
        self.text, self.rc = text, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated = int(m[-1][0]) if m else 0
        self.states = int(m[-1][1]) if m else 0
        self.finished = "Model checking completed. No error has been found." in text
        self.violated = re.findall(r"Invariant (\w+) is violated|Action property (\w+) is violated|property (\w+) is violated", text)


def tlc(scratch, module, cfg=None, env=None, workers=NCPU, timeout=800, heap="6g", extra=(), deadlock=False, quiet=True):
    md = tempfile.mkdtemp(prefix="tlc.", dir=scratch.dir)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + md, "-cp", ":".join(TLA), "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return TlcResult(r.stdout.decode(errors="replace"), r.returncode)


def hexl(h):
    return list(bytes.fromhex(h))
