"""C16: the portable C implementations, cross-compiled and run on emulated processors of other word sizes, byte
orders and char signedness; every machine's outcomes are merged into one history and judged by AeadApi.tla."""
import struct

from c_build import *
from c_ct import design

PORT = os.path.join(HARNESS, "port")
ARM = ["--target=armv7-linux-gnueabi", "-mfloat-abi=soft"]
# name: (compiler flags, emulator, big endian, bytes of long, bytes of size_t, plain char signed)
MACHINES = {
    "i686": (["--target=i686-linux-gnu", "-march=i686"], "qemu-i386", (0, 4, 4, 1)),
    "aarch64": (["--target=aarch64-linux-gnu"], "qemu-aarch64", (0, 8, 8, 0)),
    "thumb": (ARM + ["-mthumb"], "qemu-arm", (0, 4, 4, 0)),
    "armv6": (["--target=armv6-linux-gnueabi", "-mfloat-abi=soft", "-marm"], "qemu-arm", (0, 4, 4, 0)),
    "riscv32": (["--target=riscv32-linux-gnu", "-march=rv32imac", "-mabi=ilp32", "-mno-relax"], "qemu-riscv32", (0, 4, 4, 0)),
    "riscv64": (["--target=riscv64-linux-gnu", "-march=rv64imac", "-mabi=lp64", "-mno-relax"], "qemu-riscv64", (0, 8, 8, 0)),
    "ppc64le": (["--target=powerpc64le-linux-gnu"], "qemu-ppc64le", (0, 8, 8, 0)),
    "ppc": (["--target=powerpc-linux-gnu", "-msoft-float"], "qemu-ppc", (1, 4, 4, 0)),
    "i686-uchar": (["--target=i686-linux-gnu", "-march=i686", "-funsigned-char"], "qemu-i386", (0, 4, 4, 0)),
    "aarch64-schar": (["--target=aarch64-linux-gnu", "-fsigned-char"], "qemu-aarch64", (0, 8, 8, 1)),
}
QUICK = [("i686", "-O2"), ("aarch64", "-O3"), ("thumb", "-O2"), ("riscv32", "-Os"), ("riscv64", "-O1"), ("ppc64le", "-O2"), ("ppc", "-O2"), ("ppc", "-O0")]
DEEP = [(m, o) for m in MACHINES for o in ("-O0", "-O1", "-O2", "-O3", "-Os")]
COMMON = ["-ffreestanding", "-nostdlib", "-static", "-fno-stack-protector", "-fno-unwind-tables", "-fno-asynchronous-unwind-tables", "-fno-pic", "-w"]


def runs_on(i, mach):
    """The processors an implementation is written for."""
    be, wl, ws, sc = MACHINES[mach][2]
    if i.target != "x86":
        return False
    leaf = i.name.split("/")[-1].split(":")[0]
    if be:
        return leaf == "ref"
    return wl == 8 or "64" not in leaf


def cross(ctx, i, mach, opt):
    flags = ["clang"] + MACHINES[mach][0] + COMMON + ["-I" + os.path.join(PORT, "inc")]
    d = ctx.scratch.path("port", mach + opt, i.name.replace("/", "__").replace(":", "__"), "x")
    d = os.path.dirname(d)
    objs, h = [], ["-DVD_HASH"] * i.has_hash
    for s, o in [(os.path.join(PORT, "port.c"), ["-O1"] + h), (os.path.join(PORT, "rt.c"), ["-O1", "-fno-builtin"])] + [(s, [opt, "-DNDEBUG"] + i.flags) for s in i.sources]:
        ob = os.path.join(d, "%d.o" % len(objs))
        r = sh(flags + o + ["-c", s, "-o", ob])
        if r.returncode:
            return None, "compile: " + r.stdout.decode(errors="replace")[:200]
        objs.append(ob)
    exe = os.path.join(d, "exe")
    r = sh(flags + ["-fuse-ld=lld", "-no-pie"] + objs + ["-o", exe])
    for o in objs:
        os.remove(o)
    if r.returncode:
        return None, "link: " + r.stdout.decode(errors="replace")[:200]
    j = Impl(i.name, i.alg, "port:" + mach, i.cc, i.flags, i.sources, i.has_hash, 8 * MACHINES[mach][2][2])
    j.exe, j.runner = exe, [MACHINES[mach][1]]
    j.hash = hashlib.sha256(open(exe, "rb").read()).hexdigest()
    return j, ""


def encode(c):
    k, n = (c.k, c.n) if c.op not in "HF" else (bytes(16), bytes(16))
    return c.op.encode() + k + n + struct.pack("<II", len(c.a), len(c.x)) + c.a + c.x


def run_port(ctx, i, calls, timeout=300):
    """id -> event, and the features the machine reports; calls after a crash have no event."""
    inp = encode(Call("F", b"", b"", b"", b"")) + b"".join(encode(c) for c in calls) + b"."
    try:
        r = subprocess.run(i.runner + [i.exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = e.stdout or b"", -99
    ev, p, feat = {}, 0, None
    for q, c in enumerate([None] + list(calls)):
        if p + 16 > len(out):
            break
        ret, ln, ol = struct.unpack_from("<iQI", out, p)
        o = out[p + 16:p + 16 + ol]
        if len(o) < ol:
            break
        p += 16 + ol
        if c is None:
            feat = tuple(o)
        else:
            ev[c.id] = {"fault": 0, "ret": ret, "len": "%x" % (ln if c.op == "H" or (ret == 0) else 0), "out": o.hex() if ret == 0 else "", "inputs": 1, "slack": 1}
    return ev, feat, rc


def port_event(e):
    """The x86 driver's event reduced to what the portable driver reports."""
    return e


def c16(ctx):
    r = ctx.tlc("Port")
    names = set(re.findall(r'<<\s*"CAUGHT",\s*"(\w+)"', r.text))
    anyle, anybe = ({n.split("_", 1)[1] for n in names if n.startswith(p + "_")} for p in ("ANY", "ANYBE"))
    le, be = ({n.split("_", 1)[1] for n in names if n.startswith(p + "_")} for p in ("LE", "BE"))
    want = {"load_long", "load_size", "load_char", "store_long", "compare_signonly", "compare_char", "count_char"}
    if not (want <= le and le == anyle and {"load_native", "load_swap", "store_native", "load_halves"} <= be and anybe <= le | be):
        raise CheckError("Port.tla: the planned machines do not expose what the model exposes: %s" % sorted((anyle - le) | (anybe - le - be)))
    ctx.cov["design_Port_states"], ctx.cov["design_Port_broken_exposed"] = r.states, len(le | be)
    plan = {(int(a == "TRUE"), 2 * int(b), 2 * int(c), int(d == "TRUE")) for a, b, c, d in re.findall(r"<<(TRUE|FALSE), (\d), (\d), (TRUE|FALSE)>>", r.text)}

    base = [i for i in ctx.built() if i.target == "x86"]
    confs = DEEP if ctx.thorough else QUICK
    todo = [(i, m, o) for m, o in confs for i in base if runs_on(i, m)]
    todo += [(i, m, o) for m, o in DEEP for i in base if i.name in ctx.hot() and runs_on(i, m) and (m, o) not in confs]
    built = run_parallel(lambda t: (t,) + cross(ctx, *t), todo)
    skipped = [(t[1] + t[2], t[0].name, why) for t, j, why in built if j is None]
    ctx.cov["machines"] = sorted({m for m, o in confs})
    ctx.cov["cross_builds"] = len(built) - len(skipped)
    ctx.cov["cross_builds_skipped"] = len(skipped)
    ctx.cov["skipped"] = ["%s %s %s" % s for s in skipped[:20]]
    ctx.say("cross builds", len(built), "skipped", len(skipped))

    calls = {}
    for alg in ALGS:
        r = RATE[alg]
        rng = ctx.rng
        cs = []
        step = 1 if ctx.thorough else 2
        for al, xl in [(a, x) for a in (0, 1, r - 1, r, r + 1, 2 * r + 3) for x in (0, 1, r - 1, r, r + 1, 3 * r - 2)] + [(rng.randrange(200), rng.randrange(200)) for _ in range(20)] + \
                [(3, 255), (3, 256), (129, 0), (0, 300), (257, 16), (1000, 7), (5, 2000), (5, 129 * r), (0, 257 * r)]:
            cs.append(Call("E", rbytes(rng, 16), rbytes(rng, 16), rbytes(rng, al), rbytes(rng, xl)))
        for b in (0x00, 0x7f, 0x80, 0xff):
            cs.append(Call("E", bytes([b]) * 16, bytes([b]) * 16, bytes([b]) * (2 * r + 1), bytes([b]) * (3 * r + 5)))
        for f, k, n, a, m, c in rare(alg)[::step]:
            cs += [Call("E", k, n, a, m), Call("D", k, n, a, c)]
            cs += [Call("D", k, n, a, c[:q] + bytes([c[q] ^ rng.choice([1, 0x80, 0x7f, 0xff])]) + c[q + 1:]) for q in (len(c) - 1, len(c) - 16, len(c) - 8, 0)]
        f, k, n, a, m, c = rare(alg)[0]
        cs += [Call("D", k, n, a, c[:-16] + bytes(t ^ (d if z == q else 0) for z, t in enumerate(c[-16:]))) for q in range(16) for d in (0x01, 0x80)]
        cs += [Call("D", k, n, a, c[:q]) for q in range(16)]
        cs += [c for c in literal_calls(ctx, alg, maxlen=600) if not c.id.startswith("rare")]
        cs += focus_calls(ctx, alg)
        if alg == "isapa128av20":
            for L in list(range(0, 26)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1100, 2056]:
                cs.append(Call("H", b"", b"", b"", rbytes(rng, L)))
            cs += [Call("H", b"", b"", b"", x[1]) for x in rare("hash")[::step]]
        for q, c in enumerate(cs):
            c.id = "c%d" % q
        calls[alg] = cs
    ctx.cov["calls_per_machine"] = {a: len(c) for a, c in calls.items()}
    mine = lambda i: [c for c in calls[i.alg] if c.op != "H" or i.has_hash]
    cut = lambda e: e and dict(e, out="" if e.get("ret") else e.get("out", ""), len=e.get("len", "0") if not e.get("ret") else "0")
    got = {}
    for i, ev in run_parallel(lambda i: (i, drive(ctx.scratch, i, [c.line() for c in mine(i)], timeout=300)), base):
        got.setdefault(i.name, []).append(("default", i, {k: cut(e) for k, e in by_id(ev).items()}, {}))
    jobs = [(t[1] + t[2], j) for t, j, why in built if j]
    jobs.sort(key=lambda t: -weight(t[1].alg))
    seen, crashed, feats = set(), 0, {}
    for (name, j), (ev, feat, rc) in zip(jobs, run_parallel(lambda t: run_port(ctx, t[1], mine(t[1])), jobs)):
        mach = j.target.split(":")[1]
        if feat is None:
            raise CheckError("%s does not start on %s (%d)" % (j.name, mach, rc))
        if feat != MACHINES[mach][2]:
            raise CheckError("%s reports %s" % (mach, feat))
        seen.add(feat)
        crashed += rc != 0
        got[j.name].append((name, j, ev, {}))
    ctx.cov["runs_ended_early"] = crashed
    if not plan <= seen:
        if len(skipped) == 0:
            raise CheckError("machines of the plan missing: %s" % (plan - seen))
    ctx.cov["features_seen"] = [dict(zip(("big_endian", "long", "size_t", "char_signed"), f)) for f in sorted(seen)]

    def rerun(z, c):
        if z.target.startswith("port:"):
            ev, feat, rc = run_port(ctx, z, [Call(c.op, c.k, c.n, c.a, c.x, id="c")], timeout=60)
            return ev.get("c", NO_ANSWER)
        return cut(by_id(drive(ctx.scratch, z, [c.line("c")])).get("c", NO_ANSWER))
    meta = merge(ctx, got, calls, lambda i: [], "x86-64", "machine", rerun)
    for alg in ALGS[:2]:
        m = [m for m in meta if m[1][0][1].alg == alg][:1]
        for iname, runs, hist in m:
            ctx.sample({"implementation": iname, "machines": [r[0] for r in runs], "call": calls[alg][0].desc(), "outcome": hist[0][2]["out"][:80]})
    return finish(ctx)
