"""C12: traces of executed instructions and accessed addresses, recorded from the machine code
and judged by the observer specification (Leak.tla / LeakTrace.tla)."""
import bisect
import fcntl
import subprocess

from agree import *

CONDS = {c: chr(ord("a") + n) for n, c in enumerate("eq ne cs cc mi pl vs vc hi ls ge lt gt le".split())}
CONDS["hs"], CONDS["lo"] = CONDS["cs"], CONDS["cc"]
ARMREG = {"sl": 10, "fp": 11, "ip": 12, "sp": 13, "lr": 14, "pc": 15}
ARMREG.update({"r%d" % i: i for i in range(16)})
X86REG = {}
for _n, (_a, _b) in enumerate([("rax", "eax"), ("rcx", "ecx"), ("rdx", "edx"), ("rbx", "ebx"), ("rsp", "esp"), ("rbp", "ebp"), ("rsi", "esi"), ("rdi", "edi")]):
    X86REG[_a] = X86REG[_b] = _n
for _n in range(8, 16):
    X86REG["r%d" % _n] = X86REG["r%dd" % _n] = _n


def arm_table(exe, path):
    """Memory operand of every ARM/Thumb instruction of an executable."""
    t = sh(["arm-linux-gnueabi-objdump", "-d", "--no-show-raw-insn", exe]).stdout.decode()
    with open(path, "w") as f:
        for m in re.finditer(r"^\s+([0-9a-f]+):\t(\S+)\s+([^\n]*)", t, re.M):
            pc, mn, ops = m.group(1), m.group(2).replace(".w", "").replace(".n", ""), m.group(3).split(";")[0].split("@")[0].strip()
            r = re.match(r"(push|pop|ldm|stm|ldr|str)(.*)", mn)
            if not r:
                continue
            root, suf = r.group(1), r.group(2)
            cond = "A"
            if len(suf) >= 2 and suf[-2:] in CONDS:
                cond, suf = CONDS[suf[-2:]], suf[:-2]
            kind = "L" if root in ("ldr", "ldm", "pop") else "S"
            if root in ("push", "pop"):
                f.write("%s %s %s 13 -1 0 0 0\n" % (pc, kind, cond))
                continue
            if root in ("ldm", "stm"):
                b = ARMREG.get(ops.split(",")[0].strip(" !"))
                if b is not None:
                    f.write("%s %s %s %d -1 0 0 0\n" % (pc, kind, cond, b))
                continue
            q = re.search(r"\[([^\]]*)\](.*)", ops)
            if not q:
                continue
            p = [z.strip() for z in q.group(1).split(",")]
            b = ARMREG.get(p[0])
            if b is None or b == 15:
                continue
            idx, shift, neg, imm = -1, 0, 0, 0
            if len(p) > 1:
                if p[1].startswith("#"):
                    imm = int(p[1][1:], 0)
                else:
                    neg = int(p[1].startswith("-"))
                    idx = ARMREG.get(p[1].lstrip("-"), -1)
                if len(p) > 2 and p[2].startswith("lsl"):
                    shift = int(p[2].split("#")[1])
            f.write("%s %s %s %d %d %d %d %d\n" % (pc, kind, cond, b, idx, shift, neg, imm))


def x86_table(exe, path):
    t = sh(["objdump", "-d", "--no-show-raw-insn", exe]).stdout.decode()
    with open(path, "w") as f:
        for m in re.finditer(r"^\s+([0-9a-f]+):\t(\S+)\s+([^\n]*)", t, re.M):
            pc, mn, ops = m.group(1), m.group(2), m.group(3)
            if mn.startswith(("lea", "nop")) or mn in ("endbr64",):
                continue
            if mn.startswith(("push", "pop", "call", "ret")):
                f.write("%s L A 4 -1 0 0 0\n" % pc)
                continue
            q = re.search(r"(-?0x[0-9a-f]+)?\((%\w+)?(?:,(%\w+),(\d))?\)", ops)
            if not q or q.group(2) == "%rip":
                continue
            b = X86REG.get((q.group(2) or "%")[1:], -1)
            i = X86REG.get((q.group(3) or "%")[1:], -1)
            s = {"1": 0, "2": 1, "4": 2, "8": 3}.get(q.group(4) or "1", 0)
            last = ops.rstrip().endswith(")")
            f.write("%s %s A %d %d %d 0 %d\n" % (pc, "S" if last and not mn.startswith(("cmp", "test")) else "L", b, i, s, int(q.group(1) or "0", 0)))


def marker(i):
    t = sh((["arm-linux-gnueabi-nm"] if i.target == "arm" else ["nm"]) + [i.exe]).stdout.decode()
    m = re.search(r"^([0-9a-f]+) \w vd_marker$", t, re.M)
    if not m:
        raise CheckError("marker not found in " + i.name)
    return int(m.group(1), 16)


class Tracer:
    def __init__(self, ctx):
        self.ctx = ctx
        self.bin = ctx.scratch.path("trace", "trace")
        r = sh(["gcc", "-O2", "-w", "-o", self.bin, os.path.join(HARNESS, "trace.c")])
        if r.returncode:
            raise CheckError(r.stdout.decode())
        self.tables, self.markers = {}, {}

    def table(self, i):
        if i.exe not in self.tables:
            p = self.ctx.scratch.path("trace", i.hash[:16] + ".tab")
            (arm_table if i.target == "arm" else x86_table)(i.exe, p)
            self.tables[i.exe] = p
        return self.tables[i.exe]

    def run(self, i, calls, dump=None, timeout=800, ctl=None):
        """calls: [Call] -> [(event, (n, mem, ctl, adr))] ; dump: {position: file}.  ctl: the
        instructions that store the markers; records instructions only (Arm)."""
        d = self.ctx.scratch.path("trace", "%s%d" % (i.hash[:12], random.getrandbits(40)))
        sp, op = d + ".in", d + ".out"
        lines = ["limit 0", "ro 0"] + ["place %s s" % b for b in "knaxo"]
        dump = dump or {}
        if i.target == "avx512":
            lines += ["step c%d f %s.%d %s" % (q, d, q, c.body()) for q, c in enumerate(calls)]
        else:
            lines += [c.line("c%d" % q) for q, c in enumerate(calls)]
        with open(sp, "w") as f:
            f.write("\n".join(lines) + "\n")
        env = dict(os.environ, LD_BIND_NOW="1")
        segs = {}
        dargs = [str(z) for kv in dump.items() for z in kv]
        if i.target == "avx512":
            subprocess.run([i.exe, sp, op], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, env=env)
            for q in range(len(calls)):
                f = "%s.%d" % (d, q)
                if not os.path.exists(f):
                    break
                da = ["0", dump[q]] if q in dump else []
                with open(f) as h:
                    r = subprocess.run([self.bin, "S", "400000", "0", self.table(i)] + da, stdin=h, stdout=subprocess.PIPE, timeout=timeout)
                for l in r.stdout.decode().split("\n"):
                    if l and l[0].isdigit():
                        segs[q] = l.split()[1:]
                os.remove(f)
        else:
            m = marker(i)
            if ctl:
                cmd = "exec qemu-arm -one-insn-per-tb -d exec,nochain -D /dev/fd/9 %s %s %s" % (i.exe, sp, op)
                fil = [self.bin, "E"] + list(ctl)
            elif i.target == "arm":
                cmd = "exec qemu-arm -one-insn-per-tb -d exec,cpu,nochain -D /dev/fd/9 %s %s %s" % (i.exe, sp, op)
                fil = [self.bin, "A", "%x" % m, "%x" % (m + 4), self.table(i)]
            else:
                cmd = "exec valgrind --tool=lackey --trace-mem=yes --log-fd=9 %s %s %s" % (i.exe, sp, op)
                fil = [self.bin, "L", "%x" % m, "%x" % (m + 4)]
            rd, wr = os.pipe()
            try:
                fcntl.fcntl(wr, 1031, 1 << 20)
            except OSError:
                pass
            p = subprocess.Popen(["bash", "-c", "exec 9>&%d; %s" % (wr, cmd)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=[wr], env=env)
            os.close(wr)
            f = subprocess.Popen(fil + dargs, stdin=rd, stdout=subprocess.PIPE)
            os.close(rd)
            try:
                o, _ = f.communicate(timeout=timeout)
                p.wait(timeout=60)
            finally:
                for z in (p, f):
                    if z.poll() is None:
                        z.kill()
                        z.wait()
            for l in o.decode().split("\n"):
                w = l.split()
                if w and w[0] == "markers":
                    self.markers[i.exe] = w[1:]
                elif w:
                    segs[int(w[0])] = w[1:]
        ev = {}
        if os.path.exists(op):
            for l in open(op):
                try:
                    e = json.loads(l)
                except ValueError:
                    break
                ev[e["id"]] = e
        for z in (sp, op):
            if os.path.exists(z):
                os.remove(z)
        out = []
        for q, c in enumerate(calls):
            e = ev.get("c%d" % q)
            if e is None or q not in segs or e.get("fault"):
                break                   # C06 and C08 speak about calls that do not return
            out.append((e, (int(segs[q][0]), int(segs[q][1]), segs[q][2], segs[q][3])))
        return out


def leak_record(c, e, o):
    if c.op == "E":
        body = e["out"][:2 * len(c.x)]
    else:
        body = c.x[:-16].hex()
    return {"op": c.op, "n": c.n.hex(), "a": c.a.hex(), "body": body, "ret": 0 if e["ret"] == 0 else 1, "ctl": o[2], "adr": o[3]}


def secret_keys(ctx, alg, n):
    rng = ctx.rng
    base = [bytes(16), b"\xff" * 16, bytes(range(16)), b"\x80" + bytes(15), bytes(15) + b"\x01", b"\x00" + rng.randbytes(15), rng.randbytes(15) + b"\x00",
            bytes([0xa5]) * 16, bytes(8) + rng.randbytes(8), rng.randbytes(8) + bytes(8)]
    # numbers of the sources as parts of keys
    lits = [v for v in literals(alg) if v > 1]
    rng.shuffle(lits)
    lk = []
    for v in lits[:3 * n]:
        w = 1 if v < 256 else 2 if v < 65536 else 4 if v < 2 ** 32 else 8
        if v >= 2 ** 64:
            continue
        b = bytearray(rng.randbytes(16))
        o = rng.randrange(0, 17 - w)
        o -= o % w
        b[o:o + w] = v.to_bytes(w, rng.choice(["little", "big"]))
        if rng.randrange(2):
            b[0:w] = v.to_bytes(w, "little")
        lk.append(bytes(b))
    ks = base[:max(4, n // 2)] + lk
    while len(ks) < n:
        ks.append(rng.randbytes(16))
    return ks[:n]


def plan(ctx, alg, scale, hot=False):
    """Groups of calls with equal public part, in terms of keys, ciphertext bodies and tag changes."""
    r = RATE[alg]
    more = [(2 * r - 1, 60, 20, 6, 6, 16), (40, 1, 20, 6, 6, 16), (0, 0, 10, 5, 5, 16)]
    if hot:
        return groups_of(ctx, alg, 1, [(0, r, 4, 2, 2, 3), (2 * r - 1, 60, 4, 2, 2, 3), (40, 1, 3, 2, 2, 3), (0, 0, 3, 2, 2, 3), (70, 135, 3, 2, 2, 3), (3, 300, 3, 1, 2, 3), (280, 4, 3, 1, 2, 3)] + [(2, 700, 2, 1, 1, 1), (650, 3, 2, 1, 1, 1)] * (weight(alg) < 8))
    shapes = [(r + 5, 2 * r + 3, 8, 3, 4, 22), (0, 5, 4, 2, 2, 3), (3, 0, 3, 2, 2, 3)]
    if weight(alg) == 8:
        shapes = [(5, r + 3, 6, 2, 3, 20), (0, 5, 4, 2, 2, 3)]
    if scale > 1:
        shapes = [(r + 5, 2 * r + 3, 40, 12, 16, 150), (0, 5, 30, 10, 8, 40), (3, 0, 20, 10, 8, 40), (0, r, 20, 6, 6, 16), (r, 2 * r, 20, 6, 6, 16)] + more
    for v in focus(alg, 1200, 2):
        shapes += [(3, v + 1, 3, 2, 2, 3), (v + 1, 3, 2, 1, 2, 3)]
    return groups_of(ctx, alg, scale, shapes)


def groups_of(ctx, alg, scale, shapes):
    rng, groups = ctx.rng, []
    for al, xl, ne, na, nr, nm in shapes:
        keys = secret_keys(ctx, alg, ne)
        groups.append({"n": rng.randbytes(16), "a": rng.randbytes(al), "xl": xl, "keys": keys, "na": na, "nr": nr, "nm": nm,
                       "special": [bytes(xl), b"\xff" * xl, (b"\x80" + bytes(xl))[:xl], rng.randbytes(max(xl - 3, 0)) + bytes(min(3, xl))][rng.randrange(4) if scale == 1 and xl < 20 else 0]})
    return groups


def tag_masks(rng, n):
    ms = [bytes([0] * j + [1 << rng.randrange(8)] + [0] * (15 - j)) for j in range(16)]
    ms += [b"\xff" * 16, rng.randbytes(16), bytes(8) + rng.randbytes(8), rng.randbytes(8) + bytes(8), rng.randbytes(4) + bytes(12), bytes(12) + rng.randbytes(4)]
    while len(ms) < n:
        b = bytearray(16)
        for _ in range(1 + rng.randrange(6)):
            b[rng.randrange(16)] ^= 1 << rng.randrange(8)
        if any(b):
            ms.append(bytes(b))
    if n < 16:
        return [ms[0], ms[15], ms[7]][:n]
    return ms[:n]


def calls_of(ctx, i, groups):
    """Concrete calls of one implementation: its own key streams make the ciphertext bodies equal."""
    script, pos = ["ro 0"], 0
    for g, G in enumerate(groups):
        for j, k in enumerate(G["keys"]):
            script.append("E s%d_%d %s %s %s %s" % (g, j, hx(k), hx(G["n"]), hx(G["a"]), hx(bytes(G["xl"]))))
    d = by_id(drive(ctx.scratch, i, script, timeout=120))
    script2, ms = ["ro 0"], {}
    for g, G in enumerate(groups):
        st = [bytes.fromhex(d.get("s%d_%d" % (g, j), {}).get("out", ""))[:G["xl"]] for j in range(len(G["keys"]))]
        if any(len(s) != G["xl"] for s in st):
            return None
        jx = ctx.seed % len(st)
        body = bytes(a ^ b for a, b in zip(st[jx], G["special"]))
        for j, s in enumerate(st):
            ms[g, j] = bytes(a ^ b for a, b in zip(s, body))
            script2.append("E s%d_%d %s %s %s %s" % (g, j, hx(G["keys"][j]), hx(G["n"]), hx(G["a"]), hx(ms[g, j])))
    d = by_id(drive(ctx.scratch, i, script2, timeout=120))
    sets = []
    for g, G in enumerate(groups):
        out = []
        cts = [bytes.fromhex(d.get("s%d_%d" % (g, j), {}).get("out", "")) for j in range(len(G["keys"]))]
        if any(len(c) != G["xl"] + 16 for c in cts):
            return None
        ks, n, a = G["keys"], G["n"], G["a"]
        out += [Call("E", k, n, a, ms[g, j], note="group %d key %d" % (g, j)) for j, k in enumerate(ks)]
        out += [Call("D", ks[j], n, a, cts[j], note="group %d genuine, key %d" % (g, j)) for j in range(min(G["na"], len(ks)))]
        body = cts[0][:-16]
        t = ctx.rng.randbytes(16)
        out += [Call("D", ks[j], n, a, body + t, note="group %d fixed wrong tag, key %d" % (g, j)) for j in range(min(G["nr"], len(ks)))]
        for q, m in enumerate(tag_masks(ctx.rng, G["nm"])):
            out.append(Call("D", ks[q % 2], n, a, cts[q % 2][:-16] + bytes(x ^ y for x, y in zip(cts[q % 2][-16:], m)), note="group %d tag^%s" % (g, m.hex())))
        sets.append([out[0], Call("D", out[0].k, out[0].n, out[0].a, bytes(16 + len(out[0].x)))] + out + [out[0]])
    return sets


def subset(cs):
    """A few calls of every kind (used where recording addresses is expensive)."""
    out, n = cs[:2], Counter()
    for c in cs[2:-1]:
        kind = c.op if c.op == "E" else c.note.split(",")[0].split("^")[0].split(" ", 2)[2]
        n[kind] += 1
        if n[kind] <= 2:
            out.append(c)
    return out + cs[-1:]


def symbolize(i, pc):
    t = sh((["arm-linux-gnueabi-nm"] if i.target == "arm" else ["nm"]) + ["-n", i.exe]).stdout.decode()
    sy = [(int(m.group(1), 16), m.group(2)) for m in re.finditer(r"^([0-9a-f]+) [tTwW] (\S+)$", t, re.M) if not m.group(2).startswith("$")]
    if not sy:
        return hex(pc)
    p = bisect.bisect_right([s[0] for s in sy], pc) - 1
    return "%s+0x%x" % (sy[p][1], pc - sy[p][0]) if p >= 0 else hex(pc)


def explain(ctx, tr, i, calls, pa, pb):
    fa, fb = ctx.scratch.path("trace", "da"), ctx.scratch.path("trace", "db")
    tr.run(i, calls[:max(pa, pb) + 1], dump={pa: fa, pb: fb})
    last = None
    try:
        with open(fa) as x, open(fb) as y:
            for la, lb in zip(x, y):
                if la != lb:
                    off = 0x400000 if i.target == "avx512" else 0
                    at = symbolize(i, int(last, 16) + off) if last else "?"
                    return "first difference after %s: %s / %s" % (at, la.strip(), lb.strip())
                if la[0] == "I":
                    last = la[2:].strip()
    except OSError:
        pass
    finally:
        for z in (fa, fb):
            if os.path.exists(z):
                os.remove(z)
    return "traces of different length"


def design(ctx, module, broken, cfg=None):
    """The specification is checked on its own: the ideal machine satisfies it, every listed broken one does not."""
    r = ctx.tlc(module, cfg)
    got = set(re.findall(r'<<\s*"CAUGHT",\s*"(\w+)"', r.text))
    if set(broken) - got:
        raise CheckError("%s does not expose %s" % (module, sorted(set(broken) - got)))
    ctx.cov["design_%s_states" % module] = r.states
    ctx.cov["design_%s_broken_exposed" % module] = len(got)


def c12(ctx):
    design(ctx, "MCLeak", ["earlyexit", "keybranch", "skipzeroword", "table", "firsthalf", "zerotail"])
    impls = build(ctx.scratch, discover(), ldflags=("-no-pie",))
    ctx.cov["implementations"] = len(impls)
    tr = Tracer(ctx)
    plans = {alg: plan(ctx, alg, 6 if ctx.thorough else 1) for alg in ALGS}
    random.seed(ctx.seed)
    hot = ctx.hot()
    more = {alg: plan(ctx, alg, 1, True) for alg in {i.alg for i in impls if i.name in hot}}
    sets = dict(zip([i.name for i in impls], run_parallel(lambda i: calls_of(ctx, i, plans[i.alg] + (more[i.alg] if i.name in hot else [])), impls)))
    to = 3000 if ctx.thorough else 800
    jobs = []                            # (implementation, calls, instructions only)
    for i in impls:
        ss = sets[i.name] or []
        if i.name.startswith("crypto_aead_hash") and not ctx.thorough:
            ss = ss[:1]
        for g, cs in enumerate(ss):
            if i.target == "arm":
                jobs.append((i, cs, True))
                if g == 0 or ctx.thorough:
                    jobs.append((i, subset(cs), False))
            else:
                jobs.append((i, cs, False))
    jobs.sort(key=lambda j: -weight(j[0].alg) * len(j[1]) * (6 if j[0].target == "arm" and not j[2] else 1))

    def mark(i):
        tr.run(i, [Call("E", bytes(16), bytes(16), b"", b"")])
    run_parallel(mark, [i for i in impls if i.target == "arm"])

    def one(j):
        i, cs, ctl = j
        got = tr.run(i, cs, timeout=to, ctl=tr.markers.get(i.exe) if ctl else None)
        ctx.say("traced", i.name, len(cs), ctl)
        return got
    res = run_parallel(one, jobs)
    streams, unstable = [], []
    for (i, cs, ctl), got in zip(jobs, res):
        if len(got) < 3:
            unstable.append(i.name)
            continue
        full = len(got) == len(cs)
        # the same call twice: the recording itself must be repeatable
        if full and got[2][1][2:] != got[-1][1][2:]:
            unstable.append(i.name)
            continue
        recs = [leak_record(c, e, o) for c, (e, o) in list(zip(cs, got))[2:]]
        streams.append((i, recs, cs))
        ctx.add("traced_calls", len(recs))
        ctx.add("instructions_observed", sum(o[0] for e, o in got))
        ctx.add("addresses_observed", sum(o[1] for e, o in got))
    ctx.cov["implementations_traced"] = len({i.name for i, r, c in streams})
    ctx.cov["not_repeatable"] = sorted(set(unstable))
    if len(set(unstable)) > len(impls) // 2:
        raise CheckError("traces are not repeatable: %s" % unstable[:5])
    bad = ctx.judge("LeakTrace", [{"ev": r} for i, r, cs in streams])
    pairs = set()
    for i, r, cs in streams:
        v = Counter((e["op"], e["n"], e["a"], e["body"], e["ret"]) for e in r)
        ctx.add("compared_pairs", sum(n - 1 for n in v.values()))
    for pos, fl in sorted(bad.items()):
        i, recs, cs = streams[pos]
        step, cl = fl[0]
        if any(v['impl'] == i.name for v in ctx.viol):
            continue
        p = step - 1
        key = lambda e: (e["op"], e["n"], e["a"], e["body"], e["ret"])
        q = [z for z in range(p) if key(recs[z]) == key(recs[p])][0]
        # again, in a run of its own with only these two calls
        mini = [cs[0], cs[1], cs[q + 2], cs[p + 2], cs[q + 2], cs[p + 2]]
        g2 = tr.run(i, mini)
        if len(g2) < 6:
            continue
        r2 = [leak_record(c, e, o) for c, (e, o) in zip(mini, g2)]
        field = "ctl" if "SameControl" in cl else "adr"
        if r2[2][field] != r2[4][field] or r2[3][field] != r2[5][field] or r2[2][field] == r2[3][field] or key(r2[2]) != key(r2[3]):
            ctx.add("not_confirmed")
            continue
        why = explain(ctx, tr, i, mini, 4, 5)
        ctx.violation(i.name, "%s:%s" % (i.name, field), "%s: %s depends on secrets: calls with equal public inputs (%s) and (%s) differ; %s" %
                      (i.alg, "the sequence of executed instructions" if field == "ctl" else "the sequence of accessed addresses", cs[q + 2].note, cs[p + 2].note, why),
                      {"implementation": i.name, "calls": [cs[q + 2].desc(), cs[p + 2].desc()], "lines": [cs[q + 2].line("a"), cs[p + 2].line("b")], "difference": why})
    ctx.sample({"view": {k: streams[0][1][3][k] for k in ("op", "n", "a", "body", "ret")}, "ctl": streams[0][1][3]["ctl"], "adr": streams[0][1][3]["adr"]})
    return finish(ctx)
