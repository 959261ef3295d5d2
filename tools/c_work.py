"""C17 and C18: what a call costs.  Durations, stack, heap and system calls of the real code, judged by
WorkTrace.tla and ResTrace.tla."""
from c_ct import *


def mask_word(m):
    return m.hex() if isinstance(m, bytes) else m


def forged(c, m):
    if isinstance(m, str):
        return c[:-16] + bytes.fromhex(m[1:])
    return c[:-16] + bytes(p ^ q for p, q in zip(c[-16:], m))


def sweep_points(ctx, alg):
    """(al, xl, mask) of the rejected calls; "=hex": this tag."""
    rng = ctx.rng
    r = RATE[alg]
    one = lambda j: bytes([0] * j + [1 << rng.randrange(8)] + [0] * (15 - j))
    pts = []
    top = 160 if not ctx.thorough else 300
    for xl in range(1, top):
        pts.append(((0, xl, r, 3, 40, 1)[xl % 6], xl, one(rng.randrange(16))))
    for j in range(16):                                   # which byte of the tag is wrong; or all but this one
        pts.append((5, r + 1, one(j)))
        pts.append((5, r + 1, bytes(0 if q == j else 0x5a for q in range(16))))
    for b in range(128):                                  # every single bit
        pts.append((2, 12, bytes(1 << (b & 7) if q == b >> 3 else 0 for q in range(16))))
    pts += [(2, 12, b"\xff" * 16), (2, 12, bytes(8) + b"\xff" * 8), (2, 12, b"\xff" * 8 + bytes(8)), (0, 40, bytes(12) + b"\x01" * 4)]
    pts += [(al, xl, "=" + t * 16) for t in ("00", "ff", "a5", "01") for al, xl in ((0, 5), (r, 2 * r))]
    for al in list(range(0, 41, 1 if ctx.thorough else 3)) + [r - 1, r, r + 1, 2 * r, 64, 128, 200, 256, 300]:
        pts.append((al, rng.choice([1, r - 1, r, 2 * r + 3]), one(rng.randrange(16))))
    lits = sorted({v + d for v in literals(alg) if 60 < v <= 2000 for d in (0, 1)})
    rng.shuffle(lits)
    for v in lits[:200 if ctx.thorough else 24]:
        pts.append((3, v, one(0)))
        if v <= 300:
            pts.append((v, 5, one(15)))
            pts.append((v, r, one(14)))
    # pairs of lengths
    for al in (0, 8, r - 1, r, 33, 64, 65, 100, 4 * r, 10 * r + 1, 256, 300):
        for xl in range(1, 41) if al in (64, 300) else [1, 2, 4, 8, r - 1, r, r + 1, 16, 2 * r, 24, 32]:
            pts.append((al, xl, one(rng.randrange(16))))
    for xl in (127, 128, 129, 255, 256, 257, 511, 512, 513, 600, 640, 800, 1000, 1024, 1025, 1500, 2047, 2049, 4097, 8200):
        pts.append((0, xl, one(15)))
        pts.append((7, xl + 2, one(rng.randrange(15))))
    return pts


def same_blocks(alg, al, xl):
    r = RATE[alg]
    return r * (al // r + xl // r) + al % r


def key_nonce(rng):
    return rng.choice([bytes(16), rng.randbytes(16), rng.randbytes(16)]), rng.choice([bytes(16), rng.randbytes(16), rng.randbytes(16)])


def scaled(u, ev):
    """Costs as small numbers: the calibration becomes about 4000."""
    f = max(u // 4000, 1)
    lim = lambda v: min(max(v // f, 0), 300000)
    return u // f, [dict(e, ta=lim(e["ta"]), tr=lim(e["tr"]), t2=lim(e["t2"])) for e in ev]


def c17(ctx):
    design(ctx, "Work", ["decryptfirst", "keyfirst", "firstblock", "shortfirst", "longfirst", "noadfirst", "tagprefix", "tagsuffix", "decryptclear", "longclear"])
    impls = build(ctx.scratch, discover(), source="work.c", tag="w")
    ctx.cov["implementations"] = len(impls)
    pts = {alg: sweep_points(ctx, alg) for alg in ALGS}
    keys = {alg: [key_nonce(ctx.rng) for p in pts[alg]] for alg in ALGS}
    uniq, hot = {}, ctx.hot()
    for i in impls:
        uniq.setdefault(i.hash, []).append(i)
    budget = 4000 if ctx.thorough else 1500

    def one(h):
        i = uniq[h][0]
        P = pts[i.alg] if not i.slow or ctx.thorough or i.name in hot else [p for q, p in enumerate(pts[i.alg]) if q % 3 == ctx.seed % 3 or 90 < q < 120]
        idx = [pts[i.alg].index(p) for p in P]
        r = RATE[i.alg]
        script = ["work cal 60000 %s %s 0 0 ff00 1 %d" % (bytes(16).hex(), bytes(16).hex(), 32 * r)]
        for q, (al, xl, m) in zip(idx, P):
            k, n = keys[i.alg][q]
            script.append("work p%d %d %s %s %d %d %s %d %d" % (q, budget, k.hex(), n.hex(), al, xl, mask_word(m), ctx.seed + q, same_blocks(i.alg, al, xl)))
        ev = by_id(drive(ctx.scratch, i, script, timeout=300 if not ctx.thorough else 2000, tag="w"))
        c = ev.get("cal")
        ctx.say("timed", i.name)
        if not c or c["fault"] or c["rr"] == 0 or c["r2"] == 0:
            return None
        u = c["t2"] - c["tr"]
        out = []
        for q, p in zip(idx, P):
            e = ev.get("p%d" % q)
            if e and not e["fault"] and e["re"] == 0 and e["ra"] == 0 and e["rr"] != 0 and e["r2"] != 0:
                out.append({"xl": p[1], "ta": e["ta"], "tr": e["tr"], "t2": e["t2"], "cl": min(e["cl"], p[1]), "pt": q})
        return u, out
    hs = sorted(uniq, key=lambda h: (not uniq[h][0].slow, -weight(uniq[h][0].alg)))
    res = run_parallel(one, hs, workers=max(NCPU - 1, 1))
    recs, meta, cleared = [], [], {}
    for h, g in zip(hs, res):
        if not g or g[0] <= 0 or not g[1]:
            ctx.add("not_measured")             # calls that fail or fault are the subject of C01, C02 and C06
            continue
        u, ev = scaled(*g)
        cleared[h] = {e["pt"]: e["cl"] for e in ev}
        recs.append({"alg": uniq[h][0].alg, "u": u, "ev": [{z: e[z] for z in ("xl", "cl", "ta", "tr", "t2")} for e in ev]})
        meta.append((h, [e["pt"] for e in ev]))
        ctx.add("points_timed", len(ev))
    bad = ctx.judge("WorkTrace", recs)
    # exact: the same calls, executed instructions counted
    todo = []
    for pos, marks in sorted(bad.items()):
        h, ids = meta[pos]
        todo.append((uniq[h], sorted({ids[s - 1] for s, cl in marks if s})))
    ctx.cov["candidates"] = sum(len(t[1]) for t in todo)
    check = [(im[0], ps) for im, ps in todo]
    # a part of the sweep is counted on every implementation
    have = {i.name for i, ps in check}
    for h in hs:
        i = uniq[h][0]
        sub = [0, 16, 90] + (list(range(0, len(pts[i.alg]), 40)) if i.name in hot else []) if not ctx.thorough else list(range(0, len(pts[i.alg]), 9))
        if i.name in have:
            check = [(j, sorted(set(ps[:40 if ctx.thorough else 12]) | set(sub)) if j.name == i.name else ps) for j, ps in check]
        elif i.target == "x86" or ctx.thorough or i.name in hot:
            check.append((i, sub))
    names = {i.name for i, ps in check}
    exact = {i.name: i for i in build(ctx.scratch, [i for i in discover() if i.name in names], ldflags=("-no-pie",), tag="x")}
    tr = Tracer(ctx)

    def wiped(h, p, xl):
        """Output bytes which the rejected call of a point overwrites; of a point not run: as many as at others."""
        c = cleared.get(h, {})
        return c[p] if p in c else xl if c and sum(v > 0 for v in c.values()) * 2 > len(c) else 0

    def count(t):
        i, ps = exact[t[0].name], t[1]
        r = RATE[i.alg]
        z = bytes(16)
        if i.target == "arm":
            tr.run(i, [Call("E", z, z, b"", b"")])
        q0 = [Call("D", z, z, b"", b"\1" * 16), Call("D", z, z, bytes(32 * r), b"\1" * 16)]
        script = ["ro 0"]
        args = {}
        for p in ps:
            al, xl, m = pts[i.alg][p]
            k, n = keys[i.alg][p]
            a, x = random.Random(p).randbytes(al), random.Random(p + 1).randbytes(xl)
            args[p] = (k, n, a, x)
            script.append("E p%d %s %s %s %s" % (p, hx(k), hx(n), hx(a), hx(x)))
        d = by_id(drive(ctx.scratch, i, script, timeout=120))
        calls, ids = list(q0), []
        for p in ps:
            al, xl, m = pts[i.alg][p]
            k, n, a, x = args[p]
            c = bytes.fromhex(d.get("p%d" % p, {}).get("out", ""))
            if len(c) != xl + 16:
                continue
            bad_ = forged(c, m)
            a2 = random.Random(p).randbytes(same_blocks(i.alg, al, xl))
            calls += [Call("D", k, n, a, c), Call("D", k, n, a, bad_), Call("D", k, n, a2, b"\1" * 16)]
            ids.append(p)
        got = tr.run(i, calls, ctl=tr.markers.get(i.exe) if i.target == "arm" else None)
        ctx.say("counted", i.name, len(got))
        if len(got) < 5:
            return None
        u = got[1][1][0] - got[0][1][0]
        out = []
        for q, p in enumerate(ids):
            g = got[2 + 3 * q:5 + 3 * q]
            if len(g) == 3 and g[0][0]["ret"] == 0 and g[1][0]["ret"] != 0 and g[2][0]["ret"] != 0:
                out.append({"xl": pts[i.alg][p][1], "ta": g[0][1][0], "tr": g[1][1][0], "t2": g[2][1][0], "cl": wiped(t[0].hash, p, pts[i.alg][p][1]), "pt": p, "calls": calls[2 + 3 * q:5 + 3 * q]})
        return u, out
    res = run_parallel(count, check)
    recs2, meta2 = [], []
    for (i, ps), g in zip(check, res):
        if not g or g[0] <= 0 or not g[1]:
            ctx.add("not_counted")
            continue
        u, ev = scaled(*g)
        recs2.append({"alg": i.alg, "u": u, "ev": [{z: e[z] for z in ("xl", "cl", "ta", "tr", "t2")} for e in ev]})
        meta2.append((i, ev, g[1]))
        ctx.add("points_counted", len(ev))
    bad2 = ctx.judge("WorkTrace", recs2)
    for pos, marks in sorted(bad2.items()):
        i, ev, raw = meta2[pos]
        s, cl = marks[0]
        e, w = ev[s - 1], raw[s - 1]
        for j in [im for im in uniq.values() if im[0].name == i.name][0]:
            ctx.violation(j.name, "%s:%s" % (j.name, ",".join(cl)), "%s: a rejected decryption does work that belongs to accepted ones (%s): %d message and %d associated bytes, executed instructions %d accepted, %d rejected, %d rejected without message but with as many blocks (32 blocks: %d)" %
                          (j.alg, ",".join(cl), w["xl"], len(w["calls"][0].a), w["ta"], w["tr"], w["t2"], recs2[pos]["u"]),
                          {"implementation": j.name, "lines": [c.line("c%d" % q) for q, c in enumerate(w["calls"])], "instructions": [w["ta"], w["tr"], w["t2"]]})
    if recs2:
        ctx.sample(recs2[0]["ev"][:2])
    ctx.assumptions.append("timing is only used to select calls; a violation is reported from counts of executed instructions")
    return finish(ctx)


# ---------------------------------------------------------------- C18
def res_points(ctx, i):
    r = RATE[i.alg]
    rng = ctx.rng
    small = [(0, 0), (0, 1), (1, 0), (r, r), (r - 1, 2 * r + 1), (16, 16), (37, 53), (256, 0), (0, 256), (256, 256), (128, 255), (0, r), (100, 7)]
    big = [(0, 1000), (1000, 0), (257, 257), (3, 4096), (4096, 3), (5000, 5000), (0, 65536), (65536, 0), (300, 20000), (20000, 40)]
    lits = sorted({v + 1 for v in literals(i.alg) if 256 < v <= 20000})
    big += [((v, 5), (5, v), (v, v))[q % 3] for q, v in enumerate(lits[:12])]
    fast = i.target != "arm" and "ref" not in i.name and weight(i.alg) < 8
    if fast or ctx.thorough:
        big += [(0, 1 << 20), (1 << 20, 0), (1 << 20, 1 << 20)]
    if i.name in ctx.hot():
        big += [p for L in (300, 400, 600, 777, 900, 1500, 2000, 2500, 3100, 6000, 10000, 12345, 30000) for p in ((0, L), (L, 0), (L, L), (2, L + 1))]
    if i.slow and not ctx.thorough:
        big = [b for b in big if max(b) <= 20000] + ([(0, 65536)] if weight(i.alg) < 8 else [])
    return small + big


def strace_calls(text):
    """Number of calls to the system between marks."""
    out, cur = [], None
    for l in text.split("\n"):
        if " getppid(" in l:
            if cur is None:
                cur = 0
            else:
                out.append(cur)
                cur = None
        elif cur is not None and re.match(r"^\d+ \w+\(", l):
            cur += 1
    return out


def c18(ctx):
    design(ctx, "Res", ["vla", "vlaad", "vladecrypt", "recursion", "heap", "heapleak", "heaplong", "logreject", "logempty", "entropy"])
    impls = build(ctx.scratch, discover(), source="work.c", tag="w", ldflags=("-Wl,-z,now",))
    ctx.cov["implementations"] = len(impls)
    uniq = {}
    for i in impls:
        uniq.setdefault(i.hash, []).append(i)
    pts = {h: res_points(ctx, uniq[h][0]) for h in uniq}

    def one(h):
        i = uniq[h][0]
        rng = random.Random("%s %d" % (i.alg, ctx.seed))
        script = []
        for q, (al, xl) in enumerate(pts[h]):
            k, n = key_nonce(rng)
            mask = bytes([0] * (q % 16) + [1 << rng.randrange(8)] + [0] * (15 - q % 16))
            sys_ = 1 if max(al, xl) <= 65536 else 0
            script.append("res r%d %s %s %d %d %s %d %d" % (q, k.hex(), n.hex(), al, xl, mask.hex(), q, sys_))
        sp, op = ctx.scratch.path("io", h[:16] + ".in"), ctx.scratch.path("io", h[:16] + ".out")
        open(sp, "w").write("\n".join(script) + "\n")
        run = ["qemu-arm", "-strace"] if i.target == "arm" else []
        err = ctx.scratch.path("io", h[:16] + ".err")
        try:
            with open(err, "wb") as f:
                subprocess.run(run + [i.exe, sp, op], stdout=subprocess.DEVNULL, stderr=f, timeout=600 if not ctx.thorough else 3000, env=dict(os.environ, LD_BIND_NOW="1"))
        except subprocess.TimeoutExpired:
            pass
        ev = []
        if os.path.exists(op):
            for l in open(op):
                try:
                    ev.append(json.loads(l))
                except ValueError:
                    break
        st = strace_calls(open(err, errors="replace").read()) if i.target == "arm" else []
        calls, q = [], 0
        for e in ev:
            if e.get("op") != "res":
                continue
            for o, fault, ret, depth, al_, sy in e["calls"]:
                if sy == -2 and i.target == "arm" and max(e["al"], e["xl"]) <= 65536 and not fault:
                    sy = (1 if st[q] else 0) if q < len(st) else -2
                    q += 1
                calls.append({"op": o, "al": e["al"], "xl": e["xl"], "fault": 1 if fault else 0, "depth": depth, "alloc": al_, "sys": sy, "line": script[int(e["id"][1:])]})
        for f in (sp, op, err):
            if os.path.exists(f):
                os.remove(f)
        ctx.say("measured", i.name, len(calls))
        return calls
    hs = sorted(uniq, key=lambda h: (not uniq[h][0].slow, -weight(uniq[h][0].alg)))
    res = run_parallel(one, hs)
    recs, meta = [], []
    for h, calls in zip(hs, res):
        if len(calls) < 8:
            ctx.add("not_measured")             # the driver died: C06 and C08 speak about that
            continue
        recs.append({"ev": [{z: c[z] for z in ("al", "xl", "fault", "depth", "alloc", "sys")} for c in calls]})
        meta.append((h, calls))
        ctx.add("calls_measured", len(calls))
        ctx.add("system_calls_observed_for", sum(1 for c in calls if c["sys"] >= 0))
    bad = ctx.judge("ResTrace", recs)
    for pos, marks in sorted(bad.items()):
        h, calls = meta[pos]
        for i in uniq[h]:
            seen = set()
            for s, cl in marks:
                c = calls[s - 1]
                if set(cl) <= seen:
                    continue
                seen |= set(cl)
                top = max([z["depth"] for z in calls if max(z["al"], z["xl"]) <= 256] or [0])
                ctx.violation(i.name, "%s:%s:%s" % (i.name, c["op"], ",".join(cl)), "%s: %s of %d message and %d associated bytes: %s (stack %d bytes, %d for short inputs; %d allocations; system call: %s; fault %d)" %
                              (i.alg, {"E": "encryption", "D": "decryption", "R": "rejected decryption", "H": "hash"}[c["op"]], c["xl"], c["al"], ",".join(cl), c["depth"], top, c["alloc"], {1: "yes", 0: "no"}.get(c["sys"], "not observed"), c["fault"]),
                              {"implementation": i.name, "line": c["line"], "measured": {z: c[z] for z in ("op", "depth", "alloc", "sys", "fault")}})
    if recs:
        ctx.sample({"calls": recs[0]["ev"][:3]})
    return finish(ctx)
