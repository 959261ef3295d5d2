"""C14: length probes enumerated by Len.tla, replayed into every implementation, judged by LenTrace.tla."""
from c_value import *

PASSES = ["enc", "dec", "maca", "macx", "hash"]
KINDS = ["u8", "u16", "u32", "i32", "b8", "b16", "b32", "bi32"]


def num(l):
    return l["m"] * 2 ** l["w"] + l["o"] if l["w"] else l["o"]


def probes(ctx, rate):
    r = ctx.tlc("Len", "Len%d" % rate)
    got = set(re.findall(r'<<\s*"CAUGHT",\s*"(\w+)"', r.text))
    miss = {p + "_" + k for p in PASSES for k in KINDS} - got
    if miss or r.violated:
        raise CheckError("Len does not expose %s" % sorted(miss))
    ctx.cov["design_truncations_exposed"] = len(got)
    out = []
    for m in re.finditer(r'PROBE (\[.*?\])"', r.text):
        d = json.loads(m.group(1).replace('\\"', '"'))
        p = {"op": d[0], "a": dict(zip("mwo", d[1:4])), "x": dict(zip("mwo", d[4:7])), "back": d[7]}
        if p not in out:
            out.append(p)
    return sorted(out, key=lambda p: (p["op"], num(p["a"]), num(p["x"])))


def build_nomac(ctx, impls):
    """Executables in which the MAC of the implementation is a stand-in that answers with the presented tag: decryption of
    a huge input then gets to its last pass at once.  Only where there is such a function."""
    src = ctx.scratch.path("nm", "nomac.c")
    with open(src, "w") as f:
        f.write("#include <string.h>\nvoid __wrap_isap_mac(const void *k, const void *n, const void *a, unsigned long long al, const void *c, unsigned long long cl, unsigned char *t)"
                "{ memcpy(t, (const char *)c + cl, 16); }\n")
    o = src[:-2] + ".o"
    if sh(["gcc", "-O2", "-c", src, "-o", o]).returncode:
        return []
    ok, bad = build(ctx.scratch, [i for i in impls if i.target != "arm" and "isapxv20" not in i.name], tag="nm", must=False, ldflags=("-Wl,--wrap=isap_mac", o))
    return ok


def mid_lines(rng, i, ps):
    """sens lines: long AEAD ones are thinned out on emulated and byte-wise implementations."""
    out = []
    for q, p in enumerate(ps):
        la, lx = num(p["a"]), num(p["x"])
        big = max(la, lx)
        if p["op"] != "E" and p["op"] != "H" or (p["op"] == "H" and (not i.has_hash or la)):
            continue
        heavy = i.slow or i.name.split("/")[-1].startswith(("opt_8", "bi_8"))
        if heavy and big > 2 ** 18 and not (la == 0 or lx == 0):
            continue
        k = rng.randbytes(16)
        fl = []
        b, L = ("a", la) if la >= lx else ("x", lx)
        fl.append("%s%d" % (b, L - 1))
        if not (heavy and big > 2 ** 18):
            fl.append("%s%d" % (b, rng.randrange(L // 2, L)))
            fl.append("%s%d" % (b, rng.randrange(0, L)))
        o, Lo = ("x", lx) if b == "a" else ("a", la)
        if Lo and big < 2 ** 18:
            fl.append("%s%d" % (o, Lo - 1))
        out.append((p, "sens m%d %s %d %d %s %s %s" % (q, p["op"], la, lx, k.hex(), k[::-1].hex(), " ".join(fl))))
    return out


def lenw(hexlen, expect):
    v = int(hexlen, 16)
    return "exact" if v == expect else "low32" if v and expect >= 2 ** 32 and v in (expect % 2 ** 32, (expect - 16) % 2 ** 32 + 16) else "other"


def huge_lines(i, ps, ms, nomac=False):
    out = []
    for q, p in enumerate(ps):
        la, lx = num(p["a"]), num(p["x"])
        if p["back"] != "never" or (p["op"] == "H" and not i.has_hash) or (p["op"] == "F") != nomac:
            continue
        if i.bits == 32 and max(la, lx) >= 2 ** 31 + 2 ** 20:
            continue
        if i.bits == 32 and p["op"] == "E" and lx >= 2 ** 31:
            continue                       # input and output do not fit
        if p["op"] in "DF":
            lx += 16
        out.append((p, "long h%d %s %d %d %d %s %s - -" % (q, "D" if p["op"] == "F" else p["op"], la, lx, ms, "5a" * 16, "%032x" % (q + 1))))
    return out


def record_huge(p, e):
    lx = num(p["x"])
    exp = {"E": lx + 16, "D": lx, "F": lx, "H": lx}[p["op"]]
    return {"t": "long", "op": p["op"], "a": p["a"], "x": p["x"], "state": e["state"], "wild": e["wild"], "prog": min(e["prog"], 2 ** 30), "ret": 0 if e["ret"] == 0 else 1,
            "lenw": lenw(e["len"], exp) if p["op"] != "H" and e["state"] != 2 else "none"}


def record_mid(p, e):
    return {"t": "sens", "op": p["op"], "a": p["a"], "x": p["x"], "fault": e["fault"], "ret": 0 if e["ret"] == 0 else 1, "good": e["good"], "lenw": "none",
            "flips": [[f[1], f[2]] for f in e["flips"]]}


def c14(ctx):
    ps = {r: probes(ctx, r) for r in (8, 18)}
    impls = ctx.built()
    nomac = build_nomac(ctx, impls)
    ctx.cov["implementations_with_replaceable_mac"] = len(nomac)
    ms = 1000 if ctx.thorough else 150
    plans = {}
    for i in impls:
        rng = random.Random("len%s%d" % (i.alg, ctx.seed))
        mids = [p for p in ps[RATE[i.alg]] if p["back"] == "yes"]
        plans[i.name] = (huge_lines(i, ps[RATE[i.alg]], ms), mid_lines(rng, i, mids))
    # huge probes in a process of their own: they are killed off by a timer in mid-flight
    runs = []
    for i in impls:
        runs.append((i, "huge", plans[i.name][0]))
        ml = plans[i.name][1]
        parts = 4 if i.slow else 2
        for z in range(parts):
            runs.append((i, "mid", ml[z::parts]))
    for i in nomac:
        runs.append((i, "nomac", huge_lines(i, ps[RATE[i.alg]], ms, True)))
    runs.sort(key=lambda t: (t[1] != "mid", not t[0].slow, weight(t[0].alg) * -1))

    def one(t):
        i, kind, lines = t
        if not lines:
            return []
        ev = drive(ctx.scratch, i, ["limit 100"] + [l for p, l in lines], timeout=600)
        d = by_id(ev)
        ctx.say("ran", kind, i.name)
        return [(p, l, d.get(l.split()[1])) for p, l in lines], (ev[-1] if died(ev) else None)
    res = run_parallel(one, runs)
    recs, src = [], []
    tags = {}
    for (i, kind, lines), r in zip(runs, res):
        if not r:
            continue
        for p, l, e in r[0]:
            if e is None:
                if kind == "mid" and r[1]:
                    recs.append({"t": "sens", "op": p["op"], "a": p["a"], "x": p["x"], "fault": 99, "ret": 1, "good": 0, "flips": [], "lenw": "none"})
                    src.append((i, kind, p, l, {"why": r[1].get("why")}))
                continue
            if e.get("skip"):
                ctx.add("skipped_probes")
                continue
            if kind == "nomac" and e["state"] == 2:
                ctx.add("skipped_probes")     # the stand-in does not fit this implementation
                continue
            recs.append(record_mid(p, e) if kind == "mid" else record_huge(p, e))
            src.append((i, kind, p, l, e))
            ctx.add("probes_" + kind)
            if kind == "mid":
                tags.setdefault((i.alg, l.split(" ", 2)[2].split(" a")[0].split(" x")[0], p["op"]), {}).setdefault(e["dg"], []).append((i, l, e))
    # the same outcome everywhere
    for k, g in tags.items():
        if len(g) > 1:
            big = max(g.values(), key=len)
            for v in g.values():
                if v is not big:
                    for i, l, e in v:
                        e2 = by_id(drive(ctx.scratch, i, ["limit 100", l], timeout=300)).get(l.split()[1], {})
                        if e2.get("dg") == e["dg"] and not any(x["impl"] == i.name for x in ctx.viol):
                            ctx.violation(i.name, i.name + ":longvalue", "%s: the result for lengths a=%s x=%s differs from the other implementations" % (i.alg, l.split()[3], l.split()[4]),
                                          {"implementation": i.name, "script": [l]})
    uniq, order, mem = {}, [], []
    for r, s in zip(recs, src):
        if r["t"] == "long":
            r["prog"] = min(r["prog"], 4096) if r["prog"] >= 4096 else r["prog"]
        k = json.dumps(r, sort_keys=True)
        if k not in uniq:
            uniq[k] = len(order)
            order.append(r)
            mem.append([])
        mem[uniq[k]].append(s)
    bad = ctx.judge("LenTrace", order)
    ctx.cov["probes_judged"] = len(recs)
    done = set()
    for pos, cl in sorted(bad.items()):
        for i, kind, p, l, e in mem[pos]:
            if (i.name, str(cl)) in done:
                continue
            e2 = by_id(drive(ctx.scratch, i, ["limit 100", l.replace(" %d 5a5a" % ms, " %d 5a5a" % (3 * ms))], timeout=400)).get(l.split()[1])
            if e2 is None and kind != "mid":
                continue
            if e2 is not None and e.get("why") is None:
                b2 = ctx.judge("LenTrace", [record_mid(p, e2) if kind == "mid" else record_huge(p, e2)])
                if not b2:
                    continue
            elif e2 is not None:
                continue
            done.add((i.name, str(cl)))
            what = ",".join(sorted({x for s, c in cl for x in c}))
            ctx.violation(i.name, "%s:%s" % (i.name, what), "%s: %s: %s with associated data of %d and %s of %d bytes: %s" %
                          (i.alg, what, {"E": "encryption", "D": "decryption", "F": "the last pass of decryption", "H": "hash"}[p["op"]], num(p["a"]), "message" if p["op"] != "H" else "input", num(p["x"]),
                           {k: v for k, v in (e2 or e).items() if k in ("state", "ret", "len", "prog", "wild", "flips", "good", "why", "fault")}),
                          {"implementation": i.name, "script": [l], "event": e2 or e})
    if ctx.thorough:
        complete(ctx, impls)
    for q in (0, len(recs) // 2, -1):
        ctx.sample({"implementation": src[q][0].name, "probe": src[q][3][:200], "record": recs[q]})
    return finish(ctx)


def complete(ctx, impls):
    """Encryption and decryption of more than 2^32 bytes, and long associated data and hash inputs, run to their end."""
    fast = [i for i in impls if i.target != "arm" and not i.name.split("/")[-1].startswith(("opt_8", "bi_8"))]
    X = 2 ** 32 + 40
    k, n = "0f" * 16, "3c" * 16

    def one(t):
        i, what = t
        line = {"x": "full f %d %s %s 010203" % (X, k, n), "a": "long f E %d 5 0 %s %s - -" % (X, k, n), "h": "long f H 0 %d 0 %s %s - -" % (X, k, n)}[what]
        e = by_id(drive(ctx.scratch, i, ["limit 0", line], timeout=6000)).get("f")
        ctx.say("complete", what, i.name)
        return i, what, line, e
    jobs = [(i, "x") for i in fast]
    res = run_parallel(one, jobs, 4)
    res += run_parallel(one, [(i, "a") for i in fast] + [(i, "h") for i in fast if i.has_hash])
    groups = {}
    recs, src = [], []
    for i, what, line, e in res:
        if e is None or e.get("skip"):
            ctx.add("skipped_probes")
            continue
        ctx.add("completed_beyond_2^32")
        if what == "x":
            good = int(e["cl"], 16) == X + 16 and int(e["ml"], 16) == X
            recs.append({"t": "full", "op": "E", "a": {"m": 1, "w": 0, "o": 3}, "x": {"m": 1, "w": 32, "o": 40}, "fault": e["fault"], "re": e["re"], "rd": e["rd"], "same": e["same"],
                         "lenw": "exact" if good else "other"})
            src.append((i, line, e))
        groups.setdefault((i.alg, what), {}).setdefault((e["dg"], e["out"], e.get("len")), []).append((i, line, e))
    for pos in ctx.judge("LenTrace", recs):
        i, line, e = src[pos]
        ctx.violation(i.name, i.name + ":LongRoundTrip", "%s: a message of 2^32+40 bytes does not survive encryption and decryption: %s" % (i.alg, e), {"implementation": i.name, "script": [line], "event": e})
    for key, g in groups.items():
        if len(g) > 1:
            big = max(g.values(), key=len)
            for v in g.values():
                if v is not big:
                    for i, line, e in v:
                        ctx.violation(i.name, i.name + ":longvalue", "%s: the result for 2^32+40 bytes (%s) differs from the other implementations" % (i.alg, key[1]), {"implementation": i.name, "script": [line], "event": e})
