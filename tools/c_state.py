"""C08 (calls are functions of their arguments) and C10 (implementations are interchangeable)."""
from c_auth import *


def hist_of_tlc(ctx, cfg):
    r = ctx.tlc("ApiGen", cfg)
    out = []
    for m in re.finditer(r'^"HIST (\[.*\])"$', r.text, re.M):
        out.append(json.loads(m.group(1).replace('\\"', '"')))
    out.sort()
    return out


def world(ctx, alg):
    """Concrete slots for ApiGen: slot 1 is the base, the others differ in one component."""
    r = RATE[alg]
    rng = ctx.rng
    k, n, a, m = rng.randbytes(16), rng.randbytes(16), rng.randbytes(r + 3), rng.randbytes(2 * r - 1)
    k2, n2 = bytearray(k), bytearray(n)
    k2[15] ^= 1
    n2[0] ^= 0x80
    slots = {1: (k, n, a, m), 2: (bytes(k2), n, a, m), 3: (k, bytes(n2), a, m), 4: (k, n, a[:-1] + b"\x80", m), 5: (k, n, a, m[:r]), 6: (k, n, b"", b"")}
    return slots


def concrete(slots, cts, c):
    op, s, how = c
    k, n, a, m = slots[s]
    if op == "E":
        return Call("E", k, n, a, m)
    if op == "H":
        return Call("H", b"", b"", b"", a + m)
    x = bytearray(cts[s])
    if how == "tag":
        x[-1] ^= 1
    elif how == "ct":
        x[0] ^= 0x40
    elif how == "ad":
        a = a[:-1] + bytes([a[-1] ^ 2]) if a else b"\0"
    elif how == "nonce":
        n = n[:5] + bytes([n[5] ^ 4]) + n[6:]
    elif how == "key":
        k = k[:9] + bytes([k[9] ^ 8]) + k[10:]
    elif how == "short":
        x = x[:11]
    elif how == "cut":
        x = x[:-1]
    return Call("D", k, n, a, bytes(x), note=how)


def tlc_histories(ctx, impls, cfgs, chunk=60):
    """Histories objects with every TLC history, concatenated in chunks (state is never reset
    between calls of one process: a concatenation is a history too)."""
    hs = [h for cfg in cfgs for h in hist_of_tlc(ctx, cfg)]
    ctx.cov["abstract_histories"] = len(hs)
    H = Histories(ctx, impls)
    worlds = {alg: world(ctx, alg) for alg in ALGS}
    flat = [(alg, s) for alg in ALGS for s in worlds[alg]]
    made = dict(zip(flat, spec_results(ctx, [(alg, Call("E", *worlds[alg][s])) for alg, s in flat])))
    for alg in ALGS:
        slots = worlds[alg]
        cts = {s: made[alg, s][1] for s in slots}
        pro = [Call("E", *slots[s]) for s in slots]
        order = list(hs)
        random.Random("%s%d" % (alg, ctx.seed)).shuffle(order)
        # K instances are slower: a share of the deeper histories
        if alg.startswith("isapk") and not ctx.thorough:
            order = order[:len(order) * 2 // 3]
        for q in range(0, len(order), chunk):
            calls = list(pro)
            for h in order[q:q + chunk]:
                calls += [concrete(slots, cts, c) for c in h]
            H.add(alg, "t%d" % q, calls)
    return H


def mix_history(ctx, results, label):
    """results: [(impl, [mix event])] of one pool -> histories for ApiTrace: one E-like call per
    (pool entry, distinct outcome)."""
    out = []
    for i, evs in results:
        hist = []
        for e in evs:
            for q, p in enumerate(e["pool"]):
                for s in p["seen"]:
                    hist.append({"op": "E", "alg": i.alg, "k": "pool", "n": label, "a": str(q), "x": p["op"], "xl": 0, "ret": 0, "len": 16, "out": s, "rel": "none", "fault": 0, "inp": 1, "slack": 1})
        out.append((i, hist))
    return out


def judge_records(ctx, recs):
    """[(impl, [api record])] -> [(impl, step, clauses)]"""
    uniq, order = {}, []
    for i, r in recs:
        k = json.dumps(r, sort_keys=True)
        if k not in uniq:
            uniq[k] = (len(order), [])
            order.append({"ev": r})
        uniq[k][1].append(i)
    bad = ctx.judge("ApiTrace", order)
    out = []
    for pos, members in uniq.values():
        for step, cl in bad.get(pos, []):
            out += [(i, step - 1, cl) for i in members]
    return out


SAME = {"EncSame", "HashSame", "DecSame", "GenuineOpens", "EncInvertible"}


def c08(ctx):
    from c_ct import design
    design(ctx, "MCAeadApi", ["accept", "noad", "nokey", "refuse", "sticky", "garble", "release", "shortcrash", "shortaccept", "shortwrite", "stale", "stalehash",
                              "counter", "collide", "overrun", "clobber", "badlen", "encfail", "hashfail", "crash"])
    impls = ctx.built()
    H = tlc_histories(ctx, impls, ["ApiGen2", "ApiGen3"] if not ctx.thorough else ["ApiGen2", "ApiGen4"])
    H.run(timeout=300)
    H.judge(SAME | {"OnlyGenuine"})
    # stack residue, output contents, automatic variables with other initial contents
    plain = {}
    for alg in ALGS:
        calls = []
        for al, xl in shapes_small(ctx, alg):
            c = Call("E", ctx.rng.randbytes(16), ctx.rng.randbytes(16), ctx.rng.randbytes(al), ctx.rng.randbytes(xl))
            calls.append(c)
        plain[alg] = calls
    made = spec_results(ctx, [(alg, c) for alg in ALGS for c in plain[alg]])
    for alg in ALGS:
        calls = plain[alg]
        outs, made = made[:len(calls)], made[len(calls):]
        dec = []
        for c, (ret, ct) in zip(calls, outs):
            bad = bytearray(ct)
            bad[-3] ^= 16
            dec += [Call("D", c.k, c.n, c.a, ct), Call("D", c.k, c.n, c.a, bytes(bad)), Call("D", c.k, c.n, c.a, ct[:7])]
        plain[alg] = calls + dec + [Call("H", b"", b"", b"", c.x) for c in calls]
    residues = [("stack off", "fill a5"), ("stack 00", "fill 00"), ("stack ff", "fill ff"), ("stack 01", "fill 01"), ("stack 100", "fill 5a"), ("stack 80", "fill 80")]
    variants = [("default", ctx.built())]
    bO0 = build(ctx.scratch, discover(), opt=("-O0",), tag="o0", must=False)[0]
    variants.append(("O0", bO0))
    bp = build(ctx.scratch, discover(), opt=("-O3", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"), tag="pat", must=False)[0]
    if bp:
        variants.append(("pattern-initialised", bp))
    streams, src = [], {}

    def script(i):
        s = []
        for z, (st, fi) in enumerate(residues):
            s += [st, fi]
            for q, c in enumerate(plain[i.alg]):
                if c.op != "H" or i.has_hash:
                    s.append(c.line("r%d_%d" % (z, q)))
        return s
    for name, bs in variants:
        for i, ev in ctx.run_all(bs, script):
            d = by_id(ev)
            hist = []
            for z in range(len(residues)):
                for q, c in enumerate(plain[i.alg]):
                    if c.op != "H" or i.has_hash:
                        hist.append((c, d.get("r%d_%d" % (z, q), NO_ANSWER)))
            streams.append((i, name, hist))
            src[(i.name, name)] = hist
    # an implementation's history with automatic variables initialised differently continues its default history
    base = {i.name: src[(i.name, "default")] for i in ctx.built()}
    joined = [(i, name, (base[i.name] if name == "pattern-initialised" else []) + hist) for i, name, hist in streams]
    jsrc = {(i.name, name): h for i, name, h in joined}
    found = judge_histories(ctx, joined, SAME | {"OnlyGenuine"})
    vb = {name: {i.name: i for i in bs} for name, bs in variants}

    def rerun(i, name):
        d = by_id(drive(ctx.scratch, vb[name][i.name], script(i)))
        h = []
        for z in range(len(residues)):
            for q, c in enumerate(plain[i.alg]):
                if c.op != "H" or i.has_hash:
                    h.append((c, d.get("r%d_%d" % (z, q), NO_ANSWER)))
        return (base[i.name] if name == "pattern-initialised" else []) + h
    report_histories(ctx, found, lambda i, l: jsrc[(i.name, l)], rerun)
    # long histories
    n = {"isapa128av20": 150000, "isapa128v20": 40000, "isapk128av20": 24000, "isapk128v20": 9000}
    k = 6 if ctx.thorough else 1
    pools = [(11, 48, 40), (12, 24, 90), (13, 24, 9), (14, 24, 5)]

    def mscript(i):
        c = n[i.alg] * k // (3 if i.slow else 1) * ((3 if len(ctx.hot()) <= 4 else 2) if i.name in ctx.hot() else 1)
        s = []
        for ps, np, ml in pools[:2]:
            s += ["mix m%d_0 %d %d %d %d 0 %d" % (ps, ctx.seed, np, np, ml, ps), "mix m%d_1 %d %d %d %d 0 %d" % (ps, ctx.seed + 5, np, np, ml, ps),
                  "mix m%d_2 %d %d %d %d 3 %d" % (ps, ctx.seed + 1, c // 4, np, ml, ps), "mix m%d_3 %d %d %d %d 6 %d" % (ps, ctx.seed + 2, c // 4, np, ml, ps)]
        # long runs of calls of one kind
        # 66000 calls of one entry in turn, as many as 7 seconds allow
        if not i.slow or i.name in ctx.hot():
            ps, np, ml = pools[3]
            s += ["mix m%d_0 %d %d %d %d 24 %d" % (ps, ctx.seed, 6 * 66000, np, ml, ps)]
        for ps, np, ml in pools[2:3]:
            s += ["mix m%d_0 %d %d %d %d 8 %d" % (ps, ctx.seed, c, np, ml, ps)]
        for q, v in enumerate(focus(i.alg, 5000, 3)):
            s += ["mix m%d_%d %d %d %d %d %d %d" % (15 + q, z, ctx.seed + z, max(48, min(c // 4, 40000000 // (v + 40) // weight(i.alg) // (30 if i.slow else 1))), 24, 2 * v + 9, (3, 6, 8)[z], 15 + q) for z in range(3)]
        return s
    # the same pools in fresh processes: first calls of a process
    res = ctx.run_all(impls, mscript)

    def fresh(i):
        out = []
        for ps, np, ml in pools[:1]:
            for z in range(3 if i.slow else 8):
                out.append(["mix m%d_f%d %d %d %d %d 4 %d" % (ps, z, ctx.seed + 100 + z, np, np, ml, ps)])
        if i.name in ctx.hot():                  # other and longer histories
            c = n[i.alg] // (3 if i.slow else 1)
            for z in range(6 if len(ctx.hot()) <= 4 else 3):
                out.append(["mix m%d_g%d%d %d %d %d %d %d %d" % (ps, z, q, ctx.seed + 200 + 10 * z + q, c * (1, 1, 2)[q], np, ml, (0, 3, 8)[(q + z) % 3], ps) for q, (ps, np, ml) in enumerate(pools[:3])])
                out.append(["mix m18_g%d %d %d 24 4000 %d 18" % (z, ctx.seed + 300 + z, c // 10, (0, 3, 6, 8, 8, 8)[z])])
        return out
    first = {}

    def run_fresh(t):
        i, lines = t
        return i, drive(ctx.scratch, i, lines)
    for i, ev in run_parallel(run_fresh, [(i, l) for i in impls for l in fresh(i)]):
        first.setdefault(i.name, []).extend(e for e in ev if e["op"] == "mix")
    recs = []
    info = {}
    for i, ev in res:
        if died(ev):
            report_died(ctx, i, mscript(i))
        hist = []
        for ps, np, ml in pools + [(15, 24, 0), (16, 24, 0), (17, 24, 0), (18, 24, 0)]:
            evs = [e for e in ev if e["op"] == "mix" and e["id"].startswith("m%d_" % ps)] + [e for e in first.get(i.name, []) if e["id"].startswith("m%d_" % ps)]
            ctx.add("mixed_calls", sum(e["calls"] for e in evs))
            hist += mix_history(ctx, [(i, evs)], "pool%d" % ps)[0][1]
        recs.append((i, hist))
    for i, step, cl in judge_records(ctx, recs):
        if not set(cl) & SAME or i.name in info:
            continue
        hist = dict((a.name, h) for a, h in recs)[i.name]
        again = [e for e in drive(ctx.scratch, i, mscript(i)) if e["op"] == "mix"]
        ps = hist[step]["n"][4:]
        q = int(hist[step]["a"])
        seen = set()
        for e in again:
            if e["id"].startswith("m%s_" % ps):
                seen |= set(e["pool"][q]["seen"])
        for l in fresh(i):
            for e in drive(ctx.scratch, i, l):
                if e["op"] == "mix" and e["id"].startswith("m%s_" % ps):
                    seen |= set(e["pool"][q]["seen"])
        if len(seen) > 1:
            info[i.name] = 1
            ctx.violation(i.name, i.name + ":history", "%s: call %d of pool %s (%s) has %d different outcomes depending on the calls before it" % (i.alg, q, ps, hist[step]["x"], len(seen)),
                          {"implementation": i.name, "script": mscript(i), "pool_entry": q, "outcomes": sorted(seen)})
    ctx.sample({"history": [list(c) for c in (hist_of_tlc(ctx, "ApiGen3")[700:702])]})
    ctx.sample({"instance": ALGS[0], "first_calls": [c.desc() for c in H.h[ALGS[0]][0][1][:12]]})
    return finish(ctx)


def shapes_small(ctx, alg):
    r = RATE[alg]
    return [(0, 0), (0, r), (r, 0), (3, 5), (r - 1, r + 1), (2 * r + 1, 3 * r), (r + 2, 1)] + [p for v in focus(alg, 3000, 3) for p in ((3, v + 1), (v + 1, 3))]


# ------------------------------------------------------------------ C10
def c10(ctx):
    impls = ctx.built()
    sc = 3.0 if ctx.thorough else 0.8
    calls, plan = {}, {}
    for alg in ALGS:
        rng = ctx.rng
        cs = []
        for al, xl in shapes_small(ctx, alg) + [(rng.randrange(60), rng.randrange(60)) for _ in range(25)]:
            cs.append(Call("E", rbytes(rng, 16), rbytes(rng, 16), rbytes(rng, al), rbytes(rng, xl)))
        cs += literal_calls(ctx, alg, maxlen=3000)
        if alg == "isapa128av20":
            for L in list(range(0, 40)) + [63, 64, 65, 127, 128, 255, 256, 511, 512, 1000, 4096]:
                cs.append(Call("H", b"", b"", b"", rbytes(rng, L)))
            cs += literal_calls(ctx, alg, True, maxlen=3000)
        for q, c in enumerate(cs):
            c.id = "c%d" % q
        calls[alg] = cs
        plan[alg] = aead_stages(alg, ctx.seed * 1000 + 1001, sc)
    more = companions(impls, ctx.hot())
    deep = {alg: deep_stages(alg, ctx.seed * 1000 + 1001, any(i.alg == alg and i.name in more for i in impls)) for alg in ALGS}
    hst = hash_stages(ctx.seed * 1000 + 1101, 0.5)

    def script(i):
        s = [c.line() for c in calls[i.alg] if c.op != "H" or i.has_hash] + ["ro 0", "ops 3"]
        for st in plan[i.alg]:
            s += st.lines()
        if i.has_hash:
            for st in hst:
                s += st.lines()
        return s
    res = append_deep(ctx.run_all(impls, script), run_deep(ctx, [i for i in impls if i.name in more], ["ro 0", "ops 3"], lambda i: deep[i.alg]))
    ctx.say("ran")
    byname = {i.name: i for i in impls}
    # cross decryption: every implementation decrypts every other one's (distinct) ciphertexts,
    # genuine and with one thing wrong
    dec = {}
    owner = {}
    for alg in ALGS:
        variants = {}
        for i, ev in res:
            if i.alg != alg:
                continue
            d = by_id(ev)
            for c in calls[alg]:
                if c.op == "E":
                    e = d.get(c.id, NO_ANSWER)
                    if e.get("ret") == 0 and not e.get("fault"):
                        variants.setdefault(c.id, {}).setdefault(e["out"], i.name)
        ds = []
        for c in calls[alg]:
            if c.op != "E" or len(c.x) + len(c.a) > 600:
                continue
            for out, who in variants.get(c.id, {}).items():
                ct = bytes.fromhex(out)
                ds.append(Call("D", c.k, c.n, c.a, ct, note="ciphertext made by " + who))
                w = len(ds)
                bad = bytearray(ct)
                bad[w % len(ct)] ^= 1 << (w % 8)
                ds.append(Call("D", c.k, c.n, c.a, bytes(bad), note="forged"))
                if w % 7 == 0:
                    ds.append(Call("D", c.k, c.n, c.a, ct[:w % 16], note="short"))
        dec[alg] = ds[:600]
    res2 = ctx.run_all(impls, lambda i: ["place x s3", "place a s1"] + [c.line("d%d" % q) for q, c in enumerate(dec[i.alg])])
    r2 = {i.name: by_id(ev) for i, ev in res2}
    # one history per instance: every call of every implementation is a call of "the instance"
    for alg in ALGS:
        mem = [(i, by_id(ev), ev) for i, ev in res if i.alg == alg]
        if not mem:
            continue
        hist = []                     # (impl, call or None, record)
        for c in calls[alg]:
            grp = {}
            for i, d, ev in mem:
                if c.op == "H" and not i.has_hash:
                    continue
                r = api_event(alg, c, d.get(c.id, NO_ANSWER))
                grp.setdefault(json.dumps(r, sort_keys=True), []).append(i)
            for k, who in sorted(grp.items(), key=lambda t: -len(t[1])):
                hist.append((who, c, json.loads(k)))
        for q, c in enumerate(dec[alg]):
            grp = {}
            for i, d, ev in mem:
                r = api_event(alg, c, r2[i.name].get("d%d" % q, NO_ANSWER))
                grp.setdefault(json.dumps(r, sort_keys=True), []).append(i)
            for k, who in sorted(grp.items(), key=lambda t: -len(t[1])):
                hist.append((who, c, json.loads(k)))
        stages = plan[alg] + deep[alg] + (hst if alg == "isapa128av20" else [])
        for st in stages:
            for f in range(0, st.count, st.chunk):
                grp = {}
                for i, d, ev in mem:
                    if st.cmd == "bulkh" and not i.has_hash or st in deep[alg] and i.name not in more:
                        continue
                    t = getattr(i, "_bt", None)
                    if t is None:
                        t = i._bt = bulk_table(ev)
                    e = t.get((st.name, f))
                    out = "none" if e is None else "%s/%s/%s" % (e["dg"], e.get("rt", 0), e.get("fa", 0))
                    grp.setdefault(out, []).append(i)
                    ctx.add("bulk_calls", st.chunk)
                for out, who in sorted(grp.items(), key=lambda t: -len(t[1])):
                    hist.append((who, None, {"op": "E", "alg": alg, "k": "bulk", "n": st.name, "a": str(f), "x": "", "xl": 0, "ret": 0, "len": 16, "out": out, "rel": "none", "fault": 0, "inp": 1, "slack": 1}))
        for i, d, ev in mem:
            i._bt = None
        names = {}
        recs = []
        for who, c, r in hist:
            r = dict(r)
            for f in ("k", "n", "a", "x", "out"):
                r[f] = names.setdefault(r[f], len(names))
            recs.append(r)
        hb = []
        for k in range(0, len(recs), 400):
            hb.append({"ev": recs[k:k + 400]})
        # decryptions need the encryptions of the same chunk of history: keep E records in front
        enc = [r for (w, c, _), r in zip(hist, recs) if c is not None and c.op == "E" and len(c.x) + len(c.a) <= 600]
        idx = [list(range(k, min(k + 400, len(recs)))) for k in range(0, len(recs), 400)]
        hb, off = [], []
        for ix in idx:
            need = {(recs[j]["k"], recs[j]["n"]) for j in ix if recs[j]["op"] == "D"}
            pro = [r for r in enc if (r["k"], r["n"]) in need]
            hb.append({"ev": pro + [recs[j] for j in ix]})
            off.append((len(pro), ix))
        bad = ctx.judge("ApiTrace", hb)
        ctx.add("outcomes_merged", sum(len(w) for w, c, r in hist))
        done = set()
        for b, items in bad.items():
            for step, cl in items:
                p = step - 1 - off[b][0]
                if p < 0 or not set(cl) & (SAME | {"OnlyGenuine", "EncSucceeds", "HashSucceeds", "ShortRejected", "Returns"}):
                    continue
                who, c, r = hist[off[b][1][p]]
                # the outcome of the majority of implementations of this call is the reference
                same = [h for h in hist if h[1] is c and (c is not None or (h[2]["n"], h[2]["a"]) == (r["n"], r["a"]))]
                if len(same) < 2 and c is not None and c.op == "D" and len(who) == len(mem):
                    pass
                blame = who if len(same) < 2 or who is not same[0][0] else [i for h in same[1:] for i in h[0]]
                for i in blame:
                    if i.name in done:
                        continue
                    if c is not None:
                        e1 = by_id(drive(ctx.scratch, i, [c.line("c")])).get("c", NO_ANSWER)
                        ref = [x for x in mem if x[0].name not in {j.name for j in blame}][:1]
                        e0 = by_id(drive(ctx.scratch, ref[0][0], [c.line("c")])).get("c", NO_ANSWER) if ref else NO_ANSWER
                        if not ref or api_event(alg, c, e1) != api_event(alg, c, e0):
                            done.add(i.name)
                            ctx.violation(i.name, i.name + ":differs", "%s: %s %s: ret=%s out=%s; %s: ret=%s out=%s" % (alg, c.note, c.desc(), e1.get("ret"), e1.get("out", "")[:120], ref[0][0].name if ref else "-", e0.get("ret"), e0.get("out", "")[:120]),
                                          {"implementation": i.name, "script": [c.line("c")]})
                    else:
                        st = [s for s in stages if s.name == r["n"]][0]
                        others = [x[0] for x in mem if x[0].name not in {j.name for j in blame} and (st.cmd == "bulk" or x[0].has_hash)]
                        cc = drill(ctx, i, others[0], st, int(r["a"])) if others else None
                        ev2 = drive(ctx.scratch, i, ["ro 0", "ops 3"] + st.lines(int(r["a"]), st.chunk), timeout=200)
                        e2 = bulk_table(ev2).get((st.name, int(r["a"])))
                        out2 = "none" if e2 is None else "%s/%s/%s" % (e2["dg"], e2.get("rt", 0), e2.get("fa", 0))
                        if out2 == r["out"] or cc is not None:
                            done.add(i.name)
                            ctx.violation(i.name, i.name + ":differs", "%s: bulk calls %s %s.. differ from %s%s" % (alg, st.name, r["a"], others[0].name if others else "-", "; first: " + cc.desc() if cc else ""),
                                          {"implementation": i.name, "stage": st.lines(int(r["a"]), st.chunk), "call": cc.line("c") if cc else ""})
        ctx.sample({"instance": alg, "implementations": len(mem), "call": calls[alg][0].desc(), "outcome": mem[0][1].get(calls[alg][0].id, {}).get("out", "")})
    long_values(ctx, impls, "EH")
    return finish(ctx)
