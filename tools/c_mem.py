"""C06 (memory footprint) and C07 (placement)."""
from c_auth import *

SAFE = {"Returns", "InputsKept", "SlackKept"}


def guard_calls(ctx, alg, lens, hash_):
    calls = []
    rng = ctx.rng
    made = spec_results(ctx, [(alg, Call("E", bytes(16), bytes(16), b"", b""))])
    for al, xl in lens:
        c = Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(al), rng.randbytes(xl))
        calls.append(c)
        x = rng.randbytes(xl + 16)
        calls.append(Call("D", c.k, c.n, c.a, x, note="forged"))
        calls.append(("own", c, len(calls) - 2))
    if hash_:
        for xl in sorted({x for a, x in lens}):
            calls.append(Call("H", b"", b"", b"", rng.randbytes(xl)))
    return calls


def c06(ctx):
    impls = ctx.built()
    modes = [("end", ["place %s e" % b for b in "knaxol"]), ("start", ["place %s s" % b for b in "knaxol"]),
             ("null", ["place a z", "place x z", "place o z", "nsec 1"])]
    modes += [("mixed", ["place a e", "place x s", "place o e", "place k s", "place n e", "nsec 1"])]
    lens = {}
    for alg in ALGS:
        r = RATE[alg]
        s = {(a, x) for a in (0, 1, r - 1, r, r + 1, 2 * r) for x in (0, 1, r - 1, r, r + 1, 2 * r, 3 * r - 1)}
        s |= {(a, 2) for a in range(0, 3 * r + 2)} | {(3, x) for x in range(0, 3 * r + 2)} | {(0, x) for x in range(0, 2 * r + 2)} | {(a, 0) for a in range(0, 2 * r + 2)}
        s |= {(ctx.rng.randrange(200), ctx.rng.randrange(200)) for _ in range(40)}
        if any(i.alg == alg and i.name in ctx.hot() for i in impls):
            s |= {(v, 7) for v in range(3 * r + 2, 300)} | {(7, v) for v in range(3 * r + 2, 300)}
        for v in focus(alg, 5000):
            s |= {(v + d, 3) for d in (-1, 0, 1, 2)} | {(3, v + d) for d in (-1, 0, 1, 2)} | {(v + 1, v + 1), (0, v + 1), (v + 1, 0)}
        lens[alg] = sorted(s)
    hl = list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097]
    variants = [("default", ctx.built())]
    variants.append(("O0", build(ctx.scratch, [i for i in discover()], opt=("-O0",), tag="o0", must=False)[0]))
    src, streams = {}, []
    data = {}
    for alg in ALGS:
        cs = []
        for al, xl in lens[alg]:
            cs.append(("E", ctx.rng.randbytes(16), ctx.rng.randbytes(16), ctx.rng.randbytes(al), ctx.rng.randbytes(xl)))
        data[alg] = cs
    hd = [ctx.rng.randbytes(L) for L in hl]

    def script(i, pre):
        s = ["save 1", "ro 1"] + pre
        for q, (op, k, n, a, x) in enumerate(data[i.alg]):
            s.append("E e%d %s %s %s %s" % (q, hx(k), hx(n), hx(a), hx(x)))
            s.append("D d%d %s %s %s @e%d" % (q, hx(k), hx(n), hx(a), q))
            s.append("D f%d %s %s %s @e%d^%d:20" % (q, hx(k), hx(n), hx(a), q, q % (len(x) + 16)))
            if q < 64:
                s.append("D g%d %s %s %s @e%d<%d" % (q, hx(k), hx(n), hx(a), q, q % 16))
        if i.has_hash:
            for q, x in enumerate(hd):
                s.append("H h%d %s" % (q, hx(x)))
        return s

    def collect(i, ev):
        d = by_id(ev)
        hist = []
        for q, (op, k, n, a, x) in enumerate(data[i.alg]):
            hist.append((Call("E", k, n, a, x), d.get("e%d" % q, NO_ANSWER)))
            for z in ("d", "f") + (("g",) if q < 64 else ()):
                e = d.get("%s%d" % (z, q), NO_ANSWER)
                hist.append((Call("D", k, n, a, bytes.fromhex(e.get("x", "")), note={"d": "genuine", "f": "forged", "g": "short"}[z]), e))
        if i.has_hash:
            for q, x in enumerate(hd):
                hist.append((Call("H", b"", b"", b"", x), d.get("h%d" % q, NO_ANSWER)))
        return hist
    vb = {}
    for vname, bs in variants:
        for mname, pre in modes:
            if vname != "default" and mname not in ("end", "start"):
                continue
            res = ctx.run_all(bs, lambda i: script(i, pre))
            for i, ev in res:
                h = collect(i, ev)
                lab = vname + "/" + mname
                vb[(i.name, lab)] = (i, pre)
                src[(i.name, lab)] = h
                for k in range(0, len(h), 260):
                    streams.append((i, "%s|%d" % (lab, k), h[k:k + 260]))
    # values do not matter here: keep only what the clauses look at, so that equal behaviours coincide
    found = judge_footprints(ctx, streams)
    done = set()
    for i, label, step, cl in found:
        lab, k = label.split("|")
        if (i.name, tuple(cl)) in done:
            continue
        ii, pre = vb[(i.name, lab)]
        h = src[(i.name, lab)]
        h2 = collect(ii, drive(ctx.scratch, ii, script(ii, pre), timeout=300))
        p = int(k) + step
        c, e = h[p]
        if (e.get("fault"), e.get("inputs"), e.get("slack")) != (h2[p][1].get("fault"), h2[p][1].get("inputs"), h2[p][1].get("slack")):
            continue
        done.add((i.name, tuple(cl)))
        where = ""
        if e.get("fault"):
            where = " %s at %s%+d" % ("write" if e.get("fw") == 1 else "read", {"k": "key", "n": "nonce", "a": "associated data", "x": "input", "o": "output", "l": "length word", "?": "elsewhere"}.get(e.get("fbuf"), "?"), e.get("foff", 0))
        ctx.violation(i.name, "%s:%s" % (i.name, "+".join(cl)), "%s (%s): %s breaks %s%s (lengths a=%d x=%d)" % (i.alg, lab, c.desc(), ",".join(cl), where, len(c.a), len(c.x)),
                      {"implementation": i.name, "script": pre + [c.line("c")], "event": {z: e.get(z) for z in ("ret", "fault", "fbuf", "foff", "fw", "fsig", "inputs", "slack")}})
    # more lengths, natively compared inside the driver
    m = 41
    sc = 3 if ctx.thorough else 1

    def stages(i):
        w = weight(i.alg)
        return [Stage("q0", ctx.seed * 77, 0, chunk=m, grid=(0, m, 1, 0, m if w < 8 else 21, 1)), Stage("q1", ctx.seed * 78, sc * 4000 // w, 300, 300, 100), Stage("q2", ctx.seed * 79, 0, chunk=20, grid=(1, 1, 1, 4000, 20, 9)),
                Stage("q3", ctx.seed * 80, 0, chunk=20, grid=(4000, 20, 9, 1, 1, 1))]
    for lab, pre in modes[:2]:
        bulk_counter(ctx, impls, stages, "mm", ["ro 1"] + pre, "a call touches memory outside its buffers, changes an input or does not return (%s placement)" % lab, 3)

    if [i for i in impls if i.has_hash]:
        hs = [Stage("qh", ctx.seed * 81, 0, chunk=50, grid=(0, 1, 1, 0, 400, 1), cmd="bulkh"), Stage("qi", ctx.seed * 82, 600 * sc, 0, 5000, 50, cmd="bulkh")]
        for lab, pre in modes[:2]:
            hscript = ["ro 1"] + pre + [l for st in hs for l in st.lines()]
            for i, ev in ctx.run_all([i for i in impls if i.has_hash], lambda i: hscript):
                if died(ev):
                    report_died(ctx, i, hscript)
                for e in ev:
                    if e["op"] == "bulkh":
                        ctx.add("bulk_calls", e["n"])
                        if e["mm"]:
                            ev2 = [x for x in drive(ctx.scratch, i, hscript) if x["op"] == "bulkh" and x["mm"]]
                            if ev2:
                                ctx.violation(i.name, i.name + ":hash", "hash call %d of stage %s touches memory outside its buffers (%s placement)" % (e["mm1"], e["id"], lab), {"implementation": i.name, "script": hscript})
                            break
    ctx.sample({"instance": ALGS[2], "placement": "end", "call": Call(*data[ALGS[2]][20]).desc()})
    ctx.cov["length_pairs"] = {a: len(lens[a]) for a in ALGS}


    return finish(ctx)


def judge_footprints(ctx, streams):
    """Like judge_histories, for the memory clauses only: byte strings are numbered per history by their
    role, so that all correct implementations give the same history."""
    uniq, order = {}, []
    for i, label, hist in streams:
        recs = []
        for q, (c, e) in enumerate(hist):
            r = api_event(i.alg, c, e)
            r.update(alg="", k=q, n=0, a=0, x=q, xl=len(c.x), out=q if not r["ret"] else -1, len=len(c.x) + 16 if c.op == "E" else 0)
            if c.op == "D":
                r["ret"] = 1            # whether it is accepted is not judged here
                r["rel"] = "none"
            recs.append(r)
        k = json.dumps(recs, sort_keys=True)
        if k not in uniq:
            uniq[k] = (len(order), [])
            order.append({"ev": recs})
        uniq[k][1].append((i, label))
    ctx.add("histories", len(streams))
    ctx.add("distinct_histories", len(order))
    ctx.add("calls_in_histories", sum(len(h) for i, l, h in streams))
    bad = ctx.judge("ApiTrace", order)
    out = []
    for pos, members in uniq.values():
        for step, cl in bad.get(pos, []):
            hit = sorted(set(cl) & SAFE)
            if hit:
                out += [(i, label, step - 1, hit) for i, label in members]
    return out


# ------------------------------------------------------------------ C07
def c07(ctx):
    impls = ctx.built()
    r = ctx.tlc("Place", "PlaceDeep" if ctx.thorough else "Place")
    places = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"PLACE (\{.*\})"$', r.text, re.M)]
    places.sort(key=lambda p: json.dumps(p, sort_keys=True))
    if len(places) < 300:
        raise CheckError("placements missing: %d" % len(places))
    ctx.cov["placements"] = len(places)
    edges = sorted((p["tail"], p["dist"]) for p in places if p["kind"] == "edge")
    places = [p for p in places if p["kind"] != "edge"]
    calls = {}
    rng = ctx.rng
    raw = {}
    for alg in ALGS:
        rr = RATE[alg]
        shapes = [(13, 29), (rr, 2 * rr), (2 * rr + 5, 3 * rr + 7), (0, 33), (3, 0)] + [(3, v + 5) for v in focus(alg, 600, 2)] + [(v + 5, 3) for v in focus(alg, 600, 2)]
        if any(i.alg == alg and i.name in ctx.hot() for i in impls):
            shapes += [(150, 6), (5, 150), (303, 607)]
        raw[alg] = [Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(a), rng.randbytes(x)) for a, x in shapes]
    flat = [(alg, c) for alg in ALGS for c in raw[alg]]
    made = {id(c): ct for (alg, c), (ret, ct) in zip(flat, spec_results(ctx, flat))}
    for alg in ALGS:
        cs = []
        for q, c in enumerate(raw[alg]):
            ct = made[id(c)]
            cs.append(c)
            cs.append(Call("D", c.k, c.n, c.a, ct))
            if q < 2:
                b = bytearray(ct)
                b[-1 - 7 * q] ^= 1
                cs.append(Call("D", c.k, c.n, c.a, bytes(b), note="forged"))
        cs += [Call("H", b"", b"", b"", rng.randbytes(v + 5)) for v in focus(alg, 600, 2)]
        cs.append(Call("H", b"", b"", b"", rng.randbytes(37)))
        cs.append(Call("H", b"", b"", b"", rng.randbytes(64)))
        cs.append(Call("D", c.k, c.n, c.a, ct[:9], note="short"))
        calls[alg] = cs

    def script(i, only=None):
        s = []
        last = None
        for z, p in enumerate(places):
            if only is not None and z not in (0, only):
                continue
            if p["kind"] == "single":
                if last != "single":
                    s.append("pack off")
                s += ["place %s s%d" % (b, p["off"][b]) for b in "knaxo"]
            else:
                s.append("pack %s %d %d" % ("".join(p["order"]) + "l", p["gap"], p["off"]))
            last = p["kind"]
            for q, c in enumerate(calls[i.alg]):
                if c.op != "H" or i.has_hash:
                    s.append(c.line("p%d_%d" % (z, q)))
        return s
    # the first placement is the reference
    places.sort(key=lambda p: (p["kind"] != "single", p["kind"] == "single" and any(p["off"].values()), json.dumps(p, sort_keys=True)))
    res = ctx.run_all(impls, script)
    streams, src = [], {}

    def collect(i, d, zs):
        return [(c, d.get("p%d_%d" % (z, q), NO_ANSWER)) for z in zs for q, c in enumerate(calls[i.alg]) if c.op != "H" or i.has_hash]
    step = 60
    for i, ev in res:
        d = by_id(ev)
        for k in range(1, len(places), step):
            zs = [0] + list(range(k, min(k + step, len(places))))
            streams.append((i, "p%d" % k, collect(i, d, zs)))
            src[(i.name, "p%d" % k)] = (streams[-1][2], zs)
    found = judge_histories(ctx, streams, {"EncSame", "HashSame", "DecSame", "GenuineOpens", "OnlyGenuine", "Returns", "NoRelease", "EncSucceeds", "HashSucceeds", "InputsKept", "SlackKept"})
    done = set()
    for i, label, st, cl in found:
        if i.name in done:
            continue
        h, zs = src[(i.name, label)]
        per = len(h) // len(zs)
        z = zs[st // per]
        c, e = h[st]
        d0 = by_id(drive(ctx.scratch, i, script(i, z)))
        again = collect(i, d0, [0, z])
        a0, a1 = again[st % per][1], again[per + st % per][1]
        # the same call behaves differently at the reference placement
        if z and api_event(i.alg, c, a0) != api_event(i.alg, c, a1):
            done.add(i.name)
            ctx.violation(i.name, i.name + ":placement", "%s: %s %s at placement %s: ret=%s fault=%s (%s) out=%s; at the aligned placement: ret=%s fault=%s out=%s" %
                          (i.alg, c.note, c.desc(), json.dumps(places[z], sort_keys=True), a1.get("ret"), a1.get("fault"), a1.get("fsig", ""), a1.get("out", "")[:80], a0.get("ret"), a0.get("fault"), a0.get("out", "")[:80]),
                          {"implementation": i.name, "placement": places[z], "script": script(i, z)[-20:]})
    c07_edges(ctx, impls, edges)
    ctx.sample({"placement": places[5], "call": calls[ALGS[0]][0].desc()})
    ctx.sample({"placement": places[-1], "call": calls[ALGS[3]][0].desc()})
    return finish(ctx)


def c07_edges(ctx, impls, edges):
    """Inputs whose last, incomplete block begins a given distance before the end of a page."""
    rng = random.Random("edges %d" % ctx.seed)
    tails = sorted({t for t, d in edges})
    base = {}
    for alg in ALGS:
        r = RATE[alg]
        base[alg] = [Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(r + t), rng.randbytes(r + t)) for t in tails if t < r]
    flat = [(alg, c) for alg in ALGS for c in base[alg]]
    made = {id(c): ct for (alg, c), (ret, ct) in zip(flat, spec_results(ctx, flat))}

    def calls(i, t):
        r = RATE[i.alg]
        if t >= r:
            return []
        c = base[i.alg][t]
        ct = made[id(c)]
        f = bytearray(ct)
        f[t] ^= 8
        out = [c, Call("D", c.k, c.n, c.a, ct), Call("D", c.k, c.n, c.a, bytes(f), note="forged")]
        if i.has_hash:
            out.append(Call("H", b"", b"", b"", c.x))
        return out

    def script(i, only=None):
        s, r = [], RATE[i.alg]
        for t in tails:
            if only is not None and t != only[0]:
                continue
            for q, c in enumerate(calls(i, t)):
                s += ["place %s s0" % b for b in "axo"] * (q == 0) + [c.line("e%d_0_%d" % (t, q))]
            for t2, d in edges:
                if t2 == t and (only is None or only[1] == d) and t < r:
                    s += ["place %s s%d" % (b, 4096 - r - d) for b in "axo"]
                    s += [c.line("e%d_%d_%d" % (t, d + 1, q)) for q, c in enumerate(calls(i, t))]
        return s
    streams, src = [], {}
    for i, ev in ctx.run_all(impls, script):
        d = by_id(ev)
        for t in tails:
            cs = calls(i, t)
            if cs:
                order = [-1] + [dist for t2, dist in edges if t2 == t]
                streams.append((i, "e%d" % t, [(c, d.get("e%d_%d_%d" % (t, z + 1, q), NO_ANSWER)) for z in order for q, c in enumerate(cs)]))
                src[i.name, "e%d" % t] = (t, order, len(cs))
    ctx.cov["edge_placements"] = len(edges)
    done = set()
    for i, label, st, cl in judge_histories(ctx, streams, {"EncSame", "HashSame", "DecSame", "GenuineOpens", "OnlyGenuine", "Returns", "NoRelease", "EncSucceeds", "HashSucceeds", "InputsKept", "SlackKept"}):
        t, order, n = src[i.name, label]
        z, q = order[st // n], st % n
        if i.name in done or z < 0:
            continue
        c = calls(i, t)[q]
        d = by_id(drive(ctx.scratch, i, script(i, (t, z))))
        a0, a1 = d.get("e%d_0_%d" % (t, q), NO_ANSWER), d.get("e%d_%d_%d" % (t, z + 1, q), NO_ANSWER)
        if api_event(i.alg, c, a0) != api_event(i.alg, c, a1):
            done.add(i.name)
            ctx.violation(i.name, i.name + ":edge", "%s: %s %s with its last %d bytes beginning %d bytes before the end of a page: ret=%s fault=%s out=%s; elsewhere: ret=%s fault=%s out=%s" %
                          (i.alg, c.note, c.desc(), t, z, a1.get("ret"), a1.get("fault"), a1.get("out", "")[:80], a0.get("ret"), a0.get("fault"), a0.get("out", "")[:80]),
                          {"implementation": i.name, "script": script(i, (t, z))})
