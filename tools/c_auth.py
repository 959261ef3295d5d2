"""C02 - C05: decryption, judged by the interface specification (AeadApi) and the ISAP machine."""
import copy

from agree import *

ARM_CUT = 3


def authentic(ctx, spec_lengths):
    """Authentic records made by the specification: [(alg, Call E, ciphertext)]."""
    calls = []
    for alg in ALGS:
        for al, ml in spec_lengths(alg):
            calls.append((alg, Call("E", rbytes(ctx.rng, 16), ctx.rng.randbytes(16), ctx.rng.randbytes(al), ctx.rng.randbytes(ml))))
    res = spec_results(ctx, calls)
    return [(alg, c, out) for (alg, c), (ret, out) in zip(calls, res)]


def forgeries(ctx, recs, depth=1):
    """recs: [(alg, Call E, ct, big?)] -> {index: [(how, Call D)]} enumerated by TLC from Forge.tla"""
    data = [{"alg": alg, "k": list(c.k), "n": list(c.n), "a": list(c.a), "x": list(ct), "rate": RATE[alg], "big": big,
             "flips": list(range(8)) if not big else [(len(ct) + q) % 8 for q in (0,)]} for alg, c, ct, big in recs]
    p = ctx.tracefile(data)
    r = ctx.tlc("Forge", env={"VERIF_TRACE": p})
    out = {}
    for m in re.finditer(r'^"FORGE (\[.*\])"$', r.text, re.M):
        d = json.loads(m.group(1).replace('\\"', '"'))
        out.setdefault(d[0] - 1, []).append((" + ".join(d[1]), Call("D", bytes(d[2]), bytes(d[3]), bytes(d[4]), bytes(d[5]))))
    for v in out.values():
        v.sort(key=lambda t: (t[0], t[1].k, t[1].n, t[1].a, t[1].x))
    return out


NO_ANSWER = {"fault": 1, "ret": 99, "len": "0", "out": ""}


def judge_histories(ctx, alg_streams, clauses, rel=lambda e: None):
    """alg_streams: [(impl, label, [(Call, event)])].  Identical histories are judged once.
    Returns [(impl, label, index, clauses)] for the clauses asked for."""
    uniq, order = {}, []
    for impl, label, hist in alg_streams:
        rec = [api_event(impl.alg, c, e) for c, e in hist]
        for r, (c, e) in zip(rec, hist):
            if rel(e):
                r["rel"] = rel(e)
        k = hashlib.md5(json.dumps(rec, sort_keys=True).encode()).hexdigest()
        # the specification only compares byte strings: number them
        names = {}
        for r in rec:
            for f in ("k", "n", "a", "x", "out"):
                r[f] = names.setdefault(r[f], len(names))
        if k not in uniq:
            uniq[k] = (len(order), [])
            order.append({"ev": rec})
        uniq[k][1].append((impl, label))
    ctx.add("histories", len(alg_streams))
    ctx.add("distinct_histories", len(order))
    ctx.add("calls_in_histories", sum(len(h) for i, l, h in alg_streams))
    bad = ctx.judge("ApiTrace", order)
    out = []
    for pos, members in uniq.values():
        for step, cl in bad.get(pos, []):
            hit = sorted(set(cl) & set(clauses))
            if hit:
                for impl, label in members:
                    out.append((impl, label, step - 1, hit))
    return out


def report_histories(ctx, found, hist_of, rerun):
    """Confirms by running the history again and reports one violation per implementation and clause."""
    done = set()
    for impl, label, step, clauses in found:
        key = (impl.name, tuple(clauses))
        if key in done:
            continue
        hist = hist_of(impl, label)
        again = rerun(impl, label)
        c, e = hist[step]
        e2 = again[step][1] if step < len(again) else NO_ANSWER
        if api_event(impl.alg, c, e) != api_event(impl.alg, c, e2):
            continue
        done.add(key)
        ctx.violation(impl.name, "%s:%s" % (impl.name, "+".join(clauses)),
                      "%s: call %d of a history breaks %s: %s %s gave ret=%s fault=%s len=%s out=%s" %
                      (impl.alg, step, ",".join(clauses), c.note, c.desc(), e.get("ret"), e.get("fault"), e.get("len"), e.get("out", "")[:120]),
                      {"implementation": impl.name, "step": step, "script": [cc.line("c%d" % q) for q, (cc, ee) in enumerate(hist[:step + 1])][-400:],
                       "event": e})


class Histories:
    """Histories (lists of calls) per instance, run on every implementation."""

    def __init__(self, ctx, impls, pre=()):
        self.ctx, self.impls, self.pre = ctx, impls, list(pre)
        self.h = {}                 # alg -> [(label, [Call])]

    def add(self, alg, label, calls):
        self.h.setdefault(alg, []).append((label, calls))

    def script(self, impl, only=None):
        s = list(self.pre)
        for label, calls in self.h.get(impl.alg, []):
            if only and label != only:
                continue
            for q, c in enumerate(calls):
                s.append(c.line("%s_%d" % (label, q)))
        return s if len(s) > len(self.pre) else None

    def collect(self, ev, label, calls):
        d = by_id(ev)
        return [(c, d.get("%s_%d" % (label, q), NO_ANSWER)) for q, c in enumerate(calls)]

    def run(self, timeout=300, extra=None):
        self.extra = {}
        res = self.ctx.run_all(self.impls, lambda i: (self.script(i) or list(self.pre)) + (extra(i) if extra else []), timeout=timeout)
        self.out = {}
        self.all = {}
        for impl, ev in res:
            self.all[impl.name] = ev
            for label, calls in self.h.get(impl.alg, []):
                self.out[(impl.name, label)] = self.collect(ev, label, calls)
        return res

    def judge(self, clauses):
        streams = [(i, label, self.out[(i.name, label)]) for i in self.impls for label, calls in self.h.get(i.alg, [])]
        found = judge_histories(self.ctx, streams, clauses)
        calls_of = {(alg, label): calls for alg, l in self.h.items() for label, calls in l}
        report_histories(self.ctx, found, lambda i, l: self.out[(i.name, l)],
                         lambda i, l: self.collect(drive(self.ctx.scratch, i, self.script(i, l), timeout=200), l, calls_of[(i.alg, l)]))


def self_made(alg, c, ct):
    """the event the specification would have produced for its own encryption"""
    return {"fault": 0, "ret": 0, "len": "%x" % len(ct), "out": ct.hex(), "inputs": 1, "slack": 1}


# ------------------------------------------------------------------ C02
def bulk_counter(ctx, impls, stages_of, name, pre, what, ops):
    """Bulk stages with a counter that must stay 0; returns after reporting."""
    deep = lambda i: deep_stages(i.alg, ctx.seed * 1000 + 500 + ops, i.name in ctx.hot(), i.slow)

    def script(i):
        s = list(pre) + ["ops %d" % ops]
        for st in stages_of(i):
            s += st.lines()
        return s
    res = [(i, stages_of(i), ev) for i, ev in ctx.run_all(impls, script, timeout=300)]
    res += [(i, [st], ev) for i, st, ev in run_deep(ctx, impls, list(pre) + ["ops %d" % ops], deep)]
    for i, sts, ev in res:
        if died(ev):
            ev2 = drive(ctx.scratch, i, script(i) if len(sts) > 1 else list(pre) + ["ops %d" % ops] + sts[0].lines(), timeout=300)
            if died(ev2):
                ctx.violation(i.name, i.name + ":died", "%s: process ends or hangs: %s" % (i.alg, ev[-1].get("why")), {"implementation": i.name})
        for e in ev:
            if e["op"] != "bulk":
                continue
            ctx.add("bulk_calls", e["n"])
            ctx.add("bulk_forgeries", e.get("forg", 0))
            if e.get(name, 0):
                st = [s for s in sts if s.name == e["id"]][0]
                ev2 = [x for x in drive(ctx.scratch, i, list(pre) + ["ops %d" % ops] + st.lines(e["first"], st.chunk), timeout=200) if x["op"] == "bulk"]
                if ev2 and ev2[0].get(name, 0):
                    v = by_id(drive(ctx.scratch, i, st.vec(e[name + "1"]), timeout=60)).get("v", {})
                    ctx.violation(i.name, i.name + ":" + name, "%s: %s (%d of %d calls; first: k=%s n=%s a=%s m=%s %s)" %
                                  (i.alg, what, e[name], e["n"], v.get("k"), v.get("n"), v.get("a", "")[:80], v.get("m", "")[:80], e.get(name + "w", "")),
                                  {"implementation": i.name, "vector": v, "modification": e.get(name + "w", ""), "stage": st.lines(e[name + "1"], 1, 1)})
                break
    return [(i, ev) for i, sts, ev in res]


def c02(ctx):
    impls = ctx.built()
    n = 12 if not ctx.thorough else 60

    def lens(alg):
        r = RATE[alg]
        base = [(0, 0), (0, r), (r, 0), (r, 2 * r), (3, r - 1), (r - 1, r + 1), (2 * r, 1), (7, 3 * r - 1)]
        while len(base) < n:
            base.append((ctx.rng.randrange(50), ctx.rng.randrange(90)))
        return base[:n]
    recs = authentic(ctx, lens)
    H = Histories(ctx, impls, ["save 1"])
    for alg in ALGS:
        mine = [(c, ct) for a, c, ct in recs if a == alg]
        # ciphertexts of the specification
        H.add(alg, "spec", [Call("D", c.k, c.n, c.a, ct, note="ciphertext of the specification") for c, ct in mine])
        # own ciphertexts, immediately, later, after rejections and after other calls
        calls = []
        for c, ct in mine:
            calls.append(Call("E", c.k, c.n, c.a, c.x))
        for q, (c, ct) in enumerate(mine):
            bad = bytearray(ct)
            bad[-1 - q % 16] ^= 1 << (q % 8)
            calls += [Call("D", c.k, c.n, c.a, ct), Call("D", c.k, c.n, c.a, bytes(bad)), Call("D", c.k, c.n, c.a, ct), Call("D", c.k, c.n, c.a, ct[:q % 16]),
                      Call("D", c.k, c.n, c.a, ct)]
        H.add(alg, "hist", calls)
    sc = 3.0 if ctx.thorough else 0.8
    own = {alg: own_stream(ctx, alg) for alg in ALGS}
    res = H.run(extra=lambda i: own[i.alg])
    # decryptions of the specification's ciphertexts are jobs for the ISAP machine
    per = {}
    for i in impls:
        for c, e in H.out[(i.name, "spec")]:
            per.setdefault((i.alg, json.dumps(isap_job(i.alg, c, e))), []).append((i, c, e))
    keys = list(per)
    # one representative of each distinct outcome; agreeing outcomes are few
    bad = ctx.judge("IsapTrace", [json.loads(k[1]) for k in keys])
    for pos in bad:
        for i, c, e in per[keys[pos]]:
            e2 = by_id(drive(ctx.scratch, i, [c.line("c")])).get("c", NO_ANSWER)
            if ev_key(e2) == ev_key(e):
                ctx.violation(i.name, i.name + ":genuine", "%s: %s gave ret=%s fault=%s len=%s out=%s" % (i.alg, c.desc(), e.get("ret"), e.get("fault"), e.get("len"), e.get("out", "")[:100]),
                              {"implementation": i.name, "script": [c.line("c")], "event": e})
    ctx.cov["specification_ciphertexts_decrypted"] = len(recs)
    H.judge({"GenuineOpens", "EncInvertible"})
    # own ciphertexts through references: literal lengths and contents
    streams, src = [], {}
    for i, ev in res:
        d = by_id(ev)
        hist = []
        for l in own[i.alg]:
            p = l.split()
            if p[0] == "E":
                g = [bytes.fromhex(z) if z != "-" else b"" for z in p[2:6]]
                c = Call("E", *g)
                e = d.get(p[1], NO_ANSWER)
                hist.append((c, e))
            elif p[0] == "D":
                base = hist[-1]
                e = d.get(p[1], NO_ANSWER)
                x = bytes.fromhex(e["x"]) if "x" in e else bytes.fromhex(base[1].get("out", ""))
                hist.append((Call("D", base[0].k, base[0].n, base[0].a, x), e))
        for k in range(0, len(hist), 200):
            streams.append((i, "own%d" % k, hist[k:k + 200]))
            src[(i.name, "own%d" % k)] = hist[k:k + 200]
    found = judge_histories(ctx, streams, {"GenuineOpens"})

    def rerun(i, l):
        h = src[(i.name, l)]
        ev = by_id(drive(ctx.scratch, i, [c.line("c%d" % q) for q, (c, e) in enumerate(h)], timeout=200))
        return [(c, ev.get("c%d" % q, NO_ANSWER)) for q, (c, e) in enumerate(h)]
    report_histories(ctx, found, lambda i, l: src[(i.name, l)], rerun)
    bulk_counter(ctx, impls, lambda i: aead_stages(i.alg, ctx.seed * 1000 + 201, sc), "rt", ["ro 0"], "a genuine ciphertext is not opened to its message", 1)
    long_flags(ctx, impls, "good")
    # genuine ciphertexts between long runs of forgeries
    res, script = storms(ctx, impls, ctx.seed * 100 + 2, share=4)
    for i, ev in res:
        for e in ev:
            if e["op"] == "storm":
                ctx.add("forgeries_in_between", e["tried"])
                if e["rejgen"]:
                    again = [x for x in drive(ctx.scratch, i, script(i)) if x["op"] == "storm" and x["rejgen"]]
                    if again:
                        ctx.violation(i.name, i.name + ":genuine", "%s: %d genuine ciphertexts not opened to their message between %d forgeries" % (i.alg, e["rejgen"], e["tried"]), {"implementation": i.name, "storm": script(i)})
        if died(ev):
            report_died(ctx, i, script(i))
    for alg, c, ct in recs[:2]:
        ctx.sample({"instance": alg, "genuine": c.desc(), "ciphertext": ct.hex()})
    return finish(ctx)


def own_stream(ctx, alg):
    s = ["save 1"]
    for c in literal_calls(ctx, alg, maxlen=5000):
        s.append(c.line(c.id))
        s.append("D r%s %s %s %s @%s" % (c.id, hx(c.k), hx(c.n), hx(c.a), c.id))
    s.append("save 0")
    return s


# ------------------------------------------------------------------ C03 / C04
def forge_histories(ctx, impls, H, thorough):
    def lens(alg):
        r = RATE[alg]
        return [(0, 0), (5, r + 3), (2 * r, 2 * r), (0, r), (r, 0), (300, 310)]
    recs = authentic(ctx, lens)
    recs = [(alg, c, ct, len(c.a) >= 300) for alg, c, ct in recs]
    fs = forgeries(ctx, recs)
    ctx.cov["forged_inputs_enumerated"] = sum(len(v) for v in fs.values())
    for q, (alg, c, ct, big) in enumerate(recs):
        pro = [Call("E", c.k, c.n, c.a, c.x), Call("D", c.k, c.n, c.a, ct)]
        f = fs.get(q, [])
        for k in range(0, len(f), 350):
            part = []
            for z, (how, d) in enumerate(f[k:k + 350]):
                part.append(Call("D", d.k, d.n, d.a, d.x, note=how))
                if z % 50 == 49:
                    part.append(Call("D", c.k, c.n, c.a, ct))
            H.add(alg, "f%d_%d" % (q, k), pro + part)
    around = {alg: [] for alg in ALGS}
    for alg, c, ct in authentic(ctx, lambda alg: [p for v in focus(alg, 2000, 3) for p in ((v + 1, 5), (4, v + 1), (v, v))]):
        around[alg].append(("focus", c.k, c.n, c.a, c.x, ct))
    # forgeries of the stored records with unusual tags
    for alg in ALGS:
        rows = rare(alg) + around[alg]
        calls = []
        for f, k, n, a, m, c in rows:
            calls += [Call("E", k, n, a, m), Call("D", k, n, a, c)]
            if f == "focus":
                for z in range(6):
                    q, b = ctx.rng.randrange(len(a) + len(m)), 1 << ctx.rng.randrange(8)
                    y = bytearray(a + c)
                    y[q] ^= b
                    calls.append(Call("D", k, n, bytes(y[:len(a)]), bytes(y[len(a):]), note="byte %d" % q))
            t0 = len(c) - 16
            for how, ch in tag_changes(ctx.rng, c[t0:]):
                calls.append(Call("D", k, n, a, c[:t0] + bytes(ch), note=how))
            if m:
                x = bytearray(c)
                x[ctx.rng.randrange(t0)] ^= 1 << ctx.rng.randrange(8)
                calls.append(Call("D", k, n, a, bytes(x), note="body"))
        for k in range(0, len(calls), 1200):
            # histories begin with the encryptions their forgeries derive from
            pro = [c for c in calls[max(0, k - 60):k] if c.op == "E"]
            H.add(alg, "rare%d" % k, pro + calls[k:k + 1200])
    return recs, fs


def compare_design(ctx, recs, H):
    """Compare.tla over the forged tags of the plan: every wrong way of comparing tags accepts one of them."""
    for alg in ALGS if ctx.thorough else [ALGS[ctx.seed % 4]]:
        gen, pairs, seen = {}, [], set()
        for label, calls in H.h[alg]:
            for c in calls:
                if c.op == "D" and len(c.x) >= 16 and not c.note:
                    gen[c.k, c.n, c.a, c.x[:-16]] = c.x[-16:]
        for label, calls in H.h[alg]:
            for c in calls:
                key = (c.k, c.n, c.a, c.x[:-16])
                if c.op == "D" and c.note and len(c.x) >= 16 and key in gen and (key, c.x[-16:]) not in seen and c.x[-16:] != gen[key]:
                    seen.add((key, c.x[-16:]))
                    pairs.append({"g": list(gen[key]), "p": list(c.x[-16:]), "k": list(c.k), "n": list(c.n)})
        r = ctx.tlc("Compare", env={"VERIF_TRACE": ctx.tracefile(pairs)})
        missed = re.findall(r'"MISSED (.*)"', r.text)
        if missed or not r.text.count('"CAUGHT"'):
            raise CheckError("the forged tags do not expose %d comparisons: %s" % (len(missed), missed[:5]))
        ctx.cov["comparisons_exposed_" + alg] = r.text.count('"CAUGHT"')
        ctx.cov["forged_tags_" + alg] = len(pairs)


def tag_changes(rng, t):
    """Changed tags: one byte, all but one byte, everything after / before a position, equal differences at two places."""
    out = []
    for p in range(16):
        z = bytearray(t)
        z[p] ^= 1 << rng.randrange(8)
        out.append(("tag byte %d" % p, z))
    for p in range(1, 16):
        z = bytearray(rng.randbytes(16))
        z[:p] = t[:p]
        z[p] = t[p] ^ 0x5a
        out.append(("tag after %d bytes" % p, z))
        z = bytearray(rng.randbytes(16))
        z[p:] = t[p:]
        z[p - 1] = t[p - 1] ^ 0xa5
        out.append(("tag before byte %d" % p, z))
    for d in (1, 2, 4, 8):
        p = rng.randrange(16)
        z = bytearray(t)
        b = 1 << rng.randrange(8)
        z[p] ^= b
        z[(p + d) % 16] ^= b
        out.append(("tag bytes %d and %d" % (p, (p + d) % 16), z))
    return [(h, z) for h, z in out if bytes(z) != bytes(t)]


def storms(ctx, impls, base, fill="fill a5", share=1):
    n = {"isapa128av20": 400000, "isapa128v20": 120000, "isapk128av20": 60000, "isapk128v20": 20000}
    k = 8 if ctx.thorough else 1

    def script(i):
        c = n[i.alg] * k // share // (4 if i.slow else 1) // (2 if i.name.endswith("ref") or "isapxv20" in i.name or "8" in i.name.split("/")[-1] else 1)
        b = getattr(i, "storm_base", base)
        return [fill, "storm a %d %d" % (b, c), "storm b %d %d" % (b + 1, c // 3)]
    # the changed ones again, with other seeds
    again = []
    for i in impls:
        for z in range(12 if i.name in ctx.hot(3) else 4 if i.name in ctx.hot() else 0):
            j = copy.copy(i)
            j.storm_base = base + 1000003 * (z + 1)
            again.append(j)
    return ctx.run_all(impls + again, script, timeout=300), script


def c03(ctx):
    impls = ctx.built()
    H = Histories(ctx, impls)
    recs, fs = forge_histories(ctx, impls, H, ctx.thorough)
    compare_design(ctx, recs, H)
    H.run()
    H.judge({"OnlyGenuine"})
    # a sample of the forged calls, judged by the ISAP machine itself
    per = {}
    for alg in ALGS:
        labels = [l for l, c in H.h[alg]]
        for _ in range(10 if not ctx.thorough else 80):
            l = ctx.rng.choice(labels)
            calls = dict(H.h[alg])[l]
            p = ctx.rng.randrange(2, len(calls))
            for i in impls:
                if i.alg == alg:
                    c, e = H.out[(i.name, l)][p]
                    per.setdefault((alg, json.dumps(isap_job(alg, c, e))), []).append((i, c, e))
    keys = list(per)
    bad = ctx.judge("IsapTrace", [json.loads(k[1]) for k in keys])
    for pos in bad:
        for i, c, e in per[keys[pos]]:
            if e.get("ret") != 0:       # an authentic input refused belongs to C02, but is "exactly" here too
                continue
            e2 = by_id(drive(ctx.scratch, i, [c.line("c")])).get("c", NO_ANSWER)
            if ev_key(e2) == ev_key(e):
                ctx.violation(i.name, i.name + ":accept", "%s: %s %s accepted" % (i.alg, c.note, c.desc()), {"implementation": i.name, "script": [c.line("c")], "event": e})
    # many random forgeries
    res, script = storms(ctx, impls, ctx.seed * 100 + 3)
    for i, ev in res:
        for e in ev:
            if e["op"] == "storm":
                ctx.add("random_forgeries", e["tried"])
                if e["acc"]:
                    c = Call("D", bytes.fromhex(e["k"]), bytes.fromhex(e["n"]), bytes.fromhex(e["a"]), bytes.fromhex(e["x"]), note=e["what"])
                    e2 = by_id(drive(ctx.scratch, i, [c.line("c")])).get("c", NO_ANSWER)
                    again = [x for x in drive(ctx.scratch, i, script(i)) if x["op"] == "storm" and x["acc"]]
                    if again:
                        ctx.violation(i.name, i.name + ":accept", "%s: %d of %d random forgeries accepted, first: %s %s (alone: ret=%s)" %
                                      (i.alg, e["acc"], e["tried"], e["what"], c.desc(), e2.get("ret")), {"implementation": i.name, "script": [c.line("c")], "storm": script(i)})
        if died(ev):
            report_died(ctx, i, script(i))
    bulk_counter(ctx, impls, lambda i: aead_stages(i.alg, ctx.seed * 1000 + 301, 2.0 if ctx.thorough else 0.6), "fa", ["ro 0"], "a forged input is accepted", 2)
    long_flags(ctx, impls, "acc")
    for q in list(fs)[:3]:
        ctx.sample({"instance": recs[q][0], "modification": fs[q][0][0], "call": fs[q][0][1].desc()})
    return finish(ctx)


def report_died(ctx, i, script):
    ev = drive(ctx.scratch, i, script)
    if died(ev):
        ctx.violation(i.name, i.name + ":died", "%s: the process ends or a call never returns (%s)" % (i.alg, ev[-1].get("why")), {"implementation": i.name, "script": script[:50]})


def c05(ctx):
    impls = ctx.built()
    pres = [("e", ["place x e", "place o e", "place a e", "place k e", "place n e"]),
            ("s", ["place x s", "place o s", "place a s", "place k s", "place n s"]),
            ("z", ["place x z", "place o z", "place a z"])]
    base = {}
    for alg in ALGS:
        calls = []
        for al in [0, 1, 7, RATE[alg], 45, 300] + [v + 1 for v in focus(alg, 3000)] + ([64, 129, 600, 1100, 5000] if any(i.alg == alg and i.name in ctx.hot() for i in impls) else []):
            for xl in range(16):
                for kind in range(4 if al < 8 else 2):
                    k, n, a = ctx.rng.randbytes(16), ctx.rng.randbytes(16), ctx.rng.randbytes(al)
                    x = [ctx.rng.randbytes(xl), bytes(xl), b"\xff" * xl, (b"\x80" + bytes(15))[:xl]][kind]
                    calls.append((k, n, a, x))
        base[alg] = calls
    lines = {}
    for label, pre in pres:
        H = Histories(ctx, impls, ["save 1"] + pre + ["stack a5"])
        for alg in ALGS:
            c = [Call("D", k, n, a, x, note="%d bytes" % len(x)) for k, n, a, x in base[alg]]
            half = len(c) // 2
            H.add(alg, "s1", c[:half])
            H.add(alg, "s2", c[half:])
        # prefixes of genuine ciphertexts, in a process that also encrypts and decrypts
        extra = []
        for q in range(16):
            extra.append((q, ctx.rng.randbytes(16), ctx.rng.randbytes(16), ctx.rng.randbytes(q), ctx.rng.randbytes(q % 3)))

        def own(i):
            s = []
            for q, k, n, a, m in extra:
                s.append("E e%d %s %s %s %s" % (q, hx(k), hx(n), hx(a), hx(m)))
                s.append("D p%d %s %s %s @e%d<%d" % (q, hx(k), hx(n), hx(a), q, q))
                s.append("D g%d %s %s %s @e%d+%d" % (q, hx(k), hx(n), hx(a), q, len(m) + 16 - q))
            return s
        res = H.run(extra=own)
        H.judge({"ShortRejected"})
        streams = []
        src = {}
        for i, ev in res:
            d = by_id(ev)
            hist = []
            for q, k, n, a, m in extra:
                hist.append((Call("E", k, n, a, m), d.get("e%d" % q, NO_ANSWER)))
                for z in ("p", "g"):
                    e = d.get("%s%d" % (z, q), NO_ANSWER)
                    hist.append((Call("D", k, n, a, bytes.fromhex(e.get("x", "")), note="part of a ciphertext"), e))
            streams.append((i, "own", hist))
            src[(i.name, "own")] = hist
        found = judge_histories(ctx, streams, {"ShortRejected"})

        def rerun(i, l):
            h = src[(i.name, l)]
            ev = by_id(drive(ctx.scratch, i, pre + ["stack a5"] + [c.line("c%d" % q) for q, (c, e) in enumerate(h)], timeout=200))
            return [(c, ev.get("c%d" % q, NO_ANSWER)) for q, (c, e) in enumerate(h)]
        report_histories(ctx, found, lambda i, l: src[(i.name, l)], rerun)
    ctx.cov["short_inputs_per_instance"] = len(base[ALGS[0]]) * len(pres) + 32 * len(pres)
    ctx.sample({"instance": ALGS[0], "call": Call("D", *base[ALGS[0]][9]).desc()})
    return finish(ctx)


# ------------------------------------------------------------------ C04
def watch_calls(ctx, alg, slow):
    """Rejected decryptions: [(usec, Call)].  x86: every store to the output is observed."""
    out = []
    r = RATE[alg]
    if slow:
        lens = [(5000, 12000), (0, 9000), (13000, 4200), (100, 12000), (5, 40)]
    else:
        lens = [(al, ml) for al in (0, 5, 2 * r) for ml in list(range(1, 2 * r + 3)) + [3 * r, 5 * r + 1, 64, 100, 128, 200, 256, 300]] + [(5000, 5000), (40, 1500)]
    for v in focus(alg, 20000):
        lens += [(3, v), (3, v + 1), (v + 1, 5), (v, v)]
    return lens


def c04(ctx):
    impls = ctx.built()
    H = Histories(ctx, impls)
    recs, fs = forge_histories(ctx, impls, H, ctx.thorough)
    H.run()
    H.judge({"NoRelease"})
    # every moment of rejected calls
    calls = {}
    for alg in ALGS:
        for slow in (False, True):
            enc = [Call("E", ctx.rng.randbytes(16), ctx.rng.randbytes(16), ctx.rng.randbytes(al), ctx.rng.randbytes(ml)) for al, ml in watch_calls(ctx, alg, slow)]
            calls[alg, slow] = [(c, ctx.rng.randrange(16), q % 5) for q, c in enumerate(enc)]
    times = (100, 37, 61, 11, 250, 23, 5, 150) if not ctx.thorough else (100, 37, 61, 250, 500, 11) * 4

    def script(i):
        s = ["save 1"]
        for q, (c, byte, kind) in enumerate(calls[i.alg, i.slow]):
            s.append(c.line("e%d" % q))
            s.append("save 0")
            tagpos = len(c.x) + byte
            n, a, x = hx(c.n), hx(c.a), "@e%d^%d:%02x" % (q, tagpos, 1 << (byte % 8))
            if kind == 1:
                x = "@e%d^%d:ff^%d:01" % (q, len(c.x), len(c.x) + 15)
            elif kind == 2 and c.x:
                x = "@e%d^%d:40" % (q, byte % len(c.x))
            elif kind == 3:
                b = bytearray(c.n)
                b[byte] ^= 1
                n, x = hx(b), "@e%d" % q
            elif kind == 4 and c.a:
                b = bytearray(c.a)
                b[byte % len(b)] ^= 1
                a, x = hx(b), "@e%d" % q
            for z, us in enumerate(times if i.slow else (0,)):
                s.append("watch w%d_%d %d D %s %s %s %s" % (q, z, us, hx(c.k), n, a, x))
            s.append("save 1")
        return s
    res = ctx.run_all(impls, script, timeout=300)
    streams, src = [], {}
    for i, ev in res:
        d = by_id(ev)
        hist = []
        for q, (c, byte, kind) in enumerate(calls[i.alg, i.slow]):
            for z in range(len(times) if i.slow else 1):
                e = dict(d.get("w%d_%d" % (q, z), NO_ANSWER))
                x = bytes.fromhex(e.get("x", ""))
                if e.get("stores", 0):
                    ctx.add("observed_stores", e["stores"])
                ctx.add("observed_looks", e.get("looks", 0))
                cc = Call("D", c.k, bytes.fromhex(e.get("n", "")), bytes.fromhex(e.get("a", "")), x, note="%d of %d observations show released bytes;" % (e.get("dirty", 0), e.get("stores", 0) + e.get("looks", 0)))
                if e.get("dirty", 0):
                    e["dirtyrel"] = 1
                hist.append((cc, e))
        streams.append((i, "watch", hist))
        src[i.name] = hist
    found = judge_histories(ctx, streams, {"NoRelease"}, rel=lambda e: "dirty" if e.get("dirtyrel") else None)
    done = set()
    for i, label, step, cl in found:
        if i.name in done:
            continue
        ev = by_id(drive(ctx.scratch, i, script(i), timeout=300))
        q = step // (len(times) if i.slow else 1)
        if any(ev.get("w%d_%d" % (q, z), {}).get("dirty", 0) or any(b not in (0, 0xa5) for b in bytes.fromhex(ev.get("w%d_%d" % (q, z), {}).get("out", ""))) for z in range(len(times))):
            done.add(i.name)
            c, e = src[i.name][step]
            ctx.violation(i.name, i.name + ":transient", "%s: plaintext bytes in the output buffer during a rejected call: %s %s" % (i.alg, c.note, c.desc()),
                          {"implementation": i.name, "watch": c.body(), "event": {k: v for k, v in e.items() if k not in ("x", "a", "out")}})
    res, sscript = storms(ctx, impls, ctx.seed * 100 + 44)
    for i, ev in res:
        for e in ev:
            if e["op"] == "storm":
                ctx.add("random_forgeries", e["tried"])
                if e["dirty"]:
                    again = [x for x in drive(ctx.scratch, i, sscript(i)) if x["op"] == "storm" and x["dirty"]]
                    if again:
                        ctx.violation(i.name, i.name + ":release", "%s: %d of %d rejected forgeries leave bytes in the output" % (i.alg, e["dirty"], e["tried"]), {"implementation": i.name, "storm": sscript(i)})
        if died(ev):
            report_died(ctx, i, sscript(i))
    bulk_counter(ctx, impls, lambda i: aead_stages(i.alg, ctx.seed * 1000 + 401, 2.0 if ctx.thorough else 0.5), "rl", ["ro 0"], "a rejected call leaves plaintext bytes in the output", 2)
    for q in list(fs)[:3]:
        ctx.sample({"instance": recs[q][0], "modification": fs[q][-1][0], "call": fs[q][-1][1].desc()})
    return finish(ctx)
