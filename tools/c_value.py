"""C01, C11: values of encryption and hashing against the TLA+ machines."""
from agree import *


def shapes(alg, rng, n):
    """Length pairs around the block structure of the instance."""
    r = RATE[alg]
    edge = [0, 1, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r]
    pairs = [(0, 0), (r, r), (0, r), (r, 0), (r - 1, r + 1), (2 * r, 1), (1, 2 * r), (r + 1, r - 1), (r - 1, r - 1), (2 * r - 1, 2 * r + 1)]
    while len(pairs) < n:
        k = rng.randrange(4)
        if k == 0:
            pairs.append((rng.choice(edge), rng.choice(edge)))
        elif k == 1:
            pairs.append((rng.randrange(70), rng.randrange(70)))
        elif k == 2:
            pairs.append((rng.randrange(8 * r), rng.randrange(3 * r)))
        else:
            pairs.append((rng.randrange(3 * r), rng.randrange(8 * r)))
    return pairs[:n]


def spec_vectors(ctx, alg, n, tag="s"):
    out = []
    for q, (al, xl) in enumerate(shapes(alg, ctx.rng, n)):
        out.append(Call("E", rbytes(ctx.rng, 16), rbytes(ctx.rng, 16), rbytes(ctx.rng, al), rbytes(ctx.rng, xl), "%s%d" % (tag, q)))
    return out


def report_bad(ctx, alg, impl, c, e, expected=""):
    ctx.violation(impl.name, "%s:%s" % (impl.name, "hash" if c.op == "H" else "value"),
                  "%s: %s gave ret=%s fault=%s len=%s out=%s, not what the specification says" %
                  (alg, c.desc(), e.get("ret"), e.get("fault"), e.get("len"), e.get("out", "")[:200]),
                  {"implementation": impl.name, "script": [c.line("c")], "event": {k: (v if not isinstance(v, str) else v[:2000]) for k, v in e.items()}})


def check_calls(ctx, alg, calls, results, judged):
    """Every implementation's outcome of every call, compared; the representative outcome of every
    call in `judged` and all divergent ones go to TLC.  Returns suspicious (impl, Call, event)."""
    cmap = {c.id: c for c in calls}
    per = {}
    for impl, ev in results:
        d = by_id(ev)
        for c in calls:
            e = d.get(c.id) or {"op": c.op, "fault": 1, "ret": 99, "len": "0", "out": "", "fsig": "no answer"}
            per.setdefault(c.id, {}).setdefault(ev_key(e), []).append((impl, e))
    ask = []
    huge = []
    for cid, groups in per.items():
        c = cmap[cid]
        if cid in judged or len(groups) > 1:
            # the most common outcome first; small inputs only
            for k, members in sorted(groups.items(), key=lambda t: -len(t[1])):
                ask.append((members, c, len(groups) > 1))
    ask.sort(key=lambda t: (t[1].id not in judged, shrink_for_tlc(t[1])))
    pick, extra, cnt = [], 0, Counter()
    for members, c, div in ask:
        if c.id not in judged:
            names = members[0][0].name
            if cnt[names] >= 3 or shrink_for_tlc(c) > 6000:
                if shrink_for_tlc(c) > 6000 and div:
                    huge.append((members, c))
                continue
            cnt[names] += 1
        pick.append((members, c))
    res = judge_calls(ctx, alg, [(m[0][0], c, m[0][1]) for m, c in pick], limit=10 ** 6)
    bad = []
    for (members, c), ok in zip(pick, res):
        if ok is False:
            bad += [(impl, c, e) for impl, e in members]
    if not bad:                       # only huge inputs differ: the minority is wrong
        for members, c in huge[:40]:
            groups = per[c.id]
            if len(members) * 2 < sum(len(g) for g in groups.values()):
                bad += [(impl, c, e) for impl, e in members]
    ctx.add("call_outcomes_compared", sum(len(g) for p in per.values() for g in p.values()))
    return bad


def confirm_and_report(ctx, alg, bad):
    done = set()
    for impl, c, e in bad:
        if impl.name in done:
            continue
        ev = by_id(drive(ctx.scratch, impl, [c.line("c")], timeout=120))
        e2 = ev.get("c") or {"op": c.op, "fault": 1, "ret": 99, "len": "0", "out": ""}
        if ev_key(e2) == ev_key(e):
            done.add(impl.name)
            report_bad(ctx, alg, impl, c, e2)


def value_check(ctx, kind):
    impls = [i for i in ctx.built() if kind == "aead" or i.has_hash]
    algs = ALGS if kind == "aead" else ["isapa128av20"]
    sc = 4.0 if ctx.thorough else 1.0
    plan, calls, judged = {}, {}, {}
    for alg in algs:
        if kind == "aead":
            n = {"isapa128av20": 44, "isapa128v20": 26, "isapk128av20": 44, "isapk128v20": 26}[alg] * (6 if ctx.thorough else 1)
            plan[alg] = aead_stages(alg, ctx.seed * 1000 + 7, sc)
            vec = spec_vectors(ctx, alg, n)
            judged[alg] = {c.id for c in vec}
            calls[alg] = vec + literal_calls(ctx, alg)
        else:
            plan[alg] = hash_stages(ctx.seed * 1000 + 11, sc)
            lens = list(range(0, 26)) + [31, 32, 33, 39, 40, 41, 63, 64, 65, 100, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1025, 2047, 2048] + \
                [ctx.rng.randrange(300) for _ in range(60 if not ctx.thorough else 600)]
            vec = [Call("H", b"", b"", b"", rbytes(ctx.rng, L), "s%d" % q) for q, L in enumerate(lens)]
            judged[alg] = {c.id for c in vec}
            calls[alg] = vec + literal_calls(ctx, alg, True)
    script, deep = {}, {}
    more = companions(impls, ctx.hot())
    for alg in algs:
        s = [c.line() for c in calls[alg]] + ["ro 0", "ops 0"]
        for st in plan[alg]:
            s += st.lines()
        script[alg] = s
        if kind == "aead":
            deep[alg] = deep_stages(alg, ctx.seed * 1000 + 7)
        else:
            deep[alg] = [Stage("Dh", ctx.seed * 1000 + 31, 0, chunk=50, grid=(0, 1, 1, 1400, 4000, 1), cmd="bulkh"), Stage("Dr", ctx.seed * 1000 + 32, 60000, 0, 400, 200, cmd="bulkh"),
                         Stage("Ds", ctx.seed * 1000 + 33, 100000, 0, 100, 200, cmd="bulkh"), Stage("Dt", ctx.seed * 1000 + 34, 4000, 0, 9000, 20, cmd="bulkh")]
        if any(i.alg == alg and i.name in more for i in impls):
            plan[alg] = plan[alg] + deep[alg]
    results = append_deep(ctx.run_all(impls, lambda i: script[i.alg], timeout=300), run_deep(ctx, [i for i in impls if i.name in more], ["ro 0", "ops 0"], lambda i: deep[i.alg]))
    ctx.say("ran")
    for alg in algs:
        rs = [(i, ev) for i, ev in results if i.alg == alg]
        if not rs:
            continue
        bad = check_calls(ctx, alg, calls[alg], rs, judged[alg])
        dis, good, n = disagreements(rs, plan[alg])
        ctx.add("bulk_chunks_compared", n)
        ctx.add("bulk_calls", sum(e["n"] for i, ev in rs for e in ev if e["op"] in ("bulk", "bulkh")))
        names = {b[0].name for b in bad}
        stages = {s.name: s for s in plan[alg]}
        byname = {i.name: i for i, ev in rs}
        todo = []
        nd = 0
        for name, ks in dis.items():
            if name in names or nd >= 12:
                continue
            nd += 1
            small = sorted((k for k in ks if k[0] in stages), key=lambda k: (k[0][0] in "mp", k))
            for st, f in small[:2]:
                c = drill(ctx, byname[name], good[(st, f)], stages[st], f)
                if c is None:
                    continue
                for i in (byname[name], good[(st, f)]):
                    e = by_id(drive(ctx.scratch, i, [c.line("c")], timeout=120)).get("c") or {"op": c.op, "fault": 1, "ret": 99, "len": "0", "out": ""}
                    todo.append((i, c, e))
                break
            else:
                if ("died", 0) in ks:
                    ctx.violation(name, name + ":died", "%s: the implementation ends the process or never returns (%s)" % (name, [e for i, ev in rs if i.name == name for e in ev][-1].get("why")),
                                  {"implementation": name, "stages": ks[:3]})
        if todo:
            smallish = [t for t in todo if shrink_for_tlc(t[1]) <= 6000]
            res = judge_calls(ctx, alg, smallish, limit=60)
            for (i, c, e), ok in zip(smallish, res):
                if ok is False:
                    bad.append((i, c, e))
            for k in range(0, len(todo), 2):
                i, c, e = todo[k]
                if shrink_for_tlc(c) > 6000 and ev_key(e) != ev_key(todo[k + 1][2]):
                    bad.append((i, c, e))
        confirm_and_report(ctx, alg, bad)
        for c in calls[alg][:1]:
            ctx.sample({"instance": alg, "call": c.desc(), "outcome": (by_id(rs[0][1]).get(c.id) or {}).get("out", "")[:200]})
    long_values(ctx, impls, "E" if kind == "aead" else "H")
    ctx.cov["judged_by_tlc"] = ctx.traces
    return finish(ctx)


def c01(ctx):
    return value_check(ctx, "aead")


def c11(ctx):
    return value_check(ctx, "hash")
