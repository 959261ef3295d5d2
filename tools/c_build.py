"""C15: the same calls in differently compiled builds; every build is a call of "the implementation", the
merged history is judged by AeadApi.tla."""
from c_state import *


def clang(i):
    if i.target == "arm":
        return ["clang", "--target=arm-linux-gnueabi", "-I/usr/arm-linux-gnueabi/include", "-mfloat-abi=soft"] + i.cc[1:]
    return ["clang"] + i.cc[1:]


def configurations(thorough):
    gcc = lambda i: i.cc
    out = []
    for name, cc, os_ in (("gcc", gcc, "0 1 2 s"), ("clang", clang, "0 1 2 3 s" if thorough else "0 2 3 s")):
        for o in os_.split():
            out.append((name + "-O" + o, cc, ("-O" + o, "-DNDEBUG")))
    out += [("gcc-O3-wrapv", gcc, ("-O3", "-fwrapv", "-fno-strict-aliasing")),
            ("gcc-O2-uchar", gcc, ("-O2", "-funsigned-char")),
            # what distributions add, and what users of one machine add
            ("gcc-O2-hardened", gcc, ("-O2", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all")),
            ("clang-O1-bounds", clang, ("-O1", "-fsanitize=array-bounds,local-bounds", "-fsanitize-trap=all", "-fstack-protector-all")),
            ("gcc-O3-native", lambda i: gcc(i) + ["-march=native"] if i.target == "x86" else gcc(i), ("-O3", "-DNDEBUG")),
            ("clang-O2-schar", clang, ("-O2", "-fsigned-char", "-fstrict-aliasing"))]
    if thorough:
        out += [("gcc-O3-aliasing", gcc, ("-O3", "-fstrict-aliasing", "-fstrict-overflow")), ("gcc-Og", gcc, ("-Og",)), ("gcc-Ofast", gcc, ("-Ofast",)),
                ("clang-O3-wrapv", clang, ("-O3", "-fwrapv", "-fno-strict-aliasing")), ("clang-O1-uchar", clang, ("-O1", "-funsigned-char")),
                ("gcc-O3-unroll", gcc, ("-O3", "-funroll-loops")), ("gcc-O2-noinline", gcc, ("-O2", "-fno-inline")), ("gcc-Oz", gcc, ("-Oz",)), ("clang-Oz", clang, ("-Oz",)),
                ("gcc-O2-pie-pic", gcc, ("-O2", "-fPIC")), ("gcc-O2-trapv", gcc, ("-O2", "-fsanitize=signed-integer-overflow", "-fsanitize-undefined-trap-on-error"))][:-1]
    return out


def merge(ctx, got, calls, stages, dname, kind, rerun=None):
    """got: implementation -> [(configuration, Impl, events by id, bulk table)], the default one is named "default".
    One history per implementation, judged by AeadApi; differences are confirmed by running the call again."""
    rerun = rerun or (lambda z, c: by_id(drive(ctx.scratch, z, [c.line("c")])).get("c", NO_ANSWER))
    hists, meta = [], []
    for iname, runs in sorted(got.items()):
        runs.sort(key=lambda t: t[0] != "default")
        i0 = runs[0][1]
        hist = []                                     # (builds, call or (stage, first), record)
        for c in calls[i0.alg]:
            if c.op == "H" and not i0.has_hash:
                continue
            grp = {}
            for name, i, d, t in runs:
                grp.setdefault(json.dumps(api_event(i0.alg, c, d.get(c.id, NO_ANSWER)), sort_keys=True), []).append((name, i))
            for k, who in grp.items():               # the default build comes first
                hist.append((who, c, json.loads(k)))
        for st in stages(i0):
            for f in range(0, st.count, st.chunk):
                grp = {}
                for name, i, d, t in runs:
                    e = t.get((st.name, f))
                    grp.setdefault("none" if e is None else "%s/%s/%s" % (e["dg"], e.get("rt", 0), e.get("fa", 0)), []).append((name, i))
                    ctx.add("bulk_calls", st.chunk)
                for out, who in grp.items():
                    hist.append((who, (st, f), {"op": "E", "alg": i0.alg, "k": "bulk", "n": st.name, "a": str(f), "x": "", "xl": 0, "ret": 0, "len": 16, "out": out, "rel": "none", "fault": 0, "inp": 1, "slack": 1}))
        ctx.add("outcomes_merged", sum(len(w) for w, c, r in hist))
        names, recs = {}, []
        for who, c, r in hist:
            r = dict(r)
            for f in ("k", "n", "a", "x", "out"):
                r[f] = names.setdefault(r[f], len(names))
            recs.append(r)
        hists.append({"ev": recs})
        meta.append((iname, runs, hist))
    # equal histories are judged once
    uniq, order, mem = {}, [], []
    for h, m in zip(hists, meta):
        k = hashlib.md5(json.dumps(h).encode()).hexdigest()
        if k not in uniq:
            uniq[k] = len(order)
            order.append(h)
            mem.append([])
        mem[uniq[k]].append(m)
    bad = ctx.judge("ApiTrace", order)
    for pos, marks in bad.items():
        for iname, runs, hist in mem[pos]:
            if any(v["impl"] == iname for v in ctx.viol):
                continue
            for step, cl in marks:
                if not cl:
                    continue
                who, c, r = hist[step - 1]
                same = [h for h in hist if h[1] is c or (isinstance(c, tuple) and h[1] == c)]
                if len(same) < 2:
                    continue                          # every build says the same: not this property
                if "default" in [n for n, i in who]:
                    who = [h for h in same if h[0] is not who][0][0]
                name, i = who[0]
                dflt = runs[0][1]
                if isinstance(c, tuple):
                    st, f = c
                    cc = drill(ctx, i, dflt, st, f)
                    e1, e0 = (bulk_table(drive(ctx.scratch, z, ["ro 0", "ops 3"] + st.lines(f, st.chunk), timeout=200)).get((st.name, f), {}) for z in (i, dflt))
                    differ = [e1.get(q) for q in ("dg", "rt", "fa")] != [e0.get(q) for q in ("dg", "rt", "fa")]
                    what, script = "bulk calls %s from %d%s" % (st.name, f, "; first: " + cc.desc() if cc else ""), st.lines(f, st.chunk)
                else:
                    e1, e0 = (rerun(z, c) for z in (i, dflt))
                    differ = api_event(i.alg, c, e1) != api_event(i.alg, c, e0)
                    what, script = "%s: ret=%s out=%s, %s: ret=%s out=%s" % (c.desc(), e1.get("ret"), e1.get("out", "")[:100], dname, e0.get("ret"), e0.get("out", "")[:100]), [c.line("c")]
                if not differ:
                    continue
                opt = [list(o) for n, z, o in configurations(True) if n == name]
                ctx.violation(iname, iname + ":" + kind, "%s: built as %s (also %s) it differs from %s: %s" % (i.alg, name, ",".join(n for n, z in who[1:5]), dname, what),
                              {"implementation": iname, "configuration": name, "flags": opt, "script": script})
                break
    return meta


def c15(ctx):
    impls = discover()
    base = ctx.built()
    sets = {"default": {i.name: i for i in base}}
    skipped = []
    confs = configurations(ctx.thorough)
    built = run_parallel(lambda c: build(ctx.scratch, impls, opt=c[2], tag=c[0], cc_map={"x86": c[1], "arm": c[1], "avx512": c[1]}, must=False), confs, 2)
    more = [c for c in configurations(True) if c[0] not in {c[0] for c in confs}]
    if ctx.hot() and more:
        confs += more
        built += run_parallel(lambda c: build(ctx.scratch, [i for i in impls if i.name in ctx.hot()], opt=c[2], tag=c[0], cc_map={"x86": c[1], "arm": c[1], "avx512": c[1]}, must=False), more, 2)
    for (name, cc, opt), (ok, bad) in zip(confs, built):
        sets[name] = {i.name: i for i in ok}
        skipped += [(name, i.name) for i, m in bad]
    ctx.cov["configurations"] = len(sets)
    ctx.cov["builds"] = sum(len(s) for s in sets.values())
    ctx.cov["builds_skipped"] = len(skipped)
    ctx.cov["skipped"] = sorted({"%s %s" % s for s in skipped})[:40]
    ctx.say("built", ctx.cov["builds"], "skipped", len(skipped))
    sc = 1.0 if ctx.thorough else 0.1
    calls, plan = {}, {}
    hst = hash_stages(ctx.seed * 1000 + 1501, 0.05 if not ctx.thorough else 0.5)[:3]
    for alg in ALGS:
        r = RATE[alg]
        cs = []
        rng = ctx.rng
        for al, xl in [(a, x) for a in (0, 1, r - 1, r, r + 1, 2 * r + 3) for x in (0, 1, r - 1, r, r + 1, 3 * r - 2)] + [(rng.randrange(200), rng.randrange(200)) for _ in range(10)]:
            cs.append(Call("E", rbytes(rng, 16), rbytes(rng, 16), rbytes(rng, al), rbytes(rng, xl)))
        for f, k, n, a, m, c in rare(alg)[::3]:
            cs += [Call("E", k, n, a, m), Call("D", k, n, a, c), Call("D", k, n, a, c[:-1] + bytes([c[-1] ^ 0x80])), Call("D", k, n, a, c[:-16] + bytes([c[-16] ^ 1]) + c[-15:])]
        f, k, n, a, m, c = rare(alg)[0]
        cs += [Call("D", k, n, a, c[:q]) for q in range(16)]
        cs += [c for c in literal_calls(ctx, alg, maxlen=600) if not c.id.startswith("rare")]
        cs += focus_calls(ctx, alg)
        if alg == "isapa128av20":
            for L in list(range(0, 26)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]:
                cs.append(Call("H", b"", b"", b"", rbytes(rng, L)))
            cs += [Call("H", b"", b"", b"", x[1]) for x in rare("hash")[::4]]
        for q, c in enumerate(cs):
            c.id = "c%d" % q
        calls[alg] = cs
        m = 26 if not ctx.thorough else 60
        plan[alg] = [Stage("g0", ctx.seed * 1000 + 1500, 0, chunk=m + 1, grid=(0, m + 1, 1, 0, m + 1, 1)),
                     Stage("rnd", ctx.seed * 1000 + 1503, int(sc * 20000 / weight(alg)), 120, 120, 200),
                     Stage("lng", ctx.seed * 1000 + 1504, int(sc * 400 / weight(alg)) + 4, 3000, 3000, 20)]

    def stages(i):
        big = []
        if not i.slow and weight(i.alg) < 8:
            big = [Stage("bgx", ctx.seed * 1000 + 1505, 0, chunk=1, grid=(1, 1, 1, 65536 + 64, 1, 1)), Stage("bga", ctx.seed * 1000 + 1506, 0, chunk=1, grid=(65536 + 64, 1, 1, 1, 1, 1))]
        return plan[i.alg] + big + (hst if i.has_hash else [])

    def lines(i):
        s = [c.line() for c in calls[i.alg] if c.op != "H" or i.has_hash] + ["ro 0", "ops 3"]
        for st in stages(i):
            s += st.lines()
        return s
    # equal executables behave alike: run each once
    todo, cls = [], {}
    for name, s in sets.items():
        for i in s.values():
            if (i.name, i.hash) not in cls:
                cls[i.name, i.hash] = (i, [])
                todo.append((name, i))
            cls[i.name, i.hash][1].append(name)
    ctx.cov["distinct_builds_run"] = len(todo)
    todo.sort(key=lambda t: (not t[1].slow, -weight(t[1].alg)))
    res = run_parallel(lambda t: drive(ctx.scratch, t[1], lines(t[1]), timeout=400), todo)
    ctx.say("ran", len(todo))
    got = {}
    for (name, i), ev in zip(todo, res):
        got.setdefault(i.name, []).append((name, i, by_id(ev), bulk_table(ev)))
    meta = merge(ctx, got, calls, stages, 'the default build', 'build')
    for alg in ALGS[:2]:
        m = [m for m in meta if m[1][0][1].alg == alg][:1]
        for iname, runs, hist in m:
            ctx.sample({"implementation": iname, "builds": [r[0] for r in runs], "call": calls[alg][0].desc(), "outcome": hist[0][2]["out"][:80]})
    return finish(ctx)
