"""C09: overlapping calls - threads, and calls that interrupt other calls at chosen points."""
from c_auth import *
from c_ct import design

CONC = {"EncSame", "HashSame", "DecSame", "GenuineOpens", "OnlyGenuine", "EncSucceeds", "HashSucceeds", "Returns", "NoRelease"}
BROKEN = ["cache_signal", "cache_threads", "flagged_signal", "flagged_threads", "locked_signal", "static_signal", "static_threads", "tagbuf_signal", "tagbuf_threads", "tls_signal"]


def pairs_of(i, deep, extra=()):
    """(outer, inner) as indices into the base calls."""
    names = [("Da", "Fb"), ("Ea", "Db"), ("Fa", "Eb")]
    if weight(i.alg) < 8 or deep:
        names += [("Da", "Ec"), ("Ea", "Ec"), ("Fa", "Db"), ("Da", "Db")]
    if i.has_hash:
        names += [("Ha", "Hb"), ("Ea", "Hb"), ("Ha", "Eb"), ("Da", "Ha")]
    # long ones, where there is static storage
    for z in extra:
        names += [("E%s0" % z, "E%s1" % z), ("D%s0" % z, "D%s1" % z)]
        if i.has_hash:
            names.append(("H%s0" % z, "H%s1" % z))
    return names


def base_calls(ctx, alg):
    r = RATE[alg]
    rng = ctx.rng
    k2 = rng.randbytes(16)
    b = {"a": Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(5), rng.randbytes(r + 3)),
         "b": Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(r), rng.randbytes(3))}
    # c: as a, with another key
    b["c"] = Call("E", k2, b["a"].n, b["a"].a, b["a"].x)
    return b


def long_calls(ctx, alg):
    """Pairs of longer calls of equal lengths, some of them lengths that occur in the sources."""
    r = RATE[alg]
    rng = random.Random("long %s %d" % (alg, ctx.seed))
    lits = sorted({v for v in literals(alg) if 24 < v <= 5000})
    rng.shuffle(lits)
    out = {}
    for q, (al, xl) in enumerate([(v + 1, v + 1) for v in focus(alg, 5000)] + [(5 * r + 1, 5 * r + 2), (300, 1100), (4 * r, 4 * r), (0, 2 * r + 1)] + [(v + 1, v + 1) for v in lits[:10 if ctx.thorough else 5]]):
        for z in "01":
            out["x%d%s" % (q, z)] = Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(al), rng.randbytes(xl))
    return out


def script_lines(base):
    s = ["save 1", "ro 0"]
    for z in base:
        s.append(base[z].line("E" + z))
    return s


def made(base, d):
    """All base calls with concrete arguments from the implementation's own ciphertexts."""
    out = {}
    for z in base:
        c = base[z]
        out["E" + z] = c
        e = d.get("E" + z, NO_ANSWER)
        if e.get("fault", 1) or e.get("ret"):
            return None
        ct = bytes.fromhex(e["out"])
        out["D" + z] = Call("D", c.k, c.n, c.a, ct)
        f = bytearray(ct)
        f[-9] ^= 0x10
        out["F" + z] = Call("D", c.k, c.n, c.a, bytes(f))
        out["H" + z] = Call("H", b"", b"", b"", c.x + c.a)
    return out


def inner_event(alone, same):
    if same:
        return alone
    e = dict(alone)
    if e.get("ret") == 0 and e.get("out"):
        e["out"] = "%02x" % (int(e["out"][:2], 16) ^ 1) + e["out"][2:]
    elif e.get("ret") == 0:
        e["ret"] = 1
    else:
        e["ret"] = 0
    return e


class Overlap:
    """One build of one implementation."""

    def __init__(self, ctx, i, label, base):
        self.ctx, self.i, self.label, self.base = ctx, i, label, base

    def prepare(self):
        i = self.i
        extra = []
        if self.label.startswith("state") and int(by_id(drive(self.ctx.scratch, i, ["save 1"], timeout=60)).get("info", {}).get("state_bytes", 0)) > 4096:
            more = long_calls(self.ctx, i.alg)
            extra = sorted({z[:-1] for z in more})
            self.base = dict(self.base, **more)
        s = script_lines(self.base)
        d = by_id(drive(self.ctx.scratch, i, s, timeout=60))
        self.calls = made(self.base, d)
        self.state = d.get("info", {}).get("state_bytes", 0) - 4096     # the closing page
        if self.calls is None:
            return None
        names = pairs_of(i, self.ctx.thorough or bool(extra), extra)
        alone = sorted({n for p in names for n in p} | {"Ea", "Eb", "Ec"}, key=lambda n: (n[0] not in "EH", n))
        self.alone = ["ro 0"] + [self.calls[n].line("alone_" + n) for n in alone]
        self.names = names
        # opportunities of every outer call
        modes = ["s"] if i.target != "arm" and self.label == "default" else []
        if self.label.startswith("state"):
            modes = ["g", "f"] if self.state > 0 else []
        s = list(self.alone)
        for m in modes:
            for a, b in names:
                if a[1] == "x" and (m == "f" or a[0] == "D"):
                    continue
                if m == "s" and any(x == a for x, y in names[:names.index((a, b))]):
                    continue
                s.append("pre n_%s_%s_%s %s %s %s" % (m, a, b, m, self.calls[a].body(), self.calls[b].body()))
        d = by_id(drive(self.ctx.scratch, i, s, timeout=120))
        self.opps = {}
        for k, e in d.items():
            if k.startswith("n_"):
                _, m, a, b = k.split("_")
                self.opps[m, a] = e.get("opps", 0)
                if a[1] == "x" and a[0] == "E":
                    self.opps[m, "D" + a[1:]] = e.get("opps", 0)
        return self

    def script(self, rng, budget, deep=False):
        i = self.i
        s = list(self.alone)
        self.plan = []

        def pre(mode, a, b, pts):
            q = len(self.plan)
            self.plan.append((mode, a, b))
            s.append("pre p%d %s %s %s %s" % (q, mode, self.calls[a].body(), self.calls[b].body(), pts))
        for a, b in self.names:
            n = self.opps.get(("s", a))
            if n:
                st = max(1, n // budget)
                ends = min(budget // 4, n // 2)
                o = rng.randrange(st)
                pre("s", a, b, "0:%d:1 %d:%d:%d %d:%d:1" % (ends, ends + o, n - ends, st, n - ends, n))
                if deep:
                    for _ in range(6):
                        pre("s", a, b, "%d" % rng.randrange(n))
            for m in "gf":
                n = self.opps.get((m, a))
                if not n:
                    continue
                if a[1] == "x":                 # long: fewer points
                    if m == "g":
                        st = max(1, n // 60)
                        pre(m, a, b, "%d:%d:%d" % (rng.randrange(st), n, st))
                        for p in sorted({0, n - 1} | {rng.randrange(n) for _ in range(2)}):
                            pre(m, a, b, str(p))
                    continue
                pre(m, a, b, "0:%d:1" % n)
                pts = list(range(min(n, 24))) + list(range(max(24, n - 12), n)) + [rng.randrange(n) for _ in range(12)]
                for p in sorted(set(pts)):
                    pre(m, a, b, str(p))
            if i.target == "arm":
                if self.label.startswith("state"):
                    if self.state > 0 and a[1] != "x":
                        for us in (20, 35, 70, 110, 150) * 3:
                            pre("u:%d" % us, a, b, "0:4000:%d" % rng.choice([1, 1, 2, 3, 5]))
                else:
                    for us in (60, 150):
                        pre("t:%d" % us, a, b, "0:4000:1")
            elif self.label == "O0":
                pre("t:40", a, b, "0:4000:1")
        if not self.label.startswith("state"):
            for buf in "axok":
                for a, b in (("Da", "Eb"), ("Ea", "Eb")):
                    pre("p:" + buf, a, b, "0")
        return s

    def history(self, ev):
        d = by_id(ev)
        h = []
        where = []
        al = {}
        for k, e in d.items():
            if k.startswith("alone_"):
                al[k[6:]] = e
                h.append((self.calls[k[6:]], e))
                where.append(None)
        for q, (m, a, b) in enumerate(self.plan):
            e = d.get("p%d" % q, NO_ANSWER)
            if e.get("ran"):
                h.append((self.calls[b], inner_event(al.get(b, NO_ANSWER), e.get("isame", 1))))
                where.append(q)
            h.append((self.calls[a], e))
            where.append(q)
        self.where = where
        return h


def c09(ctx):
    design(ctx, "Sched", BROKEN)
    tls = ("-D__thread=", "-D_Thread_local=", "-Dthread_local=")
    builds = [("default", ctx.built())]
    builds.append(("O0", build(ctx.scratch, discover(), opt=("-O0",), tag="o0", must=False)[0]))
    builds.append(("state", build(ctx.scratch, discover(), opt=("-O3", "-DNDEBUG") + tls, tag="st", state=True, must=False)[0]))
    builds.append(("stateO0", build(ctx.scratch, discover(), opt=("-O0",) + tls, tag="st0", state=True, must=False)[0]))
    base = {alg: base_calls(ctx, alg) for alg in ALGS}
    work = [Overlap(ctx, i, label, base[i.alg]) for label, bs in builds for i in bs]
    work.sort(key=lambda w: (w.label != "default" or w.i.target == "arm", -weight(w.i.alg)))
    work = [w for w in run_parallel(lambda w: w.prepare(), work) if w]
    ctx.say("prepared")
    for w in work:
        if w.label.startswith("state"):
            ctx.add("implementations_with_writable_static_storage" if w.state > 0 else "implementations_without_writable_static_storage")
    work = [w for w in work if not (w.label.startswith("state") and w.state <= 0)]
    scripts = {}
    for w in work:
        bud = {1: 2400, 3: 800, 8: 160}[weight(w.i.alg)] * (8 if ctx.thorough else 1)
        if w.label != "default":
            bud //= 2
        if w.i.name in ctx.hot():
            bud *= 4

        scripts[w] = w.script(random.Random("%d%s%s" % (ctx.seed, w.i.name, w.label)), bud, ctx.thorough)
    work.sort(key=lambda w: -weight(w.i.alg))

    def one(w):
        return drive(ctx.scratch, w.i, scripts[w], timeout=600)
    evs = run_parallel(one, work)
    ctx.say("interrupted")
    streams, by, where_of = [], {}, {}
    for w, ev in zip(work, evs):
        h = w.history(ev)
        streams.append((w.i, w.label, h))
        by[(w.i.name, w.label)] = w
        where_of[(w.i.name, w.label)] = w.where
        for e in ev:
            if "opps" in e:
                ctx.add("interruptions", e["ran"])
                ctx.add("overlapped_calls")
                if e["id"].startswith("p"):
                    ctx.add("interruptions_" + w.plan[int(e["id"][1:])][0][0], e["ran"])
    # threads
    per = {"isapa128av20": 60, "isapa128v20": 24, "isapk128av20": 24, "isapk128v20": 12}
    rounds = {"x86": 30, "avx512": 30, "arm": 4}

    def tscript(i):
        n = per[i.alg]
        r = rounds[i.target] * (10 if ctx.thorough else 1)
        return ["thr t0 %d 4 %d %d 40 60" % (ctx.seed, n, r), "thr t1 %d 3 %d %d 0 9" % (ctx.seed + 1, n, r), "thr t2 %d 8 4 %d 20 20" % (ctx.seed + 2, r * 3)]
    tstreams = []

    def thr_hist(i, ev):
        h = []
        for e in ev:
            if e["op"] == "thr":
                # the calls of the list alone, and again while the other threads run
                c = Call("E", bytes(16), bytes(16), b"", e["id"].encode())
                ok = {"fault": 0, "ret": 0, "len": "%x" % (len(c.x) + 16), "out": "00"}
                h.append((c, ok))
                h.append((c, dict(ok, out="00" if e["bad"] < 0 else "01")))
            if e["op"] == "died":
                h.append((Call("E", bytes(16), bytes(16), b"", b"died"), dict(NO_ANSWER)))
        return h
    for label, bs in builds[:2]:
        for i, ev in ctx.run_all(bs, tscript, workers=3):
            for e in ev:
                if e["op"] == "thr":
                    ctx.add("calls_in_threads", e["calls"])
            h = thr_hist(i, ev)
            tstreams.append((i, "thr-" + label, h))
            by[(i.name, "thr-" + label)] = (i, ev)
    ctx.say("threads")
    found = judge_histories(ctx, streams + tstreams, CONC)
    done, tried = set(), Counter()
    for i, label, st, cl in found:
        if (i.name, label) in done:
            continue
        if label.startswith("thr-"):
            ii, ev = by[(i.name, label)]
            again = 0
            for _ in range(4):
                if any(set(c) & CONC for _, _, _, c in judge_histories(ctx, [(ii, label, thr_hist(ii, drive(ctx.scratch, ii, tscript(ii), timeout=300)))], CONC)):
                    again += 1
                    break
            if not again:
                ctx.add("not_confirmed")
                continue
            done.add((i.name, label))
            e = [e for e in ev if e["op"] == "thr" and e["bad"] >= 0] or ev[-1:]
            ctx.violation(i.name, i.name + ":threads", "%s (%s build): calls running in several threads have other outcomes than alone (%s)" % (i.alg, label[4:], {k: e[0].get(k) for k in ("op", "threads", "calls", "bad", "why")}),
                          {"implementation": i.name, "build": label, "script": tscript(i)})
            continue
        w = by[(i.name, label)]
        q = where_of[(i.name, label)][st]
        if q is None:
            ctx.add("not_confirmed")        # alone, the call is judged by C08
            done.add((i.name, label))
            continue
        m, a, b = w.plan[q]
        line = [l for l in scripts[w] if l.startswith("pre p%d " % q)][0]
        conf = None
        for _ in range(1 if m in "sgf" else 6):
            plan, w.plan = w.plan, [w.plan[q]]
            h = w.history(drive(ctx.scratch, w.i, w.alone + ["pre p0 " + line.split(" ", 2)[2]], timeout=120))
            w.plan = plan
            f = judge_histories(ctx, [(w.i, label, h)], CONC)
            f = [z for z in f if z[2] >= len(w.alone) - 1]
            if f:
                conf = h[f[0][2]]
                break
        if not conf:
            ctx.add("not_confirmed")
            tried[i.name, label] += 1
            if tried[i.name, label] >= 5:
                done.add((i.name, label))
            continue
        done.add((i.name, label))
        c, e = conf
        how = {"s": "at instruction", "g": "at accesses to static storage", "f": "during the first call of a process", "t": "by a timer", "u": "by a timer and accesses to static storage", "p": "at the first touch of a buffer"}[m[0]]
        ctx.violation(i.name, i.name + ":reentrancy", "%s (%s build): %s interrupted %s by %s: %s breaks %s (ret=%s fault=%s out=%s)" %
                      (i.alg, label, w.calls[a].desc(), how, w.calls[b].desc(), c.desc(), ",".join(cl), e.get("ret"), e.get("fault"), e.get("out", "")[:64]),
                      {"implementation": i.name, "build": label, "script": w.alone + [line]})
    ctx.sample({"outer": "Da", "inner": "Eb", "mode": "s", "points": "every n-th instruction and every one at both ends"})
    ctx.sample({"call": base[ALGS[0]]["a"].desc()})
    return finish(ctx)
