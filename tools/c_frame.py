"""C13: pairs of inputs that an ambiguous framing would confuse, enumerated by Framing.tla,
issued and cross-presented on every implementation, judged by FrameTrace.tla."""
import hashlib

from agree import *

RULES = ["nosep", "zeropad", "skipfull", "concat", "skipempty", "cuttail", "stripzeros", "prepadded", "unordered", "symmetric",
         "firstblocks", "firstcblocks", "lastblocks", "len8", "overlap", "wholeblocks"]


def pairs_of(ctx, rate):
    r = ctx.tlc("Framing", "Framing%d" % rate)
    if r.violated:
        raise CheckError("Framing: the ideal rule is ambiguous")
    by = {}
    for m in re.finditer(r'^"PAIR (\[.*\])"$', r.text, re.M):
        d = json.loads(m.group(1).replace('\\"', '"'))
        by.setdefault(d[0], {}).setdefault(d[1], []).append(d[2:])
    miss = [x for x in RULES if x not in by]
    if miss:
        raise CheckError("Framing exposes no collision of %s" % miss)
    ctx.cov["design_framing_rules_exposed"] = len(by)
    ctx.add("model_pairs", sum(len(l) for e in by.values() for l in e.values()))
    for e in by.values():
        for l in e.values():
            l.sort()
    return by


def fill(rng, p):
    """Concrete bytes for a symbolic pair (7: any byte, 9: another byte)."""
    a, c, a2, c2 = p
    g = rng.choice([rng.randrange(1, 128), rng.randrange(129, 256), 0x7f, 0xff, 1])
    o = g ^ rng.randrange(1, 128)
    if 9 in a + c + a2 + c2 or rng.randrange(2):
        f = {7: g, 9: o}
        return tuple(bytes(f.get(v, v) for v in s) for s in p)
    # bytes that depend on the position in the joined string
    s = [rng.randrange(256) for _ in range(max(len(a) + len(c), len(a2) + len(c2)))]

    def put(x, y):
        z = [s[q] if v == 7 else v for q, v in enumerate(x + y)]
        return bytes(z[:len(x)]), bytes(z[len(x):])
    return put(a, c) + put(a2, c2)


def plan(ctx, alg, by, n):
    """Families of inputs [(label, key, [(nonce, a, c)], [(i, j)])]; the pairs (i, j) are presented crosswise."""
    rng = random.Random("frame%s%d" % (alg, ctx.seed))
    r = RATE[alg]
    near = sorted({b for v in focus(alg, 3000, 3) for b in (v // r, v // r + 1, v) if b * r < 20000})
    fam = []
    todo = []
    for rule in RULES:
        edits = sorted(by[rule])
        for q in range(-(-n // len(RULES))):
            e = edits[q % len(edits)]
            todo.append((rule, e, rng.choice(by[rule][e])))
    rng.shuffle(todo)
    for g in range(0, len(todo), 60):
        inputs, cross, idx = [], [], {}

        def put(x):
            if x not in idx:
                idx[x] = len(inputs)
                inputs.append(x)
            return idx[x]
        for rule, e, p in todo[g:g + 60]:
            no = rng.randbytes(16)
            a, c, a2, c2 = fill(rng, p)
            if rng.randrange(4) == 0:
                pre = rng.randbytes(r * rng.choice([1, 2, 3, 7, 14, 15, 29, 31] + near * 3))
                a, a2 = pre + a, pre + a2
            if rng.randrange(6) == 0:
                pre = rng.randbytes(r * rng.choice([1, 2, 3, 7, 14, 15] + near * 2))
                c, c2 = pre + c, pre + c2
            if (a, c) != (a2, c2):
                cross.append((put((no, a, c)), put((no, a2, c2)), rule + "/" + e))
        fam.append(("p%d" % g, rng.randbytes(16), inputs, cross))
    # all splits of a string; strings of one byte value
    for q, L in enumerate([2 * r + 1, 3 * r, r + 2, 5 * r + 3][:4 if n > 200 else 2]):
        s = rng.randbytes(L) if q != 1 else bytes(L)
        no = rng.randbytes(16)
        inputs = [(no, s[:k], s[k:]) for k in range(L + 1)]
        cross = [(k, k + 1, "split") for k in range(L)] + [(0, k, "split") for k in range(2, L + 1)]
        fam.append(("s%d" % q, rng.randbytes(16), inputs, cross))
    no = rng.randbytes(16)
    inputs = sorted({(no, bytes(k), b"") for k in range(4 * r + 2)} | {(no, b"", bytes(k)) for k in range(4 * r + 2)} |
                    {(no, b"\x80" + bytes(k), b"") for k in range(2 * r + 2)} | {(no, b"", b"\x80" + bytes(k)) for k in range(2 * r + 2)},
                    key=lambda t: (len(t[1]) + len(t[2]), t))
    fam.append(("z", rng.randbytes(16), inputs, [(k, k + d, "zeros") for d in (1, 2, 3) for k in range(len(inputs) - d)]))
    # nonces that differ in one bit
    a, c = rng.randbytes(r), rng.randbytes(r)
    ns = [no] + [bytes(x ^ (1 << (b % 8)) if q == b // 8 else x for q, x in enumerate(no)) for b in range(128)]
    fam.append(("n", rng.randbytes(16), [(x, a, c) for x in ns], [(0, k, "nonce") for k in range(1, 129)]))
    # long parts
    for q, L in enumerate([255 * r, 256 * r, 257 * r, 1024 * r][:4 if n > 200 else 2]):
        s = rng.randbytes(L)
        no = rng.randbytes(16)
        v = [(no, s, b""), (no, s[:-1], b""), (no, s[:-1] + bytes([s[-1] ^ 1]), b""), (no, s[:L // 2] + bytes([s[L // 2] ^ 1]) + s[L // 2 + 1:], b""),
             (no, s + b"\0", b""), (no, s + b"\x80", b""), (no, s[:r], s[r:]), (no, s[:-r], s[-r:]), (no, b"", s), (no, b"", s[:-1]),
             (no, b"", s[:L // 2] + bytes([s[L // 2] ^ 1]) + s[L // 2 + 1:]), (no, s[r:], b""), (no, s[r:] + s[:r], b""), (no, s[:3 * r], b""), (no, s, s[:5])]
        fam.append(("l%d" % q, rng.randbytes(16), v, [(x, y, "long") for x in range(len(v)) for y in range(x)][::1 if n > 200 else 3]))
    return fam


def tag_of(e, ln):
    out = bytes.fromhex(e.get("out", ""))
    ok = e.get("fault", 1) == 0 and e.get("ret") == 0 and len(out) == ln + 16
    return out if ok else None


def c13(ctx):
    by = {r: pairs_of(ctx, r) for r in (8, 18)}
    impls = ctx.built()
    big = 2000 if ctx.thorough else 400
    plans = {(alg, s): plan(ctx, alg, by[RATE[alg]], (160 if s else big) if not ctx.thorough else big // (2 if s else 1)) for alg in ALGS for s in (False, True)}

    # key streams: the message that is encrypted to a wanted ciphertext body
    def ks_script(i):
        s = []
        for label, k, inputs, cross in plans[(i.alg, i.slow)]:
            for no in sorted({x[0] for x in inputs}):
                L = max(len(x[2]) for x in inputs if x[0] == no)
                s.append(Call("E", k, no, b"", bytes(L)).line("k%s_%s" % (label, no.hex())))
        return s
    ks = {}
    for i, ev in ctx.run_all(impls, ks_script, timeout=400):
        ks[i.name] = {e["id"]: bytes.fromhex(e.get("out", ""))[:-16] for e in ev if e["op"] == "E"}

    def issue(i):
        out = []
        for label, k, inputs, cross in plans[(i.alg, i.slow)]:
            for q, (no, a, c) in enumerate(inputs):
                s = ks[i.name].get("k%s_%s" % (label, no.hex()), b"")
                s = s + bytes(max(0, len(c) - len(s)))
                out.append((label, q, k, no, a, c, Call("E", k, no, a, bytes(x ^ y for x, y in zip(c, s)))))
        return out
    issued, todo = {}, {}
    for i in impls:
        todo[i.name] = issue(i)
    for i, ev in ctx.run_all(impls, lambda i: [t[6].line("%s_%d" % (t[0], t[1])) for t in todo[i.name]], timeout=400):
        d = by_id(ev)
        issued[i.name] = {(t[0], t[1]): tag_of(d.get("%s_%d" % (t[0], t[1]), {}), len(t[5])) for t in todo[i.name]}
    # the same inputs under the other instances
    firsts = {}
    for i in impls:
        if not i.slow and i.alg not in firsts and i.name.endswith("opt_64"):
            firsts[i.alg] = i
    foreign = {}
    for alg in ALGS:
        for other, i in firsts.items():
            if other == alg:
                continue
            sel = []
            for label, k, inputs, cross in plans[(alg, False)][:1] + plans[(alg, True)][:1]:
                for q, (no, a, c) in list(enumerate(inputs))[:40]:
                    sel.append((label, q, k, no, a, c))
            e0 = by_id(drive(ctx.scratch, i, [Call("E", k, no, b"", bytes(len(c))).line("k%d" % z) for z, (l, q, k, no, a, c) in enumerate(sel)]))
            s = []
            for z, (l, q, k, no, a, c) in enumerate(sel):
                st = bytes.fromhex(e0.get("k%d" % z, {}).get("out", ""))[:-16]
                st += bytes(max(0, len(c) - len(st)))
                s.append(Call("E", k, no, a, bytes(x ^ y for x, y in zip(c, st))).line("e%d" % z))
            e1 = by_id(drive(ctx.scratch, i, s))
            for z, (l, q, k, no, a, c) in enumerate(sel):
                t = tag_of(e1.get("e%d" % z, {}), len(c))
                if t:
                    foreign.setdefault((alg, k, no, a, c), []).append((other, t))

    def cross_calls(i):
        out = []
        got = issued[i.name]
        for label, k, inputs, cross in plans[(i.alg, i.slow)]:
            for x, y, why in cross:
                for p, q in ((x, y), (y, x)):
                    cp, cq = got.get((label, p)), got.get((label, q))
                    if cp is None or cq is None:
                        continue
                    no, a, c = inputs[q]
                    out.append((label, why, Call("D", k, no, a, cq[:-16] + cp[-16:], note=why)))
            for q, (no, a, c) in enumerate(inputs):
                cq = got.get((label, q))
                for other, t in foreign.get((i.alg, k, no, a, c), []):
                    if cq is not None and cq[:-16] == t[:-16]:
                        out.append((label, "instance", Call("D", k, no, a, t, note="tag of " + other)))
                if q % 16 == 0 and cq is not None:
                    out.append((label, "own", Call("D", k, no, a, cq, note="own")))
        return out
    cc = {i.name: cross_calls(i) for i in impls}
    res3 = dict((i.name, by_id(ev)) for i, ev in ctx.run_all(impls, lambda i: [c.line("d%d" % q) for q, (l, w, c) in enumerate(cc[i.name])], timeout=500))
    # one history per family
    uniq, order, members = {}, [], []
    for i in impls:
        got, d = issued[i.name], res3.get(i.name, {})
        for label, k, inputs, cross in plans[(i.alg, i.slow)]:
            ev, calls = [], []
            for q, (no, a, c) in enumerate(inputs):
                for other, t in foreign.get((i.alg, k, no, a, c), []):
                    ev.append({"op": "E", "alg": other, "k": k, "n": no, "a": a, "c": t[:-16], "t": t[-16:], "ret": 0})
                    calls.append(None)
                o = got.get((label, q))
                if o is not None:
                    ev.append({"op": "E", "alg": i.alg, "k": k, "n": no, "a": a, "c": o[:-16], "t": o[-16:], "ret": 0})
                    calls.append([t[6] for t in todo[i.name] if t[0] == label and t[1] == q][0])
            for q, (l, w, c) in enumerate(cc[i.name]):
                if l == label:
                    e = d.get("d%d" % q, {})
                    ok = e.get("fault", 1) == 0 and e.get("ret") == 0
                    ev.append({"op": "D", "alg": i.alg, "k": c.k, "n": c.n, "a": c.a, "c": c.x[:-16], "t": c.x[-16:], "ret": 0 if ok else 1})
                    calls.append(c)
                    ctx.add("cross_presentations")
            ctx.add("authenticated_inputs", len(inputs))
            names = {}
            rec = [{f: (names.setdefault(v, len(names)) if isinstance(v, bytes) else v) for f, v in e.items()} for e in ev]
            h = hashlib.md5(json.dumps(rec).encode()).hexdigest()
            if h not in uniq:
                uniq[h] = len(order)
                order.append({"ev": rec})
                members.append([])
            members[uniq[h]].append((i, label, ev, calls))
    ctx.cov["histories"] = sum(len(m) for m in members)
    ctx.cov["distinct_histories"] = len(order)
    bad = ctx.judge("FrameTrace", order)
    seen = set()
    for pos, marks in sorted(bad.items()):
        for i, label, ev, calls in members[pos]:
            for step, cl in marks:
                if (i.name, tuple(cl)) in seen or not step or not cl:
                    continue
                e = ev[step - 1]
                # the earlier input with this tag, and confirmation by running both calls again
                first = [q for q, x in enumerate(ev[:step - 1]) if x["op"] == "E" and x["t"] == e["t"] and x["k"] == e["k"]]
                script = [calls[q].line("c%d" % q) for q in ([first[0]] if first and calls[first[0]] else []) + [step - 1] if calls[q]]
                again = by_id(drive(ctx.scratch, i, script))
                e2 = again.get("c%d" % (step - 1), {})
                if e["op"] == "D":
                    sure = e2.get("ret") == 0 and e2.get("fault") == 0
                else:
                    o = tag_of(e2, len(calls[step - 1].x))
                    sure = o is not None and o[-16:] == e["t"]
                if not sure:
                    continue
                seen.add((i.name, tuple(cl)))
                f = ev[first[0]] if first else None
                ctx.violation(i.name, "%s:%s" % (i.name, "+".join(cl)),
                              "%s: %s: k=%s n=%s a=%s c=%s has/accepts the tag %s, which is the tag of %s" %
                              (i.alg, ",".join(cl), e["k"].hex(), e["n"].hex(), e["a"].hex()[:160], e["c"].hex()[:160], e["t"].hex(),
                               "no issued input" if f is None else "instance %s n=%s a=%s c=%s" % (f["alg"], f["n"].hex(), f["a"].hex()[:160], f["c"].hex()[:160])),
                              {"implementation": i.name, "script": script, "clauses": cl})
    ctx.sample({"rules": RULES})
    for label, k, inputs, cross in plans[("isapk128av20", False)][:1]:
        for x, y, why in cross[:3]:
            ctx.sample({"pair": why, "a": inputs[x][1].hex(), "c": inputs[x][2].hex(), "a2": inputs[y][1].hex(), "c2": inputs[y][2].hex()})
    return finish(ctx)
