"""Bulk runs of all implementations of an instance, compared with each other; every
disagreement is reduced to single calls, which the TLA+ specification then judges."""
import glob
import os
import re
from collections import Counter

from core import *


class Stage:
    def __init__(self, name, seed, count, maxa=0, maxx=0, chunk=100, grid=None, cmd="bulk", ops=None):
        self.name, self.seed, self.count, self.maxa, self.maxx, self.chunk, self.grid, self.cmd = name, seed, count, maxa, maxx, chunk, grid, cmd
        if grid:
            self.count = grid[1] * grid[4]

    def lines(self, first=0, count=None, chunk=None, id=None):
        count = self.count if count is None else min(count, self.count)
        chunk = chunk or self.chunk
        out = ["grid " + (" ".join(map(str, self.grid)) if self.grid else "off")]
        if self.cmd == "bulk":
            out.append("bulk %s %d %d %d %d %d %d" % (id or self.name, self.seed, first, count, self.maxa, self.maxx, chunk))
        else:
            out.append("bulkh %s %d %d %d %d %d" % (id or self.name, self.seed, first, count, self.maxx, chunk))
        out.append("grid off")
        return out

    def vec(self, idx):
        return ["grid " + (" ".join(map(str, self.grid)) if self.grid else "off"),
                "vec v %d %d %d %d" % (self.seed, idx, self.maxa if self.cmd == "bulk" else 0, self.maxx), "grid off"]


def weight(alg):
    """Relative cost of one call."""
    return {"isapa128av20": 1, "isapa128v20": 3, "isapk128av20": 3, "isapk128v20": 8}[alg]


def aead_stages(alg, seed, scale=1.0):
    r = RATE[alg]
    w = weight(alg)
    m = 72 if w < 8 else 57
    st = [Stage("g0", seed, 0, chunk=m + 1, grid=(0, m + 1, 1, 0, m + 1, 1)),
          Stage("gx", seed + 1, 0, chunk=50, grid=(5, 1, 1, 0, 700, 1)),
          Stage("ga", seed + 2, 0, chunk=50, grid=(0, 700, 1, 3, 1, 1)),
          Stage("rnd", seed + 3, int(scale * 40000 / w), 120, 120, 200),
          Stage("rnl", seed + 4, int(scale * 2000 / w), 3000, 3000, 20)]
    for k in range(10, 17):
        st.append(Stage("px%d" % k, seed + 10 + k, 0, chunk=1, grid=(2, 1, 1, 2 ** k - 1 - 2 * (k % 2), 3, 1)))
        st.append(Stage("pa%d" % k, seed + 30 + k, 0, chunk=1, grid=(2 ** k - 1 - 2 * (k % 2), 3, 1, 2, 1, 1)))
    # long ones, with a partial last block
    for q, (k, d) in enumerate(((17, 5), (18, 11), (19, 3), (20, 9))):
        st.append(Stage("lx%d" % k, seed + 60 + q, 0, chunk=1, grid=(3 * q, 1, 1, 2 ** k + d, 1, 1)))
        st.append(Stage("la%d" % k, seed + 70 + q, 0, chunk=1, grid=(2 ** k + d + 1, 1, 1, 5 * q + 1, 1, 1)))
    # around multiples of 256 blocks
    st.append(Stage("mx", seed + 50, 0, chunk=1, grid=(1, 1, 1, 255 * r, 3, r)))
    st.append(Stage("ma", seed + 51, 0, chunk=1, grid=(255 * r, 3, r, 1, 1, 1)))
    return st


def deep_stages(alg, seed, changed=True, slow=False):
    """More, for implementations that differ from the tree the checks were made for."""
    w = weight(alg) * (4 if slow else 1)
    return [Stage("Dx", seed + 80, 0, chunk=50, grid=(7, 1, 1, 700, 1400, 1)), Stage("Da", seed + 81, 0, chunk=50, grid=(700, 1400, 1, 6, 1, 1)),
            Stage("Dy", seed + 86, 0, chunk=50, grid=(0, 1, 1, 41, 1000, 1)), Stage("Db", seed + 87, 0, chunk=50, grid=(41, 1000, 1, 0, 1, 1)),
            Stage("Dg", seed + 82, 0, chunk=41, grid=(73, 60, 1, 0, 41, 1)), Stage("Dh", seed + 83, 0, chunk=60, grid=(0, 41, 1, 73, 60, 1)),
            Stage("Dr", seed + 84, 160000 // w, 70, 70, 200), Stage("Ds", seed + 88, 80000 // w, 200, 200, 200), Stage("Dt", seed + 89, 12000 // w, 1500, 1500, 50),
            Stage("Dl", seed + 85, 600 // w, 20000, 20000, 5)] if changed else []


def run_deep(ctx, impls, pre, stages_of):
    """Every stage of every implementation in a process of its own: [(implementation, stage, events)]."""
    todo = [(i, st) for i in impls for st in stages_of(i)]
    return run_parallel(lambda t: (t[0], t[1], drive(ctx.scratch, t[0], list(pre) + t[1].lines(), timeout=300)), todo)


def append_deep(results, deep):
    """Events of the deep stages behind those of the others."""
    more = {}
    for i, st, ev in deep:
        more.setdefault(i.name, []).extend(ev)
    return [(i, sorted(ev + more.get(i.name, []), key=lambda e: e["op"] == "died")) for i, ev in results]


def companions(impls, ch):
    """The changed implementations and a few others of their instances to compare with."""
    out = set(ch)
    for alg in {i.alg for i in impls if i.name in ch}:
        out |= {i.name for i in sorted((i for i in impls if i.alg == alg and i.name not in ch), key=lambda i: (i.slow, "ref" in i.name, i.name))[:3]}
    return out


def hash_stages(seed, scale=1.0):
    return [Stage("hg", seed, 0, chunk=50, grid=(0, 1, 1, 0, 1400, 1), cmd="bulkh"),
            Stage("hr", seed + 1, int(scale * 20000), 0, 400, 200, cmd="bulkh"),
            Stage("hl", seed + 2, int(scale * 400), 0, 20000, 10, cmd="bulkh")] + \
           [Stage("hp%d" % k, seed + 10 + k, 0, chunk=1, grid=(0, 1, 1, 2 ** k - 2, 5, 1), cmd="bulkh") for k in range(11, 18)] + \
           [Stage("hv%d" % k, seed + 40 + k, 0, chunk=1, grid=(0, 1, 1, 2 ** k + d, 2, 1), cmd="bulkh") for k, d in ((18, 5), (19, 8), (20, 15))]


_lit = {}


def source_numbers(alg):
    """file -> Counter of the numbers (and values of simple expressions of numbers) in the sources of an instance."""
    if alg in _lit:
        return _lit[alg]
    out = {}
    num = lambda x: int(x, 16) if x[:2].lower() == "0x" else int(x)
    for p in ["crypto_aead*/%s/*/*" % alg, XREF + "/*", XREF + "/lib/*/*"]:
        for f in glob.glob(os.path.join(REPO, p)):
            if not f.endswith((".c", ".h", ".S", ".s", ".inc", ".macros")) or "genkat" in f or os.path.islink(f):
                continue
            try:
                t = open(f, errors="replace").read()
            except OSError:
                continue
            t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
            t = re.sub(r"//[^\n]*", " ", t)
            c = Counter()
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?=[uUlL]*\b)", t):
                c[num(m.group(1))] += 1
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\s*(\*|<<|\+|-)\s*(?=(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b)", t):
                x, o, y = num(m.group(1)), m.group(2), num(m.group(3))
                v = x * y if o == "*" else x + y if o == "+" else x - y if o == "-" else x << min(y, 64)
                if 0 < v < 1 << 64:
                    c[v] += 1
            out[os.path.relpath(f, REPO)] = c
    _lit[alg] = out
    return out


def literals(alg):
    """Numbers that occur in the sources of an instance (any of its implementations)."""
    return sorted({v for c in source_numbers(alg).values() for v in c})


_foc = {}


def focus(alg, hi=70000, n=4):
    """Numbers that occur more often in some file than in the tree the checks were made for (data/numbers.json): lengths
    worth exploring around.  Empty on that tree; it only adds calls, it decides nothing."""
    if alg not in _foc:
        known = json.load(open(os.path.join(VERIF, "data", "numbers.json")))
        s = set()
        for f, c in source_numbers(alg).items():
            k = known.get(f, {})
            s |= {v for v, q in c.items() if q > k.get(str(v), 0)}
        _foc[alg] = sorted(s)
    l = [v for v in _foc[alg] if 3 <= v <= hi]
    random.Random("focus%s" % alg).shuffle(l)
    return l[:n]


def focus_calls(ctx, alg):
    rng = random.Random("fc%d" % ctx.seed)
    out = []
    for v in focus(alg, 20000):
        for al, xl in ((v, 3), (v + 1, 2), (3, v), (2, v + 1), (v, v), (0, v), (v, 0), (0, v + 1), (v + 1, 0)):
            out.append(Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(al), rng.randbytes(xl)))
        if alg == "isapa128av20":
            out += [Call("H", b"", b"", b"", rng.randbytes(v + d)) for d in (0, 1)]
    return out


def rare(alg):
    """Stored inputs whose tags (hash values, ciphertexts) have unusual values: [(feature, k, n, a, m, c)], for
    "hash": [(feature, m, h)].  Made by data/make.py, every line judged by the TLA+ machines."""
    out = []
    for line in open(os.path.join(VERIF, "data", "rare_%s.txt" % alg)):
        f = line.split()
        out.append([f[0]] + [b"" if z == "-" else bytes.fromhex(z) for z in f[1:]])
    return out


def literal_calls(ctx, alg, hash_=False, maxlen=70000):
    """Calls whose lengths or contents come from the numbers in the sources, and the stored unusual ones."""
    if hash_:
        out = [Call("H", b"", b"", b"", r[1], "rare%d" % q) for q, r in enumerate(rare("hash"))]
    else:
        out = [Call("E", r[1], r[2], r[3], r[4], "rare%d" % q) for q, r in enumerate(rare(alg))]
    rng = random.Random("lit%d" % ctx.seed)
    fresh = [] if hash_ else focus(alg, maxlen, 40)
    for q, v in enumerate(fresh):
        for d in (-1, 0, 1) if v <= 5000 else (0, 1):
            for z, (al, xl) in enumerate(((0, v + d), (v + d, 0), (RATE[alg], v + d), (v + d, RATE[alg]))):
                out.append(Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(al), rng.randbytes(xl), "z%d_%d_%d" % (q, d + 1, z)))
    for v in literals(alg):
        n = v
        if 0 < n <= maxlen:
            for d in ((0, 1, -1) if n <= 5000 else (0,)):
                L = n + d
                x = rng.randbytes(L)
                if hash_:
                    out.append(Call("H", b"", b"", b"", x, "hl%d_%d" % (v, d + 1)))
                else:
                    out.append(Call("E", rng.randbytes(16), rng.randbytes(16), b"\1\2\3", x, "x%d_%d" % (v, d + 1)))
                    out.append(Call("E", rng.randbytes(16), rng.randbytes(16), x, b"\4\5", "a%d_%d" % (v, d + 1)))
        # as a sum of lengths, as both lengths, as a number of blocks
        r = 8 if hash_ else RATE[alg]
        top = min(maxlen, 20000)
        two = [(v // 2, v - v // 2), (v - 3, 3), (v, v)] if 8 < v <= min(top, 5000) else []
        two += [p for d in (0, 1) for p in ((2, v * r + d), (v * r + d, 2))] if 4 < v and v * r < top else []
        for q, (al, xl) in enumerate(two):
            if hash_:
                if xl == 2:
                    out.append(Call("H", b"", b"", b"", rng.randbytes(al), "hb%d_%d" % (v, q)))
            else:
                out.append(Call("E", rng.randbytes(16), rng.randbytes(16), rng.randbytes(al), rng.randbytes(xl), "y%d_%d" % (v, q)))
        w = 1 if v < 256 else 2 if v < 65536 else 4 if v < 2 ** 32 else 8
        if v < 2 ** 64:
            for o in ("little", "big"):
                b = v.to_bytes(w, o)
                if o == "big" and w == 1:
                    continue
                z = (b * 16)[:16]
                if hash_:
                    out.append(Call("H", b"", b"", b"", (b * 20)[:20], "hv%d_%s" % (v, o[0])))
                    continue
                out.append(Call("E", z, z, z[:9], (z + z)[:21], "v%d_%s" % (v, o[0])))
                for f in range(4):
                    args = [rng.randbytes(16), rng.randbytes(16), rng.randbytes(13), rng.randbytes(19)]
                    p = rng.randrange(0, len(args[f]) - w + 1) if f else 0
                    args[f] = (b + args[f])[:len(args[f])] if rng.randrange(2) else args[f][:p] + b + args[f][p + w:]
                    out.append(Call("E", *args, "w%d_%s%d" % (v, o[0], f)))
    return out


def ev_key(e):
    return (e.get("op"), 0 if e.get("ret") == 0 else 1, e.get("fault"), e.get("len") if e.get("ret") == 0 else "", e.get("out") if e.get("ret") == 0 else "")


def bulk_table(events):
    """{(stage, first): event} of bulk chunks."""
    return {(e["id"], e["first"]): e for e in events if e["op"] in ("bulk", "bulkh")}


def disagreements(results, stages):
    """results: [(impl, events)] of one instance.  Returns {impl: [(stage, first)]} relative to the
    most common digest, the representative of the majority per chunk, and number of chunks compared."""
    tabs = [(i, bulk_table(ev), died(ev)) for i, ev in results]
    keys = []
    for s in stages:
        for f in range(0, s.count, s.chunk):
            keys.append((s.name, f))
    bad, good, n = {}, {}, 0
    for k in keys:
        c = Counter(t[k]["dg"] for i, t, d in tabs if k in t)
        if not c:
            if k == keys[0]:
                raise CheckError("no implementation ran the bulk stages: %r" % (results[0][1][-1:],))
            continue
        top = c.most_common(1)[0][0]
        good[k] = [i for i, t, d in tabs if k in t and t[k]["dg"] == top][0]
        for i, t, d in tabs:
            if k in t:
                n += 1
                if t[k]["dg"] != top:
                    bad.setdefault(i.name, []).append(k)
            elif d and (i.name not in bad or bad[i.name][-1] != ("died", 0)):
                bad.setdefault(i.name, []).append(k)
                bad[i.name].append(("died", 0))
    return bad, good, n


def drill(ctx, impl, other, stage, first):
    """The first call of a chunk on which two implementations differ: Call or None."""
    op = "E" if stage.cmd == "bulk" else "H"
    lines = ["ro 0", "ops 0"] + stage.lines(first, stage.chunk, 1, "d")
    ta, tb = ({e["first"]: e for e in drive(ctx.scratch, i, lines, timeout=120) if e["op"] in ("bulk", "bulkh")} for i in (impl, other))
    for f in sorted(tb):
        if f not in ta or ta[f]["dg"] != tb[f]["dg"]:
            ev = by_id(drive(ctx.scratch, other, stage.vec(f), timeout=60))
            if "v" not in ev:
                return None
            v = ev["v"]
            g = bytes.fromhex
            return Call(op, g(v["k"]), g(v["n"]), g(v["a"]), g(v["m"]), "d%d" % f)
    return None


def shrink_for_tlc(c):
    return len(c.a) + len(c.x)


def judge_calls(ctx, alg, pairs, limit=24):
    """pairs: [(impl, Call, event)] -> list of bools (True = conforms to the specification),
    None where it was not judged."""
    recs, idx = [], []
    seen = {}
    res = [None] * len(pairs)
    for n, (impl, c, e) in enumerate(pairs):
        j = isap_job(alg, c, e)
        k = json.dumps(j, sort_keys=True)
        if k in seen:
            seen[k][1].append(n)
        else:
            if len(recs) >= limit:
                continue
            seen[k] = (len(recs), [n])
            recs.append(j)
    if not recs:
        return res
    hashes = "x" in recs[0] and "alg" not in recs[0]
    bad = ctx.judge("HashTrace" if hashes else "IsapTrace", recs)
    for pos, ns in seen.values():
        for n in ns:
            res[n] = pos not in bad
    return res


def long_calls_of(ctx, impls, ops):
    """Calls with lengths beyond the buffers of the others, for changed implementations and their companions:
    [(implementation, operation, al, xl, changed positions, event)]."""
    hot = ctx.hot(6)
    more = companions(impls, hot)
    todo = []
    for i in impls:
        if i.name not in more:
            continue
        sizes = {v + 1 for v in focus(i.alg, 1 << 25, 50) if v > 70000} | {(1 << 20) + 5, (3 << 20) + 2}
        if weight(i.alg) < 3:
            sizes.add((1 << 24) + 3)
        cost = weight(i.alg) * (30 if i.slow else 1) * (12 if i.name.split("/")[-1].startswith(("opt_8", "bi_8")) or "isapxv20" in i.name else 1)
        ts = []
        for L in sorted(s for s in sizes if s * cost <= 64 << 20):
            for op, al, xl in (("E", L, 3), ("E", 3, L), ("H", 0, L)):
                if op in ops and (op != "H" or i.has_hash):
                    pos = [("a" if al > xl else "x") + str(L - 1), ("a" if al > xl else "x") + str(L * 2 // 3)] if "F" in ops and L * cost <= 16 << 20 else []
                    ts.append((op, al, xl, pos))
        if ts:
            todo.append((i, ts))

    def one(t):
        i, ts = t
        lines = ["sens l%d %s %d %d %s %s %s" % (q, op, al, xl, "3c" * 16, "a7" * 16, " ".join(pos)) for q, (op, al, xl, pos) in enumerate(ts)]
        d = by_id(drive(ctx.scratch, i, ["limit 100"] + lines, timeout=300))
        return [(i, op, al, xl, l, d.get("l%d" % q)) for q, ((op, al, xl, pos), l) in enumerate(zip(ts, lines))]
    out = [r for rs in run_parallel(one, todo) for r in rs if r[5]]
    ctx.add("long_calls_of_changed", len(out))
    return out


def long_values(ctx, impls, ops):
    """One history per instance of the long calls, judged by AeadApi: every implementation gives the same outcome."""
    res = long_calls_of(ctx, impls, ops)
    hot, per = ctx.hot(), {}
    for i, op, al, xl, l, e in res:
        per.setdefault((i.alg, op, al, xl), {}).setdefault("%s/%s/%s" % (e["dg"], e["fault"], e["ret"]), []).append((i, l))
    keys = sorted(per)
    recs, src, ids = {}, {}, {}
    for k in keys:
        for out, who in sorted(per[k].items(), key=lambda t: (-len([1 for i, l in t[1] if i.name not in hot]), -len(t[1]))):
            z = lambda v: ids.setdefault(v, len(ids))
            recs.setdefault(k[0], []).append({"op": "E", "alg": k[0], "k": z("long"), "n": z(k), "a": z("a"), "x": z("x"), "xl": 0, "ret": 0, "len": 16, "out": z(out), "rel": "none", "fault": 0, "inp": 1, "slack": 1})
            src.setdefault(k[0], []).append((k, who))
    algs = sorted(recs)
    for pos, marks in ctx.judge("ApiTrace", [{"ev": recs[a]} for a in algs]).items():
        for step, cl in marks:
            if not cl:
                continue
            k, who = src[algs[pos]][step - 1]
            for i, l in who:
                if any(v["impl"] == i.name for v in ctx.viol):
                    continue
                first = [w for q, w in src[algs[pos]] if q == k][0][0]
                e1, e0 = (by_id(drive(ctx.scratch, z, ["limit 100", l], timeout=300)).get(l.split()[1], {}) for z in (i, first[0]))
                if e1.get("dg") != e0.get("dg") or e1.get("fault") != e0.get("fault"):
                    ctx.violation(i.name, i.name + ":long", "%s: %s with %d bytes of associated data and %d of input has another outcome than with %s" % (i.alg, {"E": "encryption", "H": "hash"}[k[1]], k[2], k[3], first[0].name),
                                  {"implementation": i.name, "script": [l]})


def long_flags(ctx, impls, what):
    """what = "good": round trips of long calls; "acc": forgeries of long calls."""
    for i, op, al, xl, l, e in long_calls_of(ctx, impls, "E" if what == "good" else "EF"):
        broken = (lambda e: e and not e.get("fault") and e.get("ret") == 0 and not e.get("good")) if what == "good" else (lambda e: e and any(f[2] for f in e.get("flips", [])))
        if broken(e) and not any(v["impl"] == i.name for v in ctx.viol) and broken(by_id(drive(ctx.scratch, i, ["limit 100", l], timeout=300)).get(l.split()[1])):
            ctx.violation(i.name, i.name + ":long", "%s: with %d bytes of associated data and %d of message %s" %
                          (i.alg, al, xl, "the genuine ciphertext is not opened to its message" if what == "good" else "a forgery is accepted: %s" % [f[0] for f in e["flips"] if f[2]]), {"implementation": i.name, "script": [l]})
