"""python3 data/make.py DIR: writes data/rare_*.txt from the search results DIR/*.out (search_rare.c).
Ciphertexts come from a reference implementation and every line is judged by the TLA+ machines."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from agree import *   # noqa


def main(d):
    ctx = Ctx("data")
    impls = build(ctx.scratch, [i for i in discover() if i.name.endswith("/ref")])
    here = os.path.dirname(os.path.abspath(__file__))
    for alg in ALGS:
        i = [j for j in impls if j.alg == alg][0]
        rows = []
        for line in open(os.path.join(d, alg + ".out")):
            f = line.split()
            if len(f) == 5:
                rows.append([f[0]] + [b"" if z == "-" else bytes.fromhex(z) for z in f[1:]])
        rng = random.Random("data" + alg)
        r = RATE[alg]
        base = []
        for L in (1, 7, 8, 9, 16, 17, r, r + 1, 2 * r, 2 * r + 3, 3 * r, 4 * r + 5, 64):
            base.append([L, rng.randbytes(16), rng.randbytes(16), rng.randbytes(rng.randrange(2 * r))])
        ev = by_id(drive(ctx.scratch, i, [Call("E", k, n, a, bytes(L)).line("e%d" % L) for L, k, n, a in base]))
        for L, k, n, a in base:
            ks = bytes.fromhex(ev["e%d" % L]["out"])[:L]
            rows.append(["c0_%d" % L, k, n, a, ks])
            rows.append(["cf_%d" % L, k, n, a, bytes(z ^ 255 for z in ks)])
        rows.sort(key=lambda t: t[0])
        cs = [Call("E", *row[1:], id="r%d" % q) for q, row in enumerate(rows)]
        ev = by_id(drive(ctx.scratch, i, [c.line() for c in cs]))
        jobs = [isap_job(alg, c, ev[c.id]) for c in cs]
        bad = ctx.judge("IsapTrace", jobs)
        assert not bad, bad
        with open(os.path.join(here, "rare_%s.txt" % alg), "w") as f:
            for row, c in zip(rows, cs):
                f.write(" ".join([row[0]] + [hx(z) for z in row[1:]] + [ev[c.id]["out"]]) + "\n")
        print(alg, len(rows))
    i = [j for j in impls if j.has_hash][0] if any(j.has_hash for j in impls) else build(ctx.scratch, [j for j in discover() if j.has_hash][:1])[0]
    rows = []
    for line in open(os.path.join(d, "hash.out")):
        f = line.split()
        if len(f) == 5:
            rows.append((f[0], b"" if f[4] == "-" else bytes.fromhex(f[4])))
    rows.sort()
    cs = [Call("H", b"", b"", b"", m, "r%d" % q) for q, (f, m) in enumerate(rows)]
    ev = by_id(drive(ctx.scratch, i, [c.line() for c in cs]))
    bad = ctx.judge("HashTrace", [isap_job("hash", c, ev[c.id]) for c in cs])
    assert not bad, bad
    with open(os.path.join(here, "rare_hash.txt"), "w") as f:
        for (n, m), c in zip(rows, cs):
            f.write("%s %s %s\n" % (n, hx(m), ev[c.id]["out"]))
    print("hash", len(rows))
    ctx.scratch.close()


main(sys.argv[1])
