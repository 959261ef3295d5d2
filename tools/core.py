"""What the checks share: running scripts on all implementations, turning the recorded calls
into traces for the TLA+ trace specifications, confirming and reporting."""
import json
import os
import random
import re
import sys
import time

from vlib import *

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s:%d" % (prop, self.seed))
        self.scratch = Scratch()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.viol = []
        self._built = self._hot = None
        self.log = bool(os.environ.get("VERIF_LOG"))

    def say(self, *a):
        if self.log:
            print("[%6.1f]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def built(self):
        if self._built is None:
            self._built = build(self.scratch, discover())
            self.cov["implementations"] = len(self._built)
            self.say("built", len(self._built))
        return self._built

    def hot(self, most=12):
        """Implementations that get deeper explorations: those which differ from the tree of data/sources.json."""
        if self._hot is None:
            self._hot = changed(discover())
            self.cov["explored_deeper"] = sorted(self._hot)
        return self._hot if len(self._hot) <= most else set()

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, impl, key, what, replay):
        """impl: implementation name; key: what identifies the failing case; replay: data to see it again"""
        if any(v["impl"] == impl and v["key"] == key for v in self.viol):
            return
        self.viol.append({"impl": impl, "key": key, "what": what, "replay": replay})

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, must_finish=True, **kw):
        r = tlc(self.scratch, module, cfg, env=env, **kw)
        self.states += r.states
        self.transitions += r.generated
        if must_finish and not r.finished:
            raise CheckError("TLC did not finish on %s: %s" % (module, r.text[-3000:]))
        self.say("tlc", module, r.states)
        return r

    def tracefile(self, records):
        p = self.scratch.path("tr", "%d.ndjson" % random.getrandbits(60))
        with open(p, "w") as f:
            for r in records:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        return p

    def judge(self, module, records, cfg=None, **kw):
        """Runs a trace specification over records; returns the set of indices it rejects (0 based)
        with the clauses it printed."""
        if not records:
            return {}
        p = self.tracefile(records)
        r = self.tlc(module, cfg, env={"VERIF_TRACE": p}, **kw)
        os.remove(p)
        bad = {}
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+)(?:,\s*(\d+),\s*\{([^}]*)\})?', r.text):
            bad.setdefault(int(m.group(1)) - 1, []).append(
                (int(m.group(2) or 0), sorted(re.findall(r'"(\w+)"', m.group(3) or ""))))
        nok = len(set(re.findall(r'<<\s*"OK",\s*(\d+)', r.text)))
        nbad = len(bad)
        if nok + nbad != len(records):
            raise CheckError("%s judged %d+%d of %d records\n%s" % (module, nok, nbad, len(records), r.text[-2000:]))
        self.traces += len(records)
        return bad

    # ---- running scripts
    def run_all(self, impls, script_of, timeout=400, workers=NCPU, prefix=()):
        """script_of(impl) -> list of lines (or None to skip).  Returns [(impl, events)]."""
        todo = [(i, s) for i, s in ((i, script_of(i)) for i in impls) if s]
        todo.sort(key=lambda t: not t[0].slow)

        def one(t):
            ev = drive(self.scratch, t[0], t[1], timeout=timeout, tag=self.prop, prefix=prefix)
            return t[0], ev
        return run_parallel(one, todo, workers)


# ---------------------------------------------------------------- script helpers
def hx(b):
    return bytes(b).hex() if len(b) else "-"


class Call:
    """One call with concrete arguments."""
    __slots__ = ("op", "k", "n", "a", "x", "id", "note")

    def __init__(self, op, k, n, a, x, id="", note=""):
        self.op, self.k, self.n, self.a, self.x, self.id, self.note = op, bytes(k), bytes(n), bytes(a), bytes(x), id, note

    def line(self, id=None):
        if self.op == "H":
            return "H %s %s" % (id or self.id, hx(self.x))
        return "%s %s %s %s %s %s" % (self.op, id or self.id, hx(self.k), hx(self.n), hx(self.a), hx(self.x))

    def body(self):
        if self.op == "H":
            return "H %s" % hx(self.x)
        return "%s %s %s %s %s" % (self.op, hx(self.k), hx(self.n), hx(self.a), hx(self.x))

    def desc(self):
        def s(b):
            return b.hex() if len(b) <= 40 else b[:16].hex() + "..(%d bytes)" % len(b)
        if self.op == "H":
            return "hash(x=%s)" % s(self.x)
        return "%s(k=%s,n=%s,a=%s,x=%s)" % ("encrypt" if self.op == "E" else "decrypt", s(self.k), s(self.n), s(self.a), s(self.x))


def by_id(events):
    return {e["id"]: e for e in events}


def isap_job(alg, c, e):
    """Record for IsapTrace/HashTrace from a call and its event."""
    ret = e.get("ret", 99)
    ok = e.get("fault", 1) == 0 and ret == 0
    if c.op == "H":
        return {"x": list(c.x), "rret": 0 if ok else 1, "rout": hexl(e["out"]) if ok else []}
    ln = int(e.get("len", "0"), 16)
    if c.op == "E":
        good = ok and ln == len(c.x) + 16
        return {"alg": alg, "op": "enc", "k": list(c.k), "n": list(c.n), "a": list(c.a), "x": list(c.x), "t": [], "short": False,
                "rret": 0 if good else 1, "rout": hexl(e["out"]) if good else []}
    short_ = len(c.x) < 16
    x, t = (list(c.x[:-16]), list(c.x[-16:])) if not short_ else ([], [])
    rr = 0 if ok else 1
    if ok and ln != len(c.x) - 16:
        rr = 2
    if e.get("fault", 1):
        rr = 3
    return {"alg": alg, "op": "dec", "k": list(c.k), "n": list(c.n), "a": list(c.a), "x": x, "t": t, "short": short_,
            "rret": rr, "rout": hexl(e["out"]) if rr == 0 else []}


def api_event(alg, c, e, fill=0xA5):
    """Record for ApiTrace."""
    fault = 1 if e.get("fault", 1) else 0
    ret = 0 if (not fault and e.get("ret", 1) == 0) else 1
    ln = int(e.get("len", "0") or "0", 16)
    out = e.get("out", "")
    rel = "none"
    if c.op == "D" and ret:
        if any(b not in (0, fill) for b in bytes.fromhex(out)):
            rel = "dirty"
    return {"op": c.op, "alg": alg, "k": c.k.hex() if c.op != "H" else "", "n": c.n.hex() if c.op != "H" else "",
            "a": c.a.hex() if c.op != "H" else "", "x": c.x.hex(), "xl": len(c.x),
            "ret": ret, "len": ln if ln < 2 ** 31 else -1, "out": out if ret == 0 else "", "rel": rel, "fault": fault,
            "inp": e.get("inputs", 1) if not fault else 1, "slack": e.get("slack", 1) if not fault else 1}


def died(events):
    return events and events[-1].get("op") == "died"


# ---------------------------------------------------------------- ISAP specification as oracle
def spec_results(ctx, alg_calls):
    """[(alg, Call)] -> results of the specification itself: list of (ret, bytes)."""
    recs = []
    for alg, c in alg_calls:
        j = isap_job(alg, c, {"fault": 0, "ret": 0, "len": "0", "out": ""})
        j["rret"], j["rout"] = 0, []
        recs.append(j)
    p = ctx.tracefile(recs)
    r = ctx.tlc("IsapRun", env={"VERIF_TRACE": p})
    os.remove(p)
    out = {}
    for m in re.finditer(r'"RES (\[.*?\]\])"', r.text):
        d = json.loads(m.group(1))
        out[d[0] - 1] = (d[1], bytes(d[2]))
    if len(out) != len(recs):
        raise CheckError("IsapRun: %d of %d results\n%s" % (len(out), len(recs), r.text[-1500:]))
    return [out[i] for i in range(len(recs))]


def rbytes(rng, n):
    """Byte strings with some structure now and then."""
    k = rng.randrange(8)
    if k == 0:
        return bytes([rng.choice([0, 0xff, 0x80, 1, 0x7f])]) * n
    if k == 1 and n:
        b = bytearray(n)
        b[rng.randrange(n)] = 1 << rng.randrange(8)
        return bytes(b)
    if k == 2 and n:
        b = bytearray(rng.randbytes(n))
        z = rng.randrange(min(n, 20))
        for j in range(z):
            b[n - 1 - j] = 0
        if z:
            b[n - z] = 0x80
        return bytes(b)
    return rng.randbytes(n)


# ---------------------------------------------------------------- groups and confirmation
def grouped(results, norm):
    """Implementations grouped by their normalised events: [(key, [(impl, events)])]."""
    g = {}
    for i, ev in results:
        k = norm(i, ev)
        g.setdefault(k, []).append((i, ev))
    return list(g.items())


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"finding: property=(\w+) impl=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def finish(ctx, level="model_checking"):
    wall = time.time() - ctx.t0
    known = known_findings(ctx.prop)
    fresh, seen = [], set()
    for v in ctx.viol:
        hit = [k for k in known if k[0] == v["impl"] and k[1] == v["key"]]
        if hit:
            if hit[0] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (ctx.prop, hit[0][2]))
            seen.add(hit[0])
        else:
            fresh.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    lines = []
    rep = {}
    for v in fresh:
        rep.setdefault(v["key"], []).append(v)
    for n, (key, vs) in enumerate(list(rep.items())[:10]):
        p = os.path.join(VERIF, "evidence", "replay_%s_%d.json" % (ctx.prop, n))
        with open(p, "w") as f:
            json.dump({"property": ctx.prop, "what": vs[0]["what"], "implementations": sorted({v["impl"] for v in vs}),
                       "key": key, "seed": ctx.seed, "replay": vs[0]["replay"]}, f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (ctx.prop, p))
        print("%s: %s" % (vs[0]["impl"] + (" and %d others" % (len({v["impl"] for v in vs}) - 1) if len({v["impl"] for v in vs}) > 1 else ""), vs[0]["what"]))
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples or ["none"]}
    cov.update(ctx.cov)
    ev = {"property": ctx.prop, "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick", "seed": ctx.seed, "level": level,
          "coverage": cov, "assumptions": ctx.assumptions, "wall_s": round(wall, 1), "violations": len(fresh)}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if fresh else 0
