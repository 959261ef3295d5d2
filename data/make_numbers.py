"""Writes data/numbers.json: how often each number occurs in each source file of the tree the checks were made for,
and data/sources.json: digests of the implementations' sources."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from agree import ALGS, source_numbers, VERIF, discover, digest_of   # noqa: E402
d = {}
for alg in ALGS:
    for f, c in source_numbers(alg).items():
        d[f] = {str(v): q for v, q in sorted(c.items())}
json.dump(d, open(os.path.join(VERIF, "data", "numbers.json"), "w"), sort_keys=True, separators=(",", ":"))
json.dump({i.name: digest_of(i) for i in discover()}, open(os.path.join(VERIF, "data", "sources.json"), "w"), indent=0, sort_keys=True)
