from math import prod

from hypothesis import strategies as st

from ..core import Sub, Violation
from .c20 import BYTES, U32, ceil, geometry, number, run, same


def fn(ctx, case):
    lab, nontriv = set(), False
    for g, x in zip(case["list"], run(ctx, case)):
        d = g["dims"]
        if "refused" in x:
            raise Violation("refused: %s: %s" % (g, x["refused"]))
        nch = [ceil(a, c) for a, c, _, _ in d]
        nsh = [ceil(k, s) for k, (_, _, s, _) in zip(nch, d)]
        same("chunks and shards along each dimension", x["along"], [[a, b] for a, b in zip(nch, nsh)], g)
        memory, shards, per = prod(nch[1:]), prod(nsh[1:]), prod(q[2] for q in d)
        same("the number of chunks in memory", x["memory"], memory, g)
        same("the number of shards", x["shards"], shards, g)
        same("the number of chunks per shard", x["per_shard"], per, g)
        same("the size of a chunk", x["bytes"], prod(q[1] for q in d) * BYTES[g["dtype"]], g)
        taken = {}
        for i, (shard, slot) in zip(g["chunks"], x["chunks"]):
            coord, rest = [], i
            for k in reversed(nch[1:]):
                coord.insert(0, rest % k)
                rest //= k
            coord.insert(0, rest)  # layer of the shard along the append dimension
            ws, wi, a, b = 0, 0, 1, 1
            for k in range(len(d) - 1, -1, -1):
                if k:
                    ws += coord[k] // d[k][2] * a
                    a *= nsh[k]
                wi += coord[k] % d[k][2] * b
                b *= d[k][2]
            if i < memory:
                same("chunk %d: its shard" % i, shard, ws, g)
                if shard >= shards:
                    raise Violation("chunk %d belongs to shard %d of %d: %s" % (i, shard, shards, g))
            same("chunk %d: its slot" % i, slot, wi, g)
            if slot >= per:
                raise Violation("chunk %d has slot %d of %d: %s" % (i, slot, per, g))
            if taken.setdefault((ws, slot), i) != i and i // memory < d[0][2] and taken[(ws, slot)] // memory < d[0][2]:
                raise Violation("chunks %d and %d share slot %d of shard %d: %s" % (i, taken[(ws, slot)], slot, ws, g))
        nontriv |= memory > 1 and per > 1
        lab.add("%d dimensions" % len(d))
        if any(k % q[2] for k, q in zip(nch[1:], d[1:])):
            lab.add("ragged shards")
        if any(q[2] > k for k, q in zip(nch[1:], d[1:])):
            lab.add("shard larger than array")
        if shards > 1 and per > 1:
            lab.add("several shards")
        if memory > 1 << 16:
            lab.add("more than 65536 chunks")
    return {"nontrivial": nontriv, "labels": sorted(lab)}


@st.composite
def cases(draw, small):
    out = []
    for _ in range(draw(st.integers(1, 3 if small else 6))):
        g = draw(geometry(small))
        d = g["dims"]
        memory = prod(ceil(a, c) for a, c, _, _ in d[1:])
        total = min(memory * d[0][2], U32)
        if small and total <= 400:
            g["chunks"] = list(range(total))
        else:
            pick = st.one_of(number(0, max(0, min(memory, total) - 1)), number(0, max(0, total - 1)))
            g["chunks"] = sorted(set(draw(st.lists(pick, min_size=1, max_size=30)) + [0, max(0, memory - 1)]))
        out.append(g)
    return {"list": out}


CHECK = {
    "id": "C25",
    "level": "exploration",
    "rule": "random dimension lists (3-10 dimensions, sizes up to 2^32-1, ragged chunks and shards, shards larger than the array); all chunks of all layers for small ones, "
            "sampled chunk numbers for large ones; non-trivial: several chunks in memory and per shard. Oracle: row-major partition with unlimited integers; uniqueness of slots.",
    "assumptions": ["derived counts are generated to fit their 32-bit types"],
    "technique": "property-based testing against an unlimited-precision reference model",
    "subs": [Sub("large", cases(False), fn, 7000, 150000, "dims:asan"), Sub("small", cases(True), fn, 4000, 60000, "dims:asan")],
}
