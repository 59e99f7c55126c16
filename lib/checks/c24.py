from hypothesis import strategies as st

from .. import gen, stream, zarr
from ..core import Sub, Violation
from ..gen import ceil_div

U32 = 2 ** 32 - 1
sizes = st.one_of(st.integers(1, 6), st.integers(1, 100), st.integers(1, 5000), st.integers(1, U32), st.sampled_from([1, 2, 3, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, U32 - 1, U32]),
                  st.integers(0, 31).map(lambda k: 2 ** k), st.integers(1, 31).flatmap(lambda k: st.sampled_from([2 ** k - 1, 2 ** k + 1])))


def planned(dims, limit=60):
    """every level below `dims`, and whether the last one is the end; written from the statement of the property"""
    cur, out = dims, []
    while len(out) < limit:
        nxt = []
        for d in cur:
            if d["type"] == 1:
                nxt.append(dict(d))
                continue
            a = (d["array"] + 1) // 2
            if d["array"] == 0:  # grows without limit
                nxt.append(dict(d, shard=1))
            else:
                c = min(d["chunk"], a)
                nxt.append(dict(d, array=a, chunk=c, shard=min(d["shard"], ceil_div(a, c))))
        out.append(nxt)
        shrunk = any(n["chunk"] < c["chunk"] for n, c in zip(nxt, cur))
        left = any(n["type"] != 1 and n["array"] > 1 for n in nxt)
        if shrunk or not left:
            return out
        cur = nxt
    raise RuntimeError("model diverges")


def plan(ctx, case):
    dims = case["dims"]
    want = planned(dims)
    r = ctx.run({"cmd": "plan", "dims": dims, "dtype": case["dtype"], "level": case["level"], "bucket": case["bucket"], "compression": case["compression"], "limit": 80})
    res = [x for x in r["results"] if "more" in x]
    if len(res) > len(want):
        raise Violation("the pyramid goes on after %d levels: %s" % (len(want), [d["array"] for d in res[len(want) - 1]["dims"]]))
    for k, (x, w) in enumerate(zip(res, want)):
        where = "level %d" % (case["level"] + k + 1)
        for i, (g, e) in enumerate(zip(x["dims"], w)):
            for f in ("name", "type", "array", "chunk", "shard"):
                if g[f] != e[f]:
                    raise Violation("%s: dimension %d has %s %r, expected %r (%s of the level above: %r)" % (where, i, f, g[f], e[f], f, ([dims] + want)[k][i][f]))
        if len(x["dims"]) != len(w):
            raise Violation("%s has %d dimensions" % (where, len(x["dims"])))
        if x["source"] != [{f: d[f] for f in ("array", "chunk", "name", "shard", "type")} for d in ([dims] + want)[k]]:
            raise Violation("%s: planning changed the level above" % where)
        for f, v in (("level", case["level"] + k + 1), ("dtype", case["dtype"]), ("store_path", "store"), ("bucket", case["bucket"])):
            if x[f] != v:
                raise Violation("%s: %s is %r, expected %r" % (where, f, x[f], v))
        if x["compression"] != case["compression"]:
            raise Violation("%s: compression %r, expected %r" % (where, x["compression"], case["compression"]))
        if x["more"] != (k + 1 < len(want)):
            raise Violation("%s is planned as %s" % (where, "the last one" if not x["more"] else "not the last one"))
    if len(res) < len(want):
        raise Violation("the pyramid ends after %d levels, %d expected" % (len(res), len(want)))
    lab = ["levels=%s" % (len(want) if len(want) < 5 else "5-9" if len(want) < 10 else "10+")]
    lab += ["chunk larger than the array"] * any(d["chunk"] > d["array"] > 0 for d in dims)
    lab += ["channel"] * any(d["type"] == 1 for d in dims) + ["one-pixel chunk"] * any(d["chunk"] == 1 for d in dims[1:])
    lab += ["ends because a chunk shrinks"] if any(a["chunk"] < b["chunk"] for a, b in zip(want[-1], ([dims] + want)[-2])) else ["ends with nothing left to halve"]
    return {"nontrivial": any(d["type"] != 1 and d["array"] > 1 for d in dims), "labels": lab}


@st.composite
def plan_cases(draw):
    nd = draw(st.sampled_from([3, 3, 4, 5, 6, 8]))
    style = draw(st.sampled_from(["any", "deep", "small chunks", "ones"]))
    dims = []
    for i in range(nd):
        ty = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
        a = draw(sizes) if style != "ones" else draw(st.sampled_from([1, 1, 1, 2, 3]))
        if style == "deep":
            a = draw(st.integers(2 ** 20, U32))
        if i == 0 and draw(st.booleans()):
            a = 0
        if style in ("deep", "small chunks"):
            c = draw(st.sampled_from([1, 1, 1, 2, 3, 7, 16]))
        else:
            c = draw(st.one_of(st.integers(1, max(1, min(2 * a, U32))), st.integers(1, 9), st.just(max(1, a)), st.just(max(1, a // 2)), st.just(max(1, ceil_div(a, 2))), st.just(max(1, ceil_div(a, 4)))))
        n = max(1, ceil_div(a, c))
        s = draw(st.one_of(st.integers(1, n), st.integers(1, 5), st.just(n), st.just(min(n + 2, U32))))
        dims.append({"name": "d%d" % i, "type": ty, "array": a, "chunk": c, "shard": s})
    comp = draw(st.one_of(st.none(), st.fixed_dictionaries({"codec": st.sampled_from(["lz4", "zstd"]), "level": st.integers(0, 9), "shuffle": st.integers(0, 2)})))
    return {"dims": dims, "dtype": draw(st.integers(0, 9)), "level": draw(st.sampled_from([0, 0, 0, 3])), "bucket": draw(st.sampled_from([None, None, "bucket"])), "compression": comp}


# ---- the levels of whole stores -------------------------------------------------------------------------------------------
def levels(ctx, case):
    store, r, data = stream.run_simple(ctx, case, s3=case["s3"])
    stream.require_success(case, r)
    want = [case["dims"]] + (planned(case["dims"]) if case["multiscale"] else [])
    n = case["nframes"]
    for k, dims in enumerate(want):
        zarr.check_array_meta(case, store, k, dims, n)
        n //= 2
    keys = store.keys()
    have = {q for q in keys if q.endswith("/.zarray") or q.endswith(".array.json")}
    exp = {zarr.meta_key(case, k) for k in range(len(want))}
    if have != exp:
        raise Violation("levels with metadata: %s, expected %s" % (sorted(have), sorted(exp)))
    at = ".zattrs" if case["version"] == 2 else "meta/root.group.json"
    doc = zarr.strict_json(store.get(at), at)
    ms = doc.get("multiscales") if case["version"] == 2 else doc.get("attributes", {}).get("multiscales")
    if not isinstance(ms, list) or len(ms) != 1 or not isinstance(ms[0], dict) or not isinstance(ms[0].get("datasets"), list):
        raise Violation("%s: multiscales is %r" % (at, ms))
    ds = [x.get("path") if isinstance(x, dict) else x for x in ms[0]["datasets"]]
    if ds != [str(k) for k in range(len(want))]:
        raise Violation("%s lists the levels %s, expected 0 to %d" % (at, ds, len(want) - 1))
    return {"nontrivial": len(want) > 1, "labels": ["levels=%d" % len(want), "frames" if case["nframes"] else "no frames", "s3" if case["s3"] else "file", "v%d" % case["version"]]}


@st.composite
def level_cases(draw):
    c = draw(gen.stream_case(cap=6, small=True, max_px=40, max_chunks=6, max_inner=3, multiscale=draw(st.sampled_from([True, True, True, True, False])), names=draw(st.booleans()), log_levels=(3,)))
    c["s3"] = draw(st.booleans())
    if draw(st.integers(0, 2)):
        # no pixels: sizes are unlimited
        d = c["dims"]
        for i, x in enumerate(d):
            hi = draw(st.sampled_from([3, 40, 1000, 60000]))
            a = draw(st.integers(1, hi)) if i or draw(st.booleans()) else 0
            x["array"] = a
            x["chunk"] = draw(st.one_of(st.integers(1, max(1, a)), st.integers(1, 8), st.just(max(1, ceil_div(a, 2))), st.just(max(1, ceil_div(a, 4)))))
            if x["chunk"] * 2 ** 9 < a:
                x["chunk"] = max(1, a // 2 ** draw(st.integers(1, 9)))
            n = max(1, ceil_div(a, x["chunk"]))
            if c["version"] == 3:
                x["shard"] = draw(st.one_of(st.integers(1, min(n, 50)), st.integers(1, 4)))
        c["nframes"], c["appends"] = 0, None
    return c


CHECK = {
    "id": "C24",
    "level": "exploration",
    "rule": "random geometries of 3 to 8 dimensions (sizes 0 or 1 to 2^32-1 with powers of two and their neighbours, chunks of one pixel up to twice the array, shards up to past the grid, all "
            "kinds of dimensions), planned level by level; and the metadata of every level of random finished stores on both back ends; non-trivial: some dimension can be halved. "
            "Oracle: an independent planner written from the statement.",
    "assumptions": [],
    "technique": "differential property-based testing against a reference planner",
    "subs": [Sub("plan", plan_cases(), plan, 12000, 200000, "internal:asan"),
             Sub("levels", level_cases(), levels, 1500, 24000, "stream:asan")],
}
