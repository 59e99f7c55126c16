import os

from hypothesis import strategies as st

from .. import gen, stream, zarr
from ..core import Sub, Violation
from .c22 import calls, content, path_of, steps_of


# ---- dimension arrays ---------------------------------------------------------------------------------------------------
def arrays(ctx, case):
    ops = [list(o) for o in case["ops"]]
    leak = [o for o in ops if o[1] == 0]
    r = ctx.run({"cmd": "script", "log_level": 4, "steps": [{"s": "dimops", "objects": case["objects"], "ops": ops}, {"s": "dimleak", "ops": leak}]})
    x = [q for q in r["results"] if q.get("s") == "dimops"]
    if not x:
        raise Violation("no result")
    has = [0] * case["objects"]
    lab = set()
    for i, (o, (rc, same, null, intact, count)) in enumerate(zip(ops, x[0]["res"])):
        where = "operation %d: %s" % (i, o)
        if o[0] == "create":
            ok = o[1] >= 0 and o[2] >= 3 and o[2] < case["limit"]
            if (rc == 0) != ok:
                raise Violation("%s returned status %d" % (where, rc))
            if rc and rc > 9:
                raise Violation("%s returned unknown status %d" % (where, rc))
            if ok:
                if null or count != o[2]:
                    raise Violation("%s: the array has %d entries%s" % (where, count, " and is NULL" if null else ""))
                if has[o[1]]:
                    lab.add("replaces an array")
                has[o[1]] = count
            else:
                lab.add("refused" if o[1] < 0 or o[2] < 3 else "cannot be allocated")
                if not same:
                    raise Violation("%s failed, but the array was changed" % where)
        elif o[1] >= 0:
            if not null or count:
                raise Violation("%s left an array of %d" % (where, count))
            if not has[o[1]]:
                lab.add("nothing to destroy")
            has[o[1]] = 0
        if not intact:
            raise Violation("%s changed something else" % where)
    g = [q for q in r["results"] if q.get("s") == "dimleak"][0]["growth"]
    if all(v > 0 for v in g):
        raise Violation("memory stays allocated after each round: %s bytes" % g)
    return {"nontrivial": any(o[0] == "create" for o in ops), "labels": sorted(lab)}


@st.composite
def array_cases(draw, huge):
    k = draw(st.integers(1, 3))
    count = st.one_of(st.integers(0, 12), st.integers(3, 40), st.sampled_from([0, 1, 2, 3, 1000, 20000]))
    count = st.one_of(count, count, st.sampled_from([2 ** 44 if huge else 2 ** 63, 2 ** 63, 2 ** 64 - 1, 2 ** 62, 2 ** 60 + 3 if huge else 2 ** 64 - 2]))
    op = st.one_of(st.tuples(st.just("create"), st.integers(-1, k - 1), count), st.tuples(st.just("create"), st.integers(-1, k - 1), count), st.tuples(st.just("destroy"), st.integers(-1, k - 1)))
    return {"objects": k, "ops": draw(st.lists(op, min_size=1, max_size=25)), "limit": 2 ** 40}


# ---- settings are only borrowed -----------------------------------------------------------------------------------------
def borrowed(ctx, case):
    """several streams made from one settings structure whose contents change in between"""
    ss = case["streams"]
    d = ctx.fresh()
    datas = [stream.data_for(s["cfg"]) for s in ss]
    steps, at, seqs = [], 0, []
    for i, s in enumerate(ss):
        seqs.append(steps_of(s, i, d, at))
        at += len(datas[i])
    order, k = case["order"] or [0], 0
    left = [list(q) for q in seqs]
    while any(left):
        live = [i for i, q in enumerate(left) if q]
        i = live[order[k % len(order)] % len(live)]
        k += 1
        x = left[i].pop(0)
        if x["s"] == "create":
            z = x["settings"]
            z["dim_api"] = ss[i]["dim_api"]
            steps.append({"s": "settings", "key": ss[i]["key"], "settings": z})
            x = {"s": "create", "id": i, "from": ss[i]["key"]}
            steps.append(x)
            if ss[i]["drop"]:
                steps.append({"s": "drop", "key": ss[i]["key"]})
        else:
            steps.append(x)
    steps += [{"s": "drop", "key": q} for q in (0, 1)]
    r = ctx.run({"cmd": "script", "data": stream.write_data(d, b"".join(datas) or b"x"), "prefix": d + "/", "nprocs": case["nprocs"], "log_level": 3,
                 "s3": {"buckets": ["bucket"]}, "steps": steps + [{"s": "s3dump", "dir": os.path.join(d, "s3")}]})
    for x in r["results"]:
        if x.get("modified"):
            raise Violation("%s modified what it was given" % x["s"])
    for i, s in enumerate(ss):
        c = calls(r, i)
        if not c[0][1] or any(x[2] for x in c if x[0] == "append"):
            raise Violation("stream %d failed: %s" % (i, r["err"][-300:]))
        zarr.check_store(s["cfg"], zarr.MemStore(content(r, d, s, i)), datas[i])
    lab = ["streams=%d" % len(ss)] + ["settings reused"] * (len({s["key"] for s in ss}) < len(ss)) + ["dimension helper used"] * any(s["dim_api"] for s in ss)
    lab += ["s3"] * any(s["s3"] for s in ss)
    return {"nontrivial": any(s["cfg"]["nframes"] for s in ss), "labels": lab}


@st.composite
def borrow_cases(draw, heavy=False):
    out = []
    for i in range(draw(st.sampled_from([1, 2, 2, 3]))):
        cfg = draw(gen.heavy_case(draw(st.sampled_from(["frames", "any"])))) if heavy and i == 0 else draw(gen.stream_case(cap=16, max_px=64, max_chunks=8, max_inner=3, compression=gen.compressions_all, names=draw(st.booleans()), small=True,
                                   partitions=draw(st.sampled_from(["frames", "any"])), custom=st.sampled_from([None, '{"a": [1, 2, {"b": null}], "long": "%s"}' % ("x" * 100)])))
        out.append({"cfg": cfg, "s3": draw(st.sampled_from([False, False, True])), "fate": "full", "cut": 0, "fault": None, "key": draw(st.integers(0, 1)),
                    "drop": draw(st.booleans()), "dim_api": draw(st.booleans())})
    return {"streams": out, "order": draw(st.lists(st.integers(0, 2), max_size=20)), "nprocs": draw(st.sampled_from([1, 4]))}


CHECK = {
    "id": "C23",
    "level": "exploration",
    "rule": "random histories of the dimension-array helpers on up to three settings structures and NULL, with all kinds of counts; and random streams made from settings structures that "
            "are overwritten, freed or reused for other streams after each creation, with append buffers overwritten and freed after each call; non-trivial: an array was "
            "requested, or frames were written. Oracle: a model of the arrays, memory growth over rounds, byte comparison of settings and buffers, AddressSanitizer, and the "
            "whole-store oracle.",
    "assumptions": ["counts that could be allocated but exceed the memory limits of the sanitizer (2^40 entries and more) are tried without it, where allocation fails"],
    "technique": "stateful model-based property-based testing under AddressSanitizer",
    "subs": [Sub("arrays", array_cases(False), arrays, 4000, 60000, "stream:asan"),
             Sub("counts", array_cases(True), arrays, 2000, 30000, "stream:plain"),
             Sub("borrowed", borrow_cases(), borrowed, 1500, 24000, "stream:asan"),
             Sub("borrowed_heavy", borrow_cases(True), borrowed, 120, 1800, "stream:asan")],
}
