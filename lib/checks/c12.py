import os
from hypothesis import strategies as st

from .. import gen, zarr, stream
from . import c13, c14
from ..core import Sub, Violation
from .c11 import ERRNOS, OPS


def content(ctx, case, s3):
    store, r, data = stream.run_simple(ctx, case, s3=s3)
    stream.require_success(case, r)
    return {k: store.get(k) for k in store.keys()}, data


def jobs(case):
    """more than one pool job per flush?"""
    from math import prod
    return prod(zarr.n_chunks(case["dims"])) * case["dims"][0]["chunk"] > 0 and prod(zarr.n_chunks(case["dims"])) > 1


def identical(ctx, case):
    ref, data = content(ctx, dict(case, nprocs=1), case["s3"])
    zarr.check_store(case, zarr.MemStore(ref), data)
    for run in case["runs"]:
        got, _ = content(ctx, dict(case, **run), case["s3"])
        if set(got) != set(ref):
            raise Violation("files differ between 1 and %d threads: %s" % (run["nprocs"], sorted(set(got) ^ set(ref))[:5]))
        for k in ref:
            if got[k] != ref[k]:
                raise Violation("%s differs between 1 and %d threads" % (k, run["nprocs"]))
    return {"nontrivial": jobs(case) and case["nframes"] > 0 and any(x["nprocs"] > 1 for x in case["runs"]),
            "labels": stream.labels(case) + ["s3" if case["s3"] else "files"] + ["threads=%d" % x["nprocs"] for x in case["runs"]]}


def races(ctx, case):
    store, r, data = stream.run_simple(ctx, case, s3=case["s3"])
    stream.require_success(case, r)
    zarr.check_store(case, store, data)
    return {"nontrivial": jobs(case) and case["nframes"] > 0 and case["nprocs"] > 1, "labels": stream.labels(case) + ["s3" if case["s3"] else "files", "threads=%d" % case["nprocs"]]}


def failing(ctx, case):
    """several jobs fail at once: their reports must not race with each other or with the caller"""
    d = ctx.fresh()
    data = stream.data_for(case)
    script = stream.base_script(case, d, data)
    path = stream.STORE if case["s3"] else os.path.join(d, stream.STORE)
    if case["s3"]:
        script["s3"] = {"buckets": ["bucket"], "log": False}
        rules = {"s": "s3faults", "rules": [dict(case["s3fault"], nth=case["nth"], count=case["count"])]}
    else:
        rules = {"s": "faults", "rules": [{"ops": OPS[case["ops"]], "nth": case["nth"], "count": case["count"], "err": case["err"], "mode": 0}]}
    cre = {"s": "create", "id": 0, "settings": stream.settings(case, path, case["s3"])}
    apps = stream.append_steps(case)
    steps = [rules, cre] + apps if case["early"] else [cre, rules] + apps
    script["steps"] = steps + [{"s": "destroy", "id": 0}]
    r = ctx.run(script)
    failed = [x for x in r["results"] if x.get("s") == "append" and not x.get("skipped") and x["rc"]]
    made = [x for x in r["results"] if x.get("s") == "create"][0]["ok"]
    errors = r["err"].count("[ERROR]")
    return {"nontrivial": errors > 1 and case["nprocs"] > 1,
            "labels": ["s3" if case["s3"] else "files", "threads=%d" % case["nprocs"], "created" if made else "creation failed"] + ["an append failed"] * bool(failed) +
            ["several errors reported"] * (errors > 1)}


def starved(ctx, case):
    """allocations fail in the jobs of several threads: what they report, and what they still touch, must not race with the caller"""
    r = c13.memory(ctx, case)
    return {"nontrivial": r["nontrivial"] and case["nprocs"] > 1, "labels": r["labels"] + ["compressed"] * bool(case["compression"])}


def parts(ctx, case):
    """threads that upload the parts of several large objects share the connections"""
    store, r, data = stream.run_simple(ctx, case, s3=True)
    stream.require_success(case, r)
    zarr.check_store(case, store, data)
    multi = [o for o in stream.s3_dump(r)["ops"] if o[0] == "complete_upload"]
    return {"nontrivial": len(multi) > 1 and case["nprocs"] > 1, "labels": ["v%d" % case["version"], "multipart objects=%d" % min(len(multi), 5)]}


jitter = st.fixed_dictionaries({"seed": st.integers(1, 2 ** 31), "permille": st.sampled_from([50, 200, 500]), "max_us": st.sampled_from([0, 20, 200])})


@st.composite
def cases(draw, runs):
    c = draw(gen.stream_case(cap=24, max_px=200, max_chunks=24, max_inner=4, compression=gen.compressions, log_levels=(0, 1, 3)))
    if draw(st.integers(0, 7)) == 0:
        c = draw(gen.deep_case())
    c["s3"] = draw(st.sampled_from([False, False, True]))
    if runs:
        c["runs"] = draw(st.lists(st.fixed_dictionaries({"nprocs": st.sampled_from([2, 3, 4, 8, 16, 32]), "jitter": jitter}), min_size=1, max_size=3))
    else:
        c["nprocs"] = draw(st.sampled_from([2, 3, 4, 8, 16]))
        c["jitter"] = draw(jitter)
    return c


@st.composite
def long_cases(draw, runs, heavy=False):
    """up to hundreds of flushes in one stream"""
    c = draw(gen.heavy_case()) if heavy else draw(gen.long_case(rows_cap=120))
    c["s3"] = draw(st.sampled_from([False, False, True]))
    if runs:
        c["runs"] = [{"nprocs": draw(st.sampled_from([2, 4, 8])), "jitter": draw(jitter)}]
    else:
        c["nprocs"] = draw(st.sampled_from([2, 4, 8]))
        c["jitter"] = draw(jitter)
    return c


@st.composite
def failing_cases(draw):
    c = draw(cases(False))
    c["early"] = draw(st.sampled_from([False, False, False, True]))
    c["nth"] = draw(st.sampled_from([0, 0, 0, 1, 2, 5, 20]))
    c["count"] = draw(st.sampled_from([-1, -1, -1, 2, 8]))
    c["ops"] = draw(st.sampled_from(["open", "write", "write", "any"]))
    c["err"] = draw(st.sampled_from(ERRNOS))
    c["s3fault"] = {"kind": draw(st.sampled_from(["*", "put", "upload_part", "create_upload"])), "after": draw(st.booleans()),
                    "status": draw(st.sampled_from([503, 0, 403]))}
    return c


@st.composite
def starved_cases(draw):
    c = draw(cases(False))
    c["appends"] = None
    for x in c["dims"][-2:]:  # chunks large enough to be told from the rest
        k = draw(st.integers(16, 40))
        x["chunk"] = x["chunk"] * k // x["array"] + 1
        x["array"] = k
    c["relief"] = draw(st.sampled_from([0, 1, 1]))
    c["late"] = draw(st.sampled_from([0, 1, 1, 1]))
    c["min"] = draw(st.sampled_from([1024, 1024, 1024, 4096]))
    c["nth"] = draw(st.one_of(st.integers(0, 12), st.integers(0, 80)))
    c["count"] = draw(st.sampled_from([1, 1, 2, -1, -1]))
    return c


@st.composite
def parts_cases(draw):
    """several objects of more than one upload part (5 MiB), written at once"""
    v = draw(st.sampled_from([2, 3, 3, 3]))
    k = draw(st.integers(2, 4))
    ch = draw(st.sampled_from([1, 1, 2]))
    h = -(-((5 << 20) + draw(st.sampled_from([0, 64, 1 << 17]))) // (1024 * ch))
    dims = [{"name": "t", "type": 2, "array": 0, "chunk": ch, "shard": draw(st.integers(1, 2)) if v == 3 else 1},
            {"name": "y", "type": 0, "array": h * k, "chunk": h, "shard": 1},
            {"name": "x", "type": 0, "array": 1024, "chunk": 1024, "shard": 1}]
    return {"version": v, "dtype": 0, "dims": dims, "multiscale": False, "nframes": ch * draw(st.integers(1, 2)), "nprocs": draw(st.sampled_from([2, 4, 8])), "log_level": 3,
            "compression": None, "data": {"kind": "random", "seed": draw(st.integers(0, 1000))}, "appends": None, "jitter": draw(jitter)}


@st.composite
def sink_cases(draw):
    c = draw(c14.cases())
    c["threads"] = True
    for i, s in enumerate(c["sinks"]):  # a key each: who of two writers of one object is last is nobody's promise
        s["key"] += "-%d" % i
    return c


CHECK = {
    "id": "C12",
    "level": "exploration",
    "rule": "random streams (files and S3, all levels) with 2-32 worker threads and random delays injected at mutex operations, file-system calls and S3 requests; "
            "non-trivial: several pool jobs per flush on several threads; in the third sub-check file-system calls or S3 requests fail on several threads "
            "(non-trivial: more than one error was reported), in the next allocations of 1 KiB and more (non-trivial: one was refused). Oracle: the store of the single-threaded run byte for byte, the whole-store oracle, "
            "ThreadSanitizer (all sub-checks but the first), and hang detection. The last two write large S3 objects in parallel, through streams and through sinks.",
    "assumptions": ["ThreadSanitizer sees the project's code and header-only library code, not the inside of libblosc and libstdc++.so",
                    "schedules are sampled by random delays, not enumerated"],
    "technique": "metamorphic property-based testing with schedule perturbation and ThreadSanitizer",
    "concurrent": True,
    "subs": [Sub("identical", cases(True), identical, 900, 12000, "stream:asan"),
             Sub("races", cases(False), races, 1000, 14000, "stream:tsan"),
             Sub("failing", failing_cases(), failing, 700, 9000, "stream:tsan"),
             Sub("starved", starved_cases(), starved, 240, 3600, "stream:tsan"),
             Sub("identical_long", long_cases(True), identical, 80, 1200, "stream:asan"),
             Sub("races_long", long_cases(False), races, 80, 1200, "stream:tsan"),
             Sub("identical_heavy", long_cases(True, True), identical, 80, 1200, "stream:asan"),
             Sub("races_heavy", long_cases(False, True), races, 80, 1200, "stream:tsan"),
             Sub("parts", parts_cases(), parts, 80, 1200, "stream:tsan"),
             Sub("sinks", sink_cases(), c14.fn, 160, 2400, "internal:tsan")],
}
