import copy, errno, os
from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Sub, Violation
from .c11 import ERRNOS, OPS

N = 7
BREAK = ["none", "none", "none", "none", "dtype", "dims", "chunk", "name", "custom", "level", "version", "path", "bucket", "parent", "null"]


def session_steps(case, s, sid, d, base):
    cfg = s["cfg"]
    path = "st%d" % sid if s["s3"] else os.path.join(d, "st%d" % sid)
    b = s["break"]
    if b == "parent" and not s["s3"]:
        path = os.path.join(d, "missing", "st")
    z = stream.settings(cfg, path, s["s3"])
    ok = b == "none"
    if b == "dtype":
        z["dtype"] = 10
    elif b == "dims":
        z["dims"], z["dim_count"] = None, 3
    elif b == "chunk":
        z["dims"][0]["chunk"] = 0
    elif b == "name":
        z["dims"][1]["name"] = None
    elif b == "custom":
        z["custom_metadata"] = stream.hx("{]")
    elif b == "level":
        z["compression"] = {"compressor": 1, "codec": 1, "level": 10, "shuffle": 0}
    elif b == "version":
        z["version"] = 1
    elif b == "path":
        z["store_path"] = None
    elif b == "bucket" and s["s3"]:
        z["s3"]["bucket"] = stream.hx("not-there")
    elif b == "null":
        z = None
    else:
        ok = True
    steps = []
    if s["faults"]:
        steps.append({"s": "faults", "rules": [{"ops": OPS[f["ops"]], "nth": f["nth"], "count": f["count"], "err": f["err"], "mode": 0} for f in s["faults"]]})
    if s["s3faults"]:
        steps.append({"s": "s3faults", "rules": s["s3faults"]})
    steps.append({"s": "create", "id": sid, "settings": z})
    apps = []
    for i, st_ in enumerate(stream.append_steps(cfg, sid, base)):
        if s["odd"] and i % s["odd"] == 0:
            apps.append({"s": "append", "id": sid, "off": base, "len": 1 if st_["len"] else 0, "null_data": True, "null_ok": True})
            apps.append({"s": "append", "id": sid, "off": base, "len": 0, "null_out": True, "null_ok": True})
        apps.append(st_)
    steps.append(apps)
    steps.append({"s": "destroy", "id": sid})
    if s["faults"]:
        steps.append({"s": "faults", "rules": []})
    if s["s3faults"]:
        steps.append({"s": "s3faults", "rules": []})
    return steps, ok


def fn(ctx, case):
    d = ctx.fresh()
    data, bases = b"", []
    for s in case["sessions"]:
        bases.append(len(data))
        data += stream.data_for(s["cfg"])
    script = {"cmd": "script", "data": stream.write_data(d, data or b"x"), "prefix": d + "/", "nprocs": case["nprocs"], "log_level": case["log_level"],
              "s3": {"buckets": ["bucket"], "log": False}, "timeout": 120.0}
    parts = [session_steps(case, s, i, d, bases[i])[0] for i, s in enumerate(case["sessions"])]

    def flat(p):
        out = []
        for x in p:
            out += x if isinstance(x, list) else [x]
        return out
    body = []
    if case["order"] == "sequential" or len(parts) < 2:
        for p in parts:
            body += flat(p)
    else:
        # overlapping lifetimes: everything of one stream inside the life of the other
        seqs = [flat(p) for p in parts]
        while any(seqs):
            for q in seqs:
                if q:
                    body.append(q.pop(0))
    body += [{"s": "destroy", "id": 99}, {"s": "s3reset"}, {"s": "probe"}]
    script["steps"] = [{"s": "repeat", "n": N, "steps": body}]
    r = ctx.run(script)
    for x in r["results"]:
        if x.get("s") == "append" and x.get("bytes_out") == 0xdeadbeef and x["rc"] == 0:
            raise Violation("append succeeded without setting the number of bytes written")
    pr = [x for x in r["results"] if x.get("s") == "probes"][0]["list"]
    first = pr[2]
    for i, p in enumerate(pr[2:], 2):
        if p["threads"] != 1:
            raise Violation("%d threads are left after everything was destroyed (round %d)" % (p["threads"] - 1, i))
        if p["clients"] != 0:
            raise Violation("%d S3 connections are left after everything was destroyed" % p["clients"])
    if all(b["fds"] > a["fds"] for a, b in zip(pr[2:], pr[3:])):
        raise Violation("file descriptors are left open, round after round: %s" % [p["fds"] for p in pr])
    grow = [b["alloc"] - a["alloc"] for a, b in zip(pr[2:], pr[3:])]
    if all(g > 0 for g in grow):
        raise Violation("memory is left allocated, round after round: %s bytes" % grow)
    apps = [x for x in r["results"] if x.get("s") == "append" and not x.get("skipped")]
    failed = [x for x in r["results"] if x.get("s") == "create" and not x["ok"]]
    lab = ["sessions=%d" % len(parts), case["order"]]
    lab += ["s3"] * any(s["s3"] for s in case["sessions"]) + ["files"] * any(not s["s3"] for s in case["sessions"])
    lab += ["creation failed"] * bool(failed) + ["an append failed"] * any(x["rc"] for x in apps) + ["multiscale"] * any(s["cfg"]["multiscale"] for s in case["sessions"])
    lab += ["faults"] * any(s["faults"] or s["s3faults"] for s in case["sessions"])
    if all(g == 0 for g in grow):
        lab.append("allocation exactly constant")
    return {"nontrivial": bool(failed) or bool(apps), "labels": lab}


fault = st.fixed_dictionaries({"ops": st.sampled_from(["open", "mkdir", "write", "any"]), "nth": st.integers(0, 40), "count": st.sampled_from([1, 2, -1]),
                               "err": st.sampled_from(ERRNOS)})
s3fault = st.fixed_dictionaries({"kind": st.sampled_from(["*", "*", "put", "list", "bucket_exists", "create_upload", "upload_part", "complete_upload"]),
                                 "nth": st.integers(0, 30), "count": st.sampled_from([1, 2, -1]), "after": st.booleans()})


@st.composite
def cases(draw, heavy=False):
    out = []
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        s3 = draw(st.sampled_from([False, False, True]))
        f = draw(st.sampled_from([False, False, True]))
        if heavy and i == 0:
            cfg = gen.heavy_case(draw(st.sampled_from(["frames", "any"])))
        elif draw(st.integers(0, 4)) == 0:
            cfg = gen.deep_case((2, 3, 3, 4))
        else:
            cfg = gen.stream_case(cap=16, max_px=150, max_chunks=10, max_inner=4, partitions=draw(st.sampled_from(["frames", "any"])), small=True)
        out.append({"cfg": draw(cfg),
                    "s3": s3, "break": draw(st.sampled_from(BREAK)), "odd": draw(st.sampled_from([0, 0, 1, 3])),
                    "faults": draw(st.lists(fault, min_size=1, max_size=2)) if f and not s3 else [],
                    "s3faults": draw(st.lists(s3fault, min_size=1, max_size=2)) if f and s3 else []})
    return {"sessions": out, "order": draw(st.sampled_from(["sequential", "interleaved"])), "nprocs": draw(st.sampled_from([1, 2, 4])), "log_level": draw(st.sampled_from([3, 3, 1, 4]))}


def memory(ctx, case):
    """some of the large allocations fail"""
    d = ctx.fresh()
    data = stream.data_for(case)
    script = stream.base_script(case, d, data)
    path = stream.STORE if case["s3"] else os.path.join(d, stream.STORE)
    on = [{"s": "allocfaults", "min": case["min"], "nth": case["nth"], "count": case["count"]}]
    cre = [{"s": "create", "id": 0, "settings": stream.settings(case, path, case["s3"])}]
    script["steps"] = (cre + on if case.get("late") else on + cre) + stream.append_steps(case) + \
        [{"s": "allochits"}] + [{"s": "allocfaults", "min": 0, "nth": 0, "count": 0}] * case.get("relief", 0) + [{"s": "destroy", "id": 0}, {"s": "allochits"}]
    if case["s3"]:
        script["s3"] = {"buckets": ["bucket"], "log": False}
        script["steps"].append({"s": "s3dump", "dir": os.path.join(d, "s3")})
    r = ctx.run(script)
    early, h = [x for x in r["results"] if x.get("s") == "allochits"]
    if h["hits"] < early["hits"]:
        raise Violation("harness: fewer refused allocations at the end than before")
    cre = [x for x in r["results"] if x.get("s") == "create"][0]
    apps = [x for x in r["results"] if x.get("s") == "append" and not x.get("skipped")]
    lens = stream.append_list(case)
    failed = not cre["ok"] or any(x["rc"] or x["bytes_out"] != n for x, n in zip(apps, lens))
    # destroy returns nothing and can only log; what went wrong before it, with nothing refused during it, create or an append reports
    reported = failed or (not case.get("relief", 0) and "[ERROR]" in r["err"])
    if not h["hits"]:
        stream.require_success(case, r)
    if not reported:
        try:
            zarr.check_store(case, stream.s3_store(r, stream.STORE) if case["s3"] else zarr.DirStore(path), data)
        except Violation as v:
            raise Violation("%d allocations failed, neither create nor an append reported it, but the store is wrong: %s" % (h["hits"], v))
    lab = ["s3" if case["s3"] else "files"]
    if h["hits"]:
        lab.append("reported by " + ("create" if not cre["ok"] else "append" if any(x["rc"] for x in apps) else "log only" if reported else "nobody (store complete)"))
    else:
        lab.append("allocation not reached" if h["seen"] else "no large allocation")
    return {"nontrivial": h["hits"] > 0, "labels": lab}


@st.composite
def memory_cases(draw):
    c = draw(gen.stream_case(cap=24, max_px=1600, max_chunks=12, max_inner=4, partitions=draw(st.sampled_from(["frames", "frames", "any"]))))
    if c["dims"][-1]["array"] * c["dims"][-2]["array"] < 256:  # make the buffers large enough to be told from the rest
        for d in c["dims"][-2:]:
            k = draw(st.integers(16, 40))
            d["chunk"] = d["chunk"] * k // d["array"] + 1
            d["array"] = k
    c["appends"] = None
    c["s3"] = draw(st.sampled_from([False, False, False, True]))
    c["relief"] = draw(st.integers(0, 1))
    c["min"] = draw(st.sampled_from([1024, 1024, 4096, 20000]))
    c["nth"] = draw(st.one_of(st.integers(0, 8), st.integers(0, 120)))
    c["count"] = draw(st.sampled_from([1, 1, 2, -1, -1]))
    return c


CHECK = {
    "id": "C13",
    "level": "exploration",
    "rule": "random histories of one or two streams (overlapping or not; files and S3; valid and broken settings; appends of any sizes and with NULL arguments; "
            "file-system and S3 faults), each repeated %d times in one process; non-trivial: a creation failed or something was appended. Oracle: AddressSanitizer and "
            "UBSan on every access, and threads, descriptors, connections and allocated bytes at the end of each round. Second sub-check: random streams during which "
            "some allocations of at least 1 KiB fail (non-trivial: one did); the process must survive, and the failure is reported or the store complete." % N,
    "assumptions": ["a leak is growth in every round after the second", "caller's buffers are exact-size heap blocks, so any overrun is seen"],
    "technique": "stateful property-based testing under sanitizers, with resource accounting",
    "subs": [Sub("histories", cases(), fn, 1000, 14000, "stream:asan"),
             Sub("heavy", cases(True), fn, 80, 1200, "stream:asan"),
             Sub("memory", memory_cases(), memory, 1600, 20000, "stream:plain")],
}
