import os

from hypothesis import strategies as st

from .. import gen, stream, zarr
from ..core import Sub, Violation
from .c11 import ERRNOS
from .c12 import jitter

NAMES = ["s", "s1", "s10", "u9", "s.zarr"]


def path_of(d, s, i):
    return NAMES[i] if s["s3"] else os.path.join(d, NAMES[i])


def steps_of(s, i, d, base):
    z = stream.settings(s["cfg"], path_of(d, s, i), s["s3"])
    if s["fate"] == "broken":
        z["dims"][0]["chunk"] = 0
    apps = stream.append_steps(s["cfg"], i, base)
    if s["fate"] == "cut":
        apps = apps[:int(s["cut"] * len(apps))]
    steps = [{"s": "create", "id": i, "settings": z}] + apps + [{"s": "destroy", "id": i}]
    return [dict(x, starve=True) for x in steps] if s["fate"] == "starved" else steps


def content(r, d, s, i):
    if s["s3"]:
        objs = stream.s3_objects(r)
        pre = NAMES[i] + "/"
        return {k[len(pre):]: v for k, v in objs.items() if k.startswith(pre)}
    store = zarr.DirStore(path_of(d, s, i))
    return {k: store.get(k) for k in store.keys()}


def script(case, d, data, steps, faults=(), s3faults=()):
    return {"cmd": "script", "data": stream.write_data(d, data or b"x"), "prefix": d + "/", "nprocs": case["nprocs"], "log_level": case["level"], "timeout": 120.0,
            "s3": {"buckets": ["bucket"], "faults": list(s3faults)}, "faults": list(faults), "jitter": case["jitter"], "steps": steps + [{"s": "s3dump", "dir": os.path.join(d, "s3")}]}


def calls(r, i):
    return [(x["s"], x.get("ok"), x.get("rc"), x.get("bytes_out"), x.get("skipped")) for x in r["results"] if x.get("id") == i]


def fn(ctx, case):
    ss = case["streams"]
    datas = [stream.data_for(s["cfg"]) for s in ss]
    alone = []
    for i, s in enumerate(ss):
        if s["fate"] in ("faulty", "broken", "starved"):
            alone.append(None)
            continue
        d = ctx.fresh()
        r = ctx.run(script(dict(case, jitter={"seed": 1, "permille": 0, "max_us": 0}), d, datas[i], steps_of(s, i, d, 0)))
        c = calls(r, i)
        if not c or not c[0][1] or any(x[2] for x in c if x[0] == "append"):
            raise Violation("a healthy stream failed by itself: " + r["err"][-300:])
        if "[ERROR]" in r["err"]:
            raise Violation("an error was logged in a healthy run: " + r["err"][-300:])
        alone.append((c, content(r, d, s, i)))
    d = ctx.fresh()
    base, at, seqs, faults, s3faults = [], 0, [], [], []
    for i, s in enumerate(ss):
        seqs.append(steps_of(s, i, d, at))
        at += len(datas[i])
        if s["fate"] == "faulty":
            f = s["fault"]
            if s["s3"]:
                s3faults.append({"kind": f["kind"], "nth": f["nth"], "count": f["count"], "key": NAMES[i] + "/"})
            else:
                faults.append({"ops": f["ops"], "nth": f["nth"], "count": f["count"], "err": f["err"], "mode": 0, "path": path_of(d, s, i) + "/"})
    if case["mode"] == "threads":
        steps = [{"s": "par", "threads": seqs}]
    elif case["mode"] == "late":  # created by one thread, written and destroyed by several
        steps = [q[0] for q in seqs] + [{"s": "par", "threads": [q[1:] for q in seqs]}]
    else:
        steps, left, k = [], [list(q) for q in seqs], 0
        order = case["order"] or [0]
        while any(left):
            live = [q for q in left if q]
            q = live[order[k % len(order)] % len(live)]
            k += 1
            steps.append(q.pop(0))
    if case.get("starve"):
        steps = [dict(case["starve"], s="allocfaults", selective=True)] + steps + [{"s": "allochits"}]
    r = ctx.run(script(case, d, b"".join(datas), steps, faults, s3faults))
    lab = [case["mode"], "streams=%d" % len(ss)]
    nontriv = 0
    if case.get("starve"):
        hits = [x for x in r["results"] if x.get("s") == "allochits"][0]["hits"]
        lab.append("allocations failed" if hits else "no allocation failed")
        nontriv = 1 if hits else -9
    for i, s in enumerate(ss):
        lab.append(s["fate"])
        c = calls(r, i)
        if s["fate"] == "broken":
            if c[0][1]:
                raise Violation("stream %d: invalid settings were accepted" % i)
            continue
        if s["fate"] in ("faulty", "starved"):
            continue
        nontriv += s["cfg"]["nframes"] > 0
        if c != alone[i][0]:
            k = [j for j in range(len(c)) if j >= len(alone[i][0]) or c[j] != alone[i][0][j]]
            raise Violation("stream %d: call %s returned %s; alone %s: %s" % (i, k[:1], [c[j] for j in k[:1]], [alone[i][0][j] for j in k[:1]], r["err"][-200:]))
        got = content(r, d, s, i)
        if got != alone[i][1]:
            diff = sorted(x for x in set(got) | set(alone[i][1]) if got.get(x) != alone[i][1].get(x))
            raise Violation("stream %d: not the store it would have produced alone: %s" % (i, diff[:4]))
        if s["fate"] == "full":
            zarr.check_store(s["cfg"], zarr.MemStore(got), datas[i])
    x = stream.s3_dump(r)
    if x["protocol_errors"]:
        raise Violation("a request a server would refuse: %s" % x["protocol_errors"][:3])
    if len({s["s3"] for s in ss}) > 1:
        lab.append("files and S3 together")
    return {"nontrivial": nontriv > 1 or (nontriv and len(ss) > 1), "labels": lab}


fault = st.fixed_dictionaries({"ops": st.sampled_from([1, 2, 4, 7]), "nth": st.integers(0, 12), "count": st.sampled_from([1, 2, -1]), "err": st.sampled_from(ERRNOS),
                               "kind": st.sampled_from(["*", "put", "create_upload", "upload_part"])})


@st.composite
def cases(draw, modes, starve=False, heavy=False):
    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    twins = draw(st.integers(0, 3)) == 0
    out = []
    for i in range(n):
        if twins and i:
            cfg = dict(out[0]["cfg"])
            cfg["data"] = dict(cfg["data"], seed=cfg["data"]["seed"] ^ (i * 77))
        elif heavy and (i == 0 or draw(st.booleans())):
            cfg = draw(gen.heavy_case(draw(st.sampled_from(["frames", "any"]))))
        else:
            cfg = draw(gen.stream_case(cap=12, max_px=64, max_chunks=8, max_inner=3, compression=gen.compressions, small=True, partitions=draw(st.sampled_from(["frames", "frames", "any"]))))
        if starve and not (twins and i):
            for x in cfg["dims"][-2:]:
                k = draw(st.integers(16, 40))
                x["chunk"] = x["chunk"] * k // x["array"] + 1
                x["array"] = k
            cfg["appends"] = None
        fate = draw(st.sampled_from(["full"] * 5 + ["cut", "faulty", "broken"])) if i else "full"
        out.append({"cfg": cfg, "s3": draw(st.sampled_from([False, False, True])), "fate": fate, "cut": draw(st.sampled_from([0, 0.3, 0.6, 0.9])),
                    "fault": draw(fault) if fate == "faulty" else None})
    extra = {}
    if starve:
        k = draw(st.integers(0, n - 1))
        out[k].update(fate="starved", fault=None)
        extra = {"starve": {"min": draw(st.sampled_from([1024, 1024, 4096])), "nth": draw(st.one_of(st.integers(0, 6), st.integers(0, 80))), "count": draw(st.sampled_from([1, 2, -1]))}}
    return {**extra, "streams": out, "mode": draw(st.sampled_from(modes)), "order": draw(st.lists(st.integers(0, 3), max_size=30)), "nprocs": draw(st.sampled_from([1, 2, 4])),
            "level": draw(st.sampled_from([1, 3])), "jitter": draw(jitter)}


CHECK = {
    "id": "C22",
    "level": "exploration",
    "rule": "two to four random streams (both versions, files and S3, twins of one geometry, streams cut short, failing by injected faults or refused allocations, or refused) in one process, interleaved call by "
            "call from one thread, or each driven by a thread of its own; non-trivial: at least two streams, one of them with frames. Oracle: the calls' results and the "
            "store of the same stream run alone, byte for byte; the whole-store oracle; ThreadSanitizer (last sub-check).",
    "assumptions": ["every stream has a store of its own"],
    "technique": "metamorphic (alone versus together) property-based testing with schedule perturbation and ThreadSanitizer",
    "concurrent": True,
    "subs": [Sub("interleaved", cases(["one thread"]), fn, 500, 8000, "stream:asan"),
             Sub("threads", cases(["threads", "late"]), fn, 500, 8000, "stream:asan"),
             Sub("heavy", cases(["one thread", "threads", "late"], heavy=True), fn, 80, 1200, "stream:asan"),
             Sub("starved", cases(["one thread"], True), fn, 400, 6000, "stream:plain"),
             Sub("races", cases(["threads", "late"]), fn, 240, 4000, "stream:tsan"),
             Sub("races_heavy", cases(["threads", "late"], heavy=True), fn, 48, 700, "stream:tsan")],
}
