import os
from math import lcm

from hypothesis import strategies as st

from .. import gen, stream, zarr
from ..core import Sub, Violation

SLACK = 1024  # bytes: longer numbers in texts, buffers of the thread pool


def period(case):
    """frames after which all levels are in the same state again"""
    p = 1
    for k, dims in enumerate(zarr.plan_levels(case) if case["multiscale"] else [case["dims"]]):
        row = gen.fpr_of(dims) * (dims[0]["shard"] if case["version"] == 3 else 1)
        p = lcm(p, row << k)
    return p


def fn(ctx, case):
    d = ctx.fresh()
    p = period(case)
    fb = stream.frame_bytes(case)
    reps = max(1, -(-case["least"] // p))
    P = p * reps
    step = case["step"]
    while P % step:
        step -= 1
    if P // step > 150:
        step = max(s for s in range(1, P + 1) if P % s == 0 and P // s >= 10) if P >= 10 else 1
        while P // step > 150:
            step = min(s for s in range(step + 1, P + 1) if P % s == 0)
    data = zarr.make_data(dict(case, nframes=P), 0)
    path = "st" if case["s3"] else os.path.join(d, "st")
    script = stream.base_script(case, d, data)
    reset = [{"s": "s3reset"}] if case["s3"] else []
    if case["s3"]:
        script["s3"] = {"buckets": ["bucket"], "log": False}
    body = []
    for i in range(0, P, step):
        body += [{"s": "append", "id": 0, "off": i * fb, "len": step * fb}] + reset + [{"s": "probe", "now": True}]
    script["steps"] = [{"s": "create", "id": 0, "settings": stream.settings(case, path, case["s3"])}] + reset + [{"s": "probe", "now": True}, {"s": "repeat", "n": 3, "steps": body}, {"s": "destroy", "id": 0}]
    script["timeout"] = 120.0
    r = ctx.run(script)
    for x in r["results"]:
        if x.get("s") == "create" and not x["ok"] or x.get("s") == "append" and (x["rc"] or x["bytes_out"] != step * fb):
            raise Violation("a healthy stream failed: " + r["err"][-300:])
    pr = [x for x in r["results"] if x.get("s") == "probes"][0]["list"][1:]
    n = P // step
    if len(pr) != 3 * n:
        raise Violation("%d probes instead of %d" % (len(pr), 3 * n))
    mid, last = pr[n:2 * n], pr[2 * n:]
    for k, what in (("alloc", "allocated bytes"), ("fds", "open descriptors"), ("threads", "threads"), ("clients", "S3 connections")):
        a, b = max(x[k] for x in mid), max(x[k] for x in last)
        if b > a + (SLACK if k == "alloc" else 0):
            raise Violation("%s grow with the frames streamed: at most %d after %d frames, %d after %d more; at each append: %s" % (what, a, 2 * P, b, P, [x[k] for x in pr][:60]))
    grow = max(x["alloc"] for x in last) - max(x["alloc"] for x in mid)
    lab = stream.labels(dict(case, nframes=3 * P)) + ["s3" if case["s3"] else "files", "growth=%d" % grow if grow < 5 else "growth>=5", "probes>=60" if len(pr) >= 60 else "probes<60"]
    return {"nontrivial": reps * p > 1, "labels": lab}


@st.composite
def cases(draw):
    c = draw(gen.stream_case(cap=12, max_px=100, max_chunks=12, max_inner=4, small=True, compression=gen.compressions))
    c["appends"] = None
    c["s3"] = draw(st.sampled_from([False, False, True]))
    if c["multiscale"] and period(c) > 500:
        c["multiscale"] = False
    c["least"] = draw(st.sampled_from([20, 60, 60, 200]))
    c["step"] = draw(st.sampled_from([1, 2, 3, 7, 20]))
    return c


@st.composite
def heavy_cases(draw):
    c = draw(gen.solid_case(compression=gen.compressions, most=400000, multiscale=draw(st.sampled_from([False, False, True]))))
    c["appends"] = None
    c["s3"] = draw(st.sampled_from([False, False, True]))
    c["least"] = draw(st.sampled_from([2, 4, 6]))
    c["step"] = draw(st.sampled_from([1, 1, 2]))
    return c


CHECK = {
    "id": "C29",
    "level": "exploration",
    "rule": "random streams (both versions, files and S3, compressed or not, with lower resolutions) of three equal periods, after each of which every level is in the same state; appends of one to twenty frames, memory, descriptors, "
            "threads and connections read off after each; non-trivial: more than one frame per period. Oracle: no more of any in the third period than in the second (memory: %d bytes more)." % SLACK,
    "assumptions": ["what the fake S3 server stores is dropped before each reading"],
    "technique": "metamorphic property-based testing with resource accounting",
    "subs": [Sub("bounded", cases(), fn, 1600, 20000, "stream:asan"),
             Sub("heavy", heavy_cases(), fn, 120, 1600, "stream:asan")],
}
