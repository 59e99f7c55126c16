import os
from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Sub, Violation


def run(ctx, case):
    d = ctx.fresh()
    data = stream.data_for(case)
    path = os.path.join(d, stream.STORE)
    script = stream.base_script(case, d, data)
    steps = [{"s": "create", "id": 0, "settings": stream.settings(case, path)}]
    nlev = len(zarr.plan_levels(case))
    off = 0
    for i, n in enumerate(stream.append_list(case)):
        steps.append({"s": "append", "id": 0, "off": off, "len": n})
        off += n
        if case["snaps"] and i % case["snaps"] == 0:
            for k in range(nlev):
                steps.append({"s": "snap", "n": off, "file": os.path.join(path, zarr.meta_key(case, k))})
    steps.append({"s": "destroy", "id": 0})
    script["steps"] = steps
    r = ctx.run(script)
    return zarr.DirStore(path), r, data, path


def fn(ctx, case):
    store, r, data, path = run(ctx, case)
    stream.require_success(case, r)
    plan = zarr.plan_levels(case)
    fb = stream.frame_bytes(case)
    mid = 0
    for x in r["results"]:
        if x.get("s") != "snap":
            continue
        key = os.path.relpath(x["file"], path)
        k = [zarr.meta_key(case, i) for i in range(len(plan))].index(key)
        dims = plan[k]
        n = zarr.frames_at_level(x["n"] // fb, k)
        row = dims[0]["chunk"] * zarr.inner_frames(dims) * (dims[0]["shard"] if case["version"] == 3 else 1)
        done = n // row * row
        raw = None if x["data"] is None else bytes.fromhex(x["data"])
        if not raw:
            if done:
                raise Violation("%s is %s after %d frames, a row is %d frames" % (key, "missing" if raw is None else "empty", n, row))
            continue
        meta = zarr.strict_json(raw, key + " after %d frames" % n)
        size = meta.get("shape", [None])[0]
        lo, hi = zarr.append_size(dims, done), zarr.append_size(dims, n)
        if not isinstance(size, int) or not lo <= size <= hi:
            raise Violation("%s says %r append-dimension slices after %d frames, expected %d..%d" % (key, size, n, lo, hi))
        # everything else must already be right
        meta["shape"][0] = hi
        (zarr.check_v2_meta if case["version"] == 2 else zarr.check_v3_meta)(case, dims, n, meta, key)
        mid += 1
    for k, dims in enumerate(plan):
        zarr.check_array_meta(case, store, k, dims, zarr.frames_at_level(case["nframes"], k))
    keys = {f for f in store.keys() if f.endswith((".zarray", ".array.json"))}
    want = {zarr.meta_key(case, k) for k in range(len(plan))}
    if keys != want:
        raise Violation("array metadata documents are %s, expected %s" % (sorted(keys), sorted(want)))
    lab = stream.labels(case)
    if mid:
        lab.append("checked while streaming")
    return {"nontrivial": case["nframes"] > 0, "labels": lab}


@st.composite
def cases(draw):
    c = draw(gen.stream_case(compression=gen.compressions_all, names=True, cap=60, max_px=200, max_chunks=12))
    c["snaps"] = draw(st.sampled_from([0, 1, 1, 2, 3]))
    return c


def big(cases):
    return st.tuples(cases, st.sampled_from([0, 0, 1])).map(lambda x: dict(x[0], snaps=x[1]))


CHECK = {
    "id": "C05",
    "level": "exploration",
    "rule": "random settings (all data types, compressors, versions, levels, frame counts from 0 over every boundary); the metadata files are read back after the "
            "appends too, not only at the end. Non-trivial: at least one frame. Oracle: strict JSON and a model of every field.",
    "assumptions": [],
    "subs": [Sub("metadata", cases(), fn, 3200, 40000, "stream:asan"),
             Sub("long", big(gen.long_case(compression=gen.compressions_all)), fn, 320, 4000, "stream:asan"),
             Sub("wide", big(gen.wide_case(compression=gen.compressions_all)), fn, 320, 4000, "stream:asan"),
             Sub("dense", big(gen.dense_case(compression=gen.compressions_all)), fn, 160, 2000, "stream:asan")],
}
