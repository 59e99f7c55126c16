from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Sub, Violation
from . import huge


def fn(ctx, case):
    store, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)
    zarr.check_store(case, store, data)
    lab = stream.labels(case)
    plan = zarr.plan_levels(case)
    deep = 0
    for k, dims in enumerate(plan):
        if zarr.frames_at_level(case["nframes"], k) == 0:
            break
        deep = k
    lab.append("deepest level with data=%d" % min(deep, 5))
    if any(d["array"] % 2 and d["array"] > 1 for p in plan[:deep] for d in p[-2:]):
        lab.append("odd width or height")
    if case["nframes"] % (2 ** (len(plan) - 1)):
        lab.append("unpaired frame left")
    if not set(store.keys()) >= {zarr.meta_key(case, k) for k in range(len(plan))}:
        raise Violation("a level has no metadata")
    return {"nontrivial": deep >= 1, "labels": lab}


CHECK = {
    "id": "C07",
    "level": "exploration",
    "rule": "random multiscale streams: every data type, full-range and extreme pixel values, odd sizes, channel dimensions, 0-40 frames (unpaired ones at every level), "
            "whole-frame and cut appends; non-trivial: level 1 received at least one frame. Oracle: each stored level against exact interval arithmetic on the level "
            "stored below it (2x2 spatial mean of each of two frames, then their mean, each rounded to the data type either way).",
    "assumptions": ["floating-point levels are compared with a tolerance of 8 ulp of the largest magnitude in the block"],
    "subs": [
        Sub("random", gen.stream_case(multiscale=True, cap=60, max_px=600, max_chunks=20), fn, 1600, 20000, "stream:asan"),
        Sub("deep", gen.deep_case(), fn, 1800, 24000, "stream:asan"),
        Sub("long", gen.long_case(multiscale=True), fn, 240, 3000, "stream:asan"),
        Sub("solid", gen.solid_case(multiscale=True), fn, 120, 1600, "stream:asan"),
        Sub("wide", gen.wide_case(multiscale=True), fn, 400, 5000, "stream:asan"),
        Sub("huge_x", huge.side_case("x"), huge.side_fn, 1, 3, "stream:asan"),
        Sub("huge_y", huge.side_case("y"), huge.side_fn, 0, 1, "stream:asan"),
        Sub("dense", gen.dense_case(multiscale=True), fn, 160, 2000, "stream:asan"),
    ],
}
