from .. import gen, zarr, stream
from ..core import Sub, Violation
from . import huge
from hypothesis import strategies as st


def fn(ctx, case):
    a, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)
    ak = {k: a.get(k) for k in a.keys()}
    fb = stream.frame_bytes(case)
    whole = dict(case, appends=None if case["nframes"] < 2000 else [fb] * 10 + [fb * (case["nframes"] - 10)], mis=0)
    b, r2, _ = stream.run_simple(ctx, whole)
    stream.require_success(whole, r2)
    bk = {k: b.get(k) for k in b.keys()}
    if set(ak) != set(bk):
        raise Violation("the partition changes the files stored: %s" % sorted(set(ak) ^ set(bk))[:5])
    for k in sorted(ak):
        if ak[k] != bk[k]:
            raise Violation("the partition changes the content of %s" % k)
    zarr.check_store(case, zarr.MemStore(ak), data, nframes=case["nframes"])
    straddle = any(s % fb for s in case["appends"])
    return {"nontrivial": straddle and case["nframes"] > 0, "labels": stream.labels(case)}


@st.composite
def cases(draw, **kw):
    c = draw(gen.stream_case(partitions="any", **kw))
    c["mis"] = draw(st.sampled_from([0, 0, 1, 3]))
    return c


@st.composite
def heavy_cases(draw):
    c = draw(gen.heavy_case("any"))
    if c["kind"] == "long":
        fb, n = stream.frame_bytes(c), c["nframes"]
        left, cuts = fb * n + draw(st.integers(0, fb - 1)), []
        while left > 0 and len(cuts) < 40:
            cuts.append(min(left, draw(st.one_of(st.integers(1, max(1, fb * n // 8)), st.sampled_from([1, fb, 100 * fb + 1, 4096, 65536, 65535])))))
            left -= cuts[-1]
        c["appends"] = cuts + ([left] if left else [])
    c["mis"] = draw(st.sampled_from([0, 0, 1, 3]))
    return c


CHECK = {
    "id": "C04",
    "level": "exploration",
    "rule": "random cuts of the byte sequence (empty, single bytes, frame size +-1, several frames, everything, trailing incomplete frame; caller's buffer at odd "
            "addresses in exact-size heap blocks) over random configurations with and without multiscale; non-trivial: at least one frame and a cut inside a frame. "
            "Oracle: the store of the same bytes appended frame by frame, byte for byte, and the independent reader. huge_call, huge_frame: one call or one frame of "
            "more than 4 GiB, every chunk file compared with what was appended.",
    "assumptions": [],
    "subs": [
        Sub("partition", cases(cap=30, compression=st.one_of(st.none(), st.none(), gen.compressions)), fn, 1600, 20000, "stream:asan"),
        Sub("heavy", heavy_cases(), fn, 240, 3200, "stream:asan"),
        Sub("huge_call", huge.append_case("call"), huge.append_fn, 1, 4, "stream:asan"),
        Sub("huge_frame", huge.append_case("frame"), huge.append_fn, 1, 4, "stream:asan"),
    ],
}
