from .. import gen, zarr, stream
from ..core import Sub
from . import huge


def fn(ctx, case):
    store, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)
    zarr.check_store(case, store, data, levels=False)
    return {"nontrivial": stream.nontrivial(case), "labels": stream.labels(case)}


CHECK = {
    "id": "C01",
    "level": "exploration",
    "rule": "random geometry (3-6 dims, ragged/oversized chunks), data type, compressor, frame count (0 to 70000, and beyond 2^16 chunk rows), chunks/shards beyond 4 GiB around chunk boundaries and sizes to 70000 pixels and thousands of chunks, pixel pattern (any bits); "
            "non-trivial: at least one frame and more than one chunk. Oracle: independent numpy Zarr v2 reader vs. the streamed frames.",
    "assumptions": ["libblosc decodes correctly", "the part of the code that needs minio-cpp is compiled against a stand-in header"],
    "subs": [
        Sub("roundtrip", gen.stream_case(version=2, multiscale=False, compression=gen.compressions), fn, 3000, 40000, "stream:asan"),
        Sub("long", gen.long_case(version=2, multiscale=False), fn, 320, 4000, "stream:asan"),
        Sub("solid", gen.solid_case(version=2, multiscale=False), fn, 160, 2400, "stream:asan"),
        Sub("wide", gen.wide_case(version=2, multiscale=False), fn, 480, 6000, "stream:asan"),
        Sub("dense", gen.dense_case(version=2), fn, 120, 1600, "stream:asan"),
        Sub("many_rows", gen.many_rows_case(2), fn, 1, 12, "stream:asan"),
        Sub("huge", huge.huge_case(2), huge.fn, 1, 4, "stream:asan"),
    ],
}
