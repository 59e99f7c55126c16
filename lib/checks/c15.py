from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Sub, Violation


def fn(ctx, case):
    store, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)
    files = {k: store.get(k) for k in store.keys()}
    name = case["prefix"]
    d = ctx.fresh()
    script = stream.base_script(case, d, data)
    script["s3"] = {"buckets": ["bucket", "bucket2"]}
    steps = [{"s": "create", "id": 0, "settings": stream.settings(case, name, True)}] + stream.append_steps(case)
    script["steps"] = steps + [{"s": "destroy", "id": 0}, {"s": "s3dump", "dir": d + "/s3"}]
    r = ctx.run(script)
    stream.require_success(case, r)
    dump = stream.s3_dump(r)
    if dump["protocol_errors"]:
        raise Violation("a request a server would refuse: %s" % dump["protocol_errors"][:3])
    if dump["uploads"]:
        raise Violation("uploads left open: %s" % dump["uploads"][:3])
    if any(o["bucket"] != "bucket" for o in dump["objects"]):
        raise Violation("objects in another bucket")
    objs = stream.s3_objects(r)
    key = name.strip(" \t\n\v\f\r")
    want = {key + "/" + k: v for k, v in files.items() if v}
    if set(objs) != set(want):
        raise Violation("missing objects: %s, extra objects: %s" % (sorted(set(want) - set(objs))[:5], sorted(set(objs) - set(want))[:5]))
    for k in want:
        if objs[k] != want[k]:
            raise Violation("object %s has %d bytes, the file has %d, and they differ" % (k, len(objs[k]), len(want[k])))
    zarr.check_store(case, zarr.MemStore({k[len(key) + 1:]: v for k, v in objs.items()}), data)
    lab = stream.labels(case) + ["prefix=" + ("plain" if key == name else "padded")]
    multi = [o for o in dump["ops"] if o[0] == "complete_upload"]
    if multi:
        lab.append("multipart objects")
        if any(o[2] > 2 for o in multi):
            lab.append("three or more parts")
    return {"nontrivial": stream.nontrivial(case) or bool(multi), "labels": lab}


PREFIX = st.sampled_from(["store.zarr", "store.zarr", "a", "a/b/c", "größe", "with space", " padded ", "x.y", "0"])


@st.composite
def cases(draw):
    c = draw(gen.stream_case(cap=60, max_px=300, max_chunks=24, compression=gen.compressions_all, partitions=draw(st.sampled_from(["frames", "any"])), names=True,
                             custom=st.sampled_from([None, None, "", "{}", '{"a": [1, "ü"]}', "[]"])))
    c["prefix"] = draw(PREFIX)
    return c


@st.composite
def large(draw):
    """objects around and above one upload part (5 MiB)"""
    v = draw(st.sampled_from([2, 3, 3]))
    dt = draw(st.sampled_from([0, 1, 3]))
    bpp = [1, 2, 4, 8][dt]
    chunk_px = draw(st.sampled_from([1 << 19, 1 << 20, 5 << 20, (5 << 20) + bpp * 64, 6 << 20, 11 << 20] if v == 2 else [1 << 18, 1 << 19, 5 << 18, 5 << 20])) // bpp
    w = 64
    ch = draw(st.sampled_from([1, 1, 2]))
    h = max(1, chunk_px // w // ch)
    nchunks = draw(st.integers(1, 3 if chunk_px * bpp <= 2 << 20 else 2 if chunk_px * bpp <= 6 << 20 else 1))
    a1 = h * nchunks - (draw(st.integers(0, h - 1)) if draw(st.booleans()) else 0)
    dims = [{"name": "t", "type": 2, "array": 0, "chunk": ch, "shard": draw(st.integers(1, 4)) if v == 3 else 1},
            {"name": "y", "type": 0, "array": max(1, a1), "chunk": h, "shard": draw(st.integers(1, nchunks))},
            {"name": "x", "type": 0, "array": w, "chunk": w, "shard": 1}]
    fb = bpp * w * dims[1]["array"]
    rows = dims[0]["shard"] * ch
    n = min(draw(st.integers(1, rows + ch)), max(1, (14 << 20) // fb))
    c = {"version": v, "dtype": dt, "dims": dims, "multiscale": False, "nframes": n, "nprocs": draw(st.sampled_from([1, 4])), "log_level": 3,
         "compression": draw(st.sampled_from([None, None, None, {"compressor": 1, "codec": 1, "level": 1, "shuffle": 1}])),
         "data": {"kind": "random", "seed": draw(st.integers(0, 1000))}, "appends": None, "prefix": "store"}
    return c


def documents(ctx, case):
    """user metadata around and above one upload part"""
    n, form = case["custom_bytes"], case["form"]
    text = '{"k": "%s"}' % ("abcdefghij" * (n // 10 + 1))[:n] if form == "string" else "[%s]" % ",".join("%d" % i for i in range(n // 17))
    r = fn(ctx, dict(case, custom=text))
    return dict(r, labels=r["labels"] + ["metadata=" + form], nontrivial=True)


@st.composite
def document_cases(draw):
    c = draw(gen.stream_case(cap=6, max_px=40, max_chunks=6, max_inner=3, small=True))
    mib5 = 5 << 20
    c["custom_bytes"] = draw(st.one_of(st.integers(mib5 - 24, mib5 + 4), st.sampled_from([mib5 + 100000, 2 * mib5 + 4097, 2 * mib5 - 18])))
    c["form"] = draw(st.sampled_from(["string", "string", "numbers"]))
    c["prefix"] = "store"
    return c


CHECK = {
    "id": "C15",
    "level": "exploration",
    "rule": "random streams (all versions, compressors, levels, odd key prefixes; data objects and documents below and above one upload part) to a directory and to S3; non-trivial: several "
            "chunks or a multipart object. Oracle: the two stores are the same, byte for byte; the S3 one passes the whole-store oracle; nothing is left incomplete.",
    "assumptions": ["minio-cpp is replaced by an in-memory S3 server with the same interface"],
    "technique": "differential property-based testing",
    "subs": [Sub("same", cases(), fn, 2000, 26000, "stream:asan"),
             Sub("long", st.tuples(gen.long_case(rows_cap=150), PREFIX).map(lambda x: dict(x[0], prefix=x[1])), fn, 120, 1600, "stream:asan"),
             Sub("solid", st.tuples(gen.solid_case(), PREFIX).map(lambda x: dict(x[0], prefix=x[1])), fn, 80, 1200, "stream:asan"),
             Sub("wide", st.tuples(gen.wide_case(), PREFIX).map(lambda x: dict(x[0], prefix=x[1])), fn, 160, 2000, "stream:asan"),
             Sub("documents", document_cases(), documents, 24, 300, "stream:asan"),
             Sub("large", large(), fn, 240, 3000, "stream:asan")],
}
