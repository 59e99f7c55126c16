import itertools
from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Sub, Violation


def chunks_of(case, store, k, dims, n):
    """decompressed bytes of every stored chunk of a level"""
    from math import prod
    out = {}
    nbytes = prod(d["chunk"] for d in dims) * zarr.np_dtype(case["dtype"]).itemsize
    grid = [zarr.chunk_rows(dims, n)] + zarr.n_chunks(dims)
    if case["version"] == 2:
        for idx in itertools.product(*[range(g) for g in grid]):
            key = "%d/" % k + "/".join(map(str, idx))
            raw = store.get(key)
            if raw is not None:
                out[idx] = zarr.decode_chunk(case, raw, nbytes, key)
    else:
        sgrid = [zarr.ceil_div(g, d["shard"]) for g, d in zip(grid, dims)]
        for sidx in itertools.product(*[range(g) for g in sgrid]):
            key = "data/root/%d/c" % k + "/".join(map(str, sidx))
            raw = store.get(key)
            if raw is not None:
                for idx, chunk in zarr.read_shard(case, dims, key, raw, sidx, grid, nbytes):
                    out[tuple(idx)] = chunk
    return out


def fn(ctx, case):
    comp, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)
    ck = {k: comp.get(k) for k in comp.keys()}
    plain_case = dict(case, compression=None)
    plain, r2, _ = stream.run_simple(ctx, plain_case)
    stream.require_success(plain_case, r2)
    pk = {k: plain.get(k) for k in plain.keys()}
    if set(ck) != set(pk):
        raise Violation("compression changes the set of files: %s" % sorted(set(ck) ^ set(pk))[:5])
    comp = zarr.MemStore(ck)
    plain = zarr.MemStore(pk)
    metas = set()
    shrunk = 0
    for k, dims in enumerate(zarr.plan_levels(case)):
        n = zarr.frames_at_level(case["nframes"], k)
        key = zarr.meta_key(case, k)
        metas.add(key)
        mc = zarr.check_array_meta(case, comp, k, dims, n)
        mp = zarr.check_array_meta(plain_case, plain, k, dims, n)
        mc.pop("compressor", None)
        mp.pop("compressor", None)
        if mc != mp:
            raise Violation("%s differs in more than the compressor" % key)
        a, b = chunks_of(case, comp, k, dims, n), chunks_of(plain_case, plain, k, dims, n)
        if set(a) != set(b):
            raise Violation("level %d: compression changes the set of stored chunks: %s" % (k, sorted(set(a) ^ set(b))[:5]))
        for i in a:
            if a[i] != b[i]:
                raise Violation("level %d: chunk %s decompresses to other bytes than are stored uncompressed" % (k, i))
    data_prefix = ("data/",) if case["version"] == 3 else tuple("%d/" % k for k in range(len(zarr.plan_levels(case))))
    for key in ck:
        if key in metas:
            continue
        if key.startswith(data_prefix) and not key.endswith(".zattrs"):
            shrunk += len(ck[key]) < len(pk[key])
            if zarr.effective_compression(case) is None and ck[key] != pk[key]:
                raise Violation("%s differs although no compression was requested" % key)
            continue
        if ck[key] != pk[key]:
            raise Violation("%s depends on the compression settings" % key)
    lab = stream.labels(case)
    c = zarr.effective_compression(case)
    if c:
        lab += ["codec=%d" % c["codec"], "level=%d" % c["level"], "shuffle=%d" % c["shuffle"]]
    elif case["compression"]:
        lab.append("compressor=None given")
    if shrunk:
        lab.append("some file smaller than raw")
    return {"nontrivial": bool(c) and stream.nontrivial(case), "labels": lab}


comps = st.one_of(
    st.fixed_dictionaries({"compressor": st.just(1), "codec": st.sampled_from([1, 2]), "level": st.integers(0, 9), "shuffle": st.integers(0, 2)}),
    st.fixed_dictionaries({"compressor": st.just(1), "codec": st.sampled_from([1, 2]), "level": st.integers(0, 9), "shuffle": st.integers(0, 2)}),
    st.fixed_dictionaries({"compressor": st.just(1), "codec": st.sampled_from([1, 2]), "level": st.integers(0, 9), "shuffle": st.integers(0, 2)}),
    st.fixed_dictionaries({"compressor": st.just(0), "codec": st.sampled_from([0, 1, 2]), "level": st.integers(0, 9), "shuffle": st.integers(0, 2)}))

CHECK = {
    "id": "C03",
    "level": "exploration",
    "rule": "random codec (lz4, zstd, explicit none), level 0-9, shuffle mode 0-2, data type, version, geometry, and data patterns from incompressible to constant; "
            "non-trivial: compression on and more than one chunk. Oracle: differential against the same stream without compression (chunk bytes, file set, all other "
            "files), Blosc header (sizes, type size, codec, shuffle) of every chunk, and the recorded compressor.",
    "assumptions": ["libblosc's decoder is correct"],
    "subs": [
        Sub("differential", gen.stream_case(multiscale=None, compression=comps, cap=60), fn, 1600, 20000, "stream:asan"),
        Sub("differential_small", gen.stream_case(multiscale=False, compression=comps, cap=20, small=True), fn, 800, 8000, "stream:asan"),
        Sub("differential_solid", gen.solid_case(compression=comps), fn, 120, 1600, "stream:asan"),
        Sub("differential_wide", gen.wide_case(compression=comps), fn, 320, 4000, "stream:asan"),
    ],
}
