"""Independent model of the stores: expected arrays, and a reader for Zarr v2 / v3 (draft with sharding transformer)."""
import ctypes, itertools, json, os, struct
from math import prod

import numpy as np

from .core import Violation
from .gen import DTYPES, ceil_div

_blosc = ctypes.CDLL("libblosc.so.1")
_blosc.blosc_decompress_ctx.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_blosc.blosc_compress_ctx.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_void_p,
                                      ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]
_blosc.blosc_compress_ctx.restype = ctypes.c_int
CODEC = {1: "lz4", 2: "zstd"}


def np_dtype(i):
    return np.dtype(DTYPES[i]).newbyteorder("<")


def effective_compression(case):
    c = case.get("compression")
    return c if c and c["compressor"] == 1 else None


# ---- pixel data ---------------------------------------------------------------------------------------------------
def make_data(case, extra=0):
    """bytes of all frames, followed by `extra` more bytes"""
    dt = np_dtype(case["dtype"])
    dims = case["dims"]
    npx = dims[-1]["array"] * dims[-2]["array"]
    n = case["nframes"] * npx
    spec = case["data"]
    rng = np.random.default_rng(spec["seed"])
    kind = spec["kind"]
    if n == 0:
        a = np.zeros(0, dt)
    elif kind == "zero":
        a = np.zeros(n, dt)
    elif kind == "const":
        a = np.full(n, 1 + spec["seed"] % 100, dt)
    elif kind == "unique":
        a = (np.arange(n, dtype=np.uint64) + 1 + spec["seed"] % 251).astype(dt)
    elif kind == "gradient":
        a = (np.arange(n, dtype=np.uint64) // max(1, npx // 4)).astype(dt)
    elif kind == "sparse":
        a = np.zeros(n, dt)
        idx = rng.integers(0, n, size=max(1, n // 20))
        a[idx] = 77
    elif kind == "extreme":
        if dt.kind == "f":
            m = np.finfo(dt).max
            pool = np.array([m, -m, 0, 1, -1, np.finfo(dt).tiny, m / 2, 0.1], dt)
        else:
            ii = np.iinfo(dt)
            pool = np.array([ii.max, ii.min, ii.max - 1, ii.min + 1, 0, 1, ii.max // 2 + 1, ii.max // 2], dt)
        a = pool[rng.integers(0, len(pool), size=n)]
    else:
        if dt.kind == "f" and kind == "bits" and not case["multiscale"]:
            a = np.frombuffer(rng.bytes(n * dt.itemsize), dt)  # NaNs and infinities too
        elif dt.kind == "f":
            a = (rng.standard_normal(n) * 1000).astype(dt)
        else:
            ii = np.iinfo(dt)
            a = rng.integers(ii.min, ii.max, size=n, dtype=dt.newbyteorder("="), endpoint=True).astype(dt)
    b = a.tobytes()
    return b + bytes((17 * i + 5) % 251 + 1 for i in range(extra))


def frames_of(case, data):
    dt = np_dtype(case["dtype"])
    h, w = case["dims"][-2]["array"], case["dims"][-1]["array"]
    fb = h * w * dt.itemsize
    n = len(data) // fb
    return np.frombuffer(data[:n * fb], dt).reshape(n, h, w)


# ---- geometry ----------------------------------------------------------------------------------------------------
def plan_levels(case):
    """dims of every resolution level"""
    levels = [[dict(d) for d in case["dims"]]]
    if not case["multiscale"]:
        return levels
    while True:
        cur = levels[-1]
        nxt = []
        for d in cur:
            if d["type"] == 1:
                nxt.append(dict(d))
                continue
            a = d["array"] // 2 + d["array"] % 2
            if d["array"] == 0:
                nxt.append(dict(d, shard=1))
            else:
                c = min(d["chunk"], a)
                nxt.append(dict(d, array=a, chunk=c, shard=min(d["shard"], ceil_div(a, c))))
        levels.append(nxt)
        if any(n["chunk"] < c["chunk"] for n, c in zip(nxt, cur)):
            break
        if all(n["array"] <= 1 or n["type"] == 1 for n in nxt):
            break
        if len(levels) > 40:
            raise RuntimeError("pyramid model diverges")
    return levels


def frames_at_level(n, k):
    for _ in range(k):
        n //= 2
    return n


def inner_frames(dims):
    return prod(d["array"] for d in dims[1:-2])


def append_size(dims, n):
    return ceil_div(n, inner_frames(dims))


def expected_array(dims, frames, dt):
    """array of the shape a reader should see, fill 0"""
    n = len(frames)
    shape = [append_size(dims, n)] + [d["array"] for d in dims[1:]]
    h, w = dims[-2]["array"], dims[-1]["array"]
    flat = np.zeros((prod(shape[:-2]), h, w), dt)
    flat[:n] = frames
    return flat.reshape(shape)


def chunk_rows(dims, n):
    fpr = dims[0]["chunk"] * inner_frames(dims)
    return ceil_div(n, fpr)


def n_chunks(dims):
    return [ceil_div(d["array"], d["chunk"]) for d in dims[1:]]


def n_shards(dims):
    return [ceil_div(ceil_div(d["array"], d["chunk"]), d["shard"]) for d in dims[1:]]


# ---- expected file set ---------------------------------------------------------------------------------------------
def expected_files(case, levels=None, nframes=None):
    """relative paths of every file of the finished store"""
    n0 = case["nframes"] if nframes is None else nframes
    levels = levels or plan_levels(case)
    files = set()
    if case["version"] == 2:
        files |= {".zattrs", ".zgroup", "0/.zattrs", "acquire.json"}
    else:
        files |= {"zarr.json", "meta/root.group.json", "meta/acquire.json"}
    for k, dims in enumerate(levels):
        n = frames_at_level(n0, k)
        rows = chunk_rows(dims, n)
        if case["version"] == 2:
            files.add("%d/.zarray" % k)
            parts = n_chunks(dims)
            prefix = "%d/%%d" % k
        else:
            files.add("meta/root/%d.array.json" % k)
            parts = n_shards(dims)
            rows = ceil_div(rows, dims[0]["shard"])
            prefix = "data/root/%d/c%%d" % k
        for r in range(rows):
            for idx in itertools.product(*[range(p) for p in parts]):
                files.add(prefix % r + "/" + "/".join(map(str, idx)))
    return files


# ---- access to a store ---------------------------------------------------------------------------------------------
class DirStore:
    def __init__(self, root):
        self.root = root

    def get(self, key):
        p = os.path.join(self.root, key)
        if not os.path.isfile(p):
            return None
        with open(p, "rb") as f:
            return f.read()

    def keys(self):
        out = set()
        for r, ds, fs in os.walk(self.root):
            for f in fs:
                out.add(os.path.relpath(os.path.join(r, f), self.root))
        return out


class MemStore:
    def __init__(self, d):
        self.d = d

    def get(self, key):
        return self.d.get(key)

    def keys(self):
        return set(self.d)


def strict_json(raw, what):
    if raw is None:
        raise Violation("%s is missing" % what)
    try:
        def bad(x):
            raise ValueError("not JSON: " + x)

        def pairs(p):
            d = dict(p)
            if len(d) != len(p):
                raise ValueError("duplicate key")
            return d
        return json.loads(raw.decode("utf-8"), parse_constant=bad, object_pairs_hook=pairs)
    except ValueError as e:
        raise Violation("%s is not valid JSON (%s): %r" % (what, e, raw[:200]))


# ---- metadata oracle -------------------------------------------------------------------------------------------------
def eq(a, b, what):
    if a != b or type(a) is not type(b):
        raise Violation("%s is %r, expected %r" % (what, a, b))


def check_v2_meta(case, dims, n, meta, what):
    eq(sorted(meta), sorted(["zarr_format", "shape", "chunks", "dtype", "fill_value", "order", "filters", "dimension_separator", "compressor"]), what + " keys")
    eq(meta["zarr_format"], 2, what + " zarr_format")
    eq(meta["shape"], [append_size(dims, n)] + [d["array"] for d in dims[1:]], what + " shape (%d frames)" % n)
    eq(meta["chunks"], [d["chunk"] for d in dims], what + " chunks")
    dt = np.dtype(DTYPES[case["dtype"]])
    eq(meta["dtype"], "<%s%d" % (dt.kind, dt.itemsize), what + " dtype")
    if isinstance(meta["fill_value"], bool) or meta["fill_value"] != 0:
        raise Violation(what + " fill_value %r" % meta["fill_value"])
    eq(meta["order"], "C", what + " order")
    eq(meta["filters"], None, what + " filters")
    eq(meta["dimension_separator"], "/", what + " dimension_separator")
    c = effective_compression(case)
    if c is None:
        eq(meta["compressor"], None, what + " compressor")
    else:
        m = meta["compressor"]
        if not isinstance(m, dict):
            raise Violation("%s compressor is %r" % (what, m))
        m = dict(m)
        m.pop("blocksize", None)
        eq(m, {"id": "blosc", "cname": CODEC[c["codec"]], "clevel": c["level"], "shuffle": c["shuffle"]}, what + " compressor")


def check_v3_meta(case, dims, n, meta, what):
    eq(meta.get("shape"), [append_size(dims, n)] + [d["array"] for d in dims[1:]], what + " shape (%d frames)" % n)
    eq(meta.get("chunk_grid"), {"chunk_shape": [d["chunk"] for d in dims], "separator": "/", "type": "regular"}, what + " chunk_grid")
    eq(meta.get("chunk_memory_layout"), "C", what + " chunk_memory_layout")
    eq(meta.get("data_type"), DTYPES[case["dtype"]], what + " data_type")
    eq(meta.get("extensions"), [], what + " extensions")
    eq(meta.get("attributes"), {}, what + " attributes")
    if isinstance(meta.get("fill_value"), bool) or meta.get("fill_value") != 0:
        raise Violation(what + " fill_value %r" % meta.get("fill_value"))
    st = meta.get("storage_transformers")
    eq(st, [{"type": "indexed", "extension": "https://purl.org/zarr/spec/storage_transformers/sharding/1.0",
             "configuration": {"chunks_per_shard": [d["shard"] for d in dims]}}], what + " storage_transformers")
    c = effective_compression(case)
    if c is None:
        if "compressor" in meta:
            eq(meta["compressor"], None, what + " compressor")
    else:
        m = meta.get("compressor")
        eq(m, {"codec": "https://purl.org/zarr/spec/codec/blosc/1.0",
               "configuration": {"blocksize": 0, "clevel": c["level"], "cname": CODEC[c["codec"]], "shuffle": c["shuffle"]}}, what + " compressor")


def meta_key(case, k):
    return "%d/.zarray" % k if case["version"] == 2 else "meta/root/%d.array.json" % k


def check_array_meta(case, store, k, dims, n):
    key = meta_key(case, k)
    meta = strict_json(store.get(key), key)
    (check_v2_meta if case["version"] == 2 else check_v3_meta)(case, dims, n, meta, key)
    return meta


# ---- chunk decoding ---------------------------------------------------------------------------------------------------
def decode_chunk(case, raw, nbytes, what):
    """one stored chunk -> raw bytes"""
    c = effective_compression(case)
    if c is None:
        if len(raw) != nbytes:
            raise Violation("%s has %d bytes, a chunk has %d" % (what, len(raw), nbytes))
        return raw
    if len(raw) < 16:
        raise Violation("%s: %d bytes are no Blosc frame" % (what, len(raw)))
    nb, bs, cb = struct.unpack("<III", raw[4:16])
    if cb != len(raw):
        raise Violation("%s: Blosc header says %d compressed bytes, stored are %d" % (what, cb, len(raw)))
    if nb != nbytes:
        raise Violation("%s: Blosc header says %d bytes, a chunk has %d" % (what, nb, nbytes))
    dest = ctypes.create_string_buffer(nbytes)
    r = _blosc.blosc_decompress_ctx(raw, dest, nbytes, 1)
    if r != nbytes:
        raise Violation("%s does not decompress (%d)" % (what, r))
    check_blosc_header(case, raw, dest.raw, what)
    return dest.raw


def blosc_reference(c, itemsize, data):
    out = ctypes.create_string_buffer(len(data) + 16)
    n = _blosc.blosc_compress_ctx(c["level"], c["shuffle"], itemsize, len(data), data, out, len(data) + 16, CODEC[c["codec"]].encode(), 0, 1)
    return out.raw[:n]


def check_blosc_header(case, raw, data, what):
    c = effective_compression(case)
    ts = np_dtype(case["dtype"]).itemsize
    ref = blosc_reference(c, ts, data)
    if raw[3] != ts:
        raise Violation("%s: Blosc type size %d, the data type has %d bytes" % (what, raw[3], ts))
    if raw[2] & 2 or ref[2] & 2:  # stored uncompressed: the codec bits carry no information
        return
    if (raw[2] >> 5) != (ref[2] >> 5):
        raise Violation("%s: Blosc codec bits %d, %s expected" % (what, raw[2] >> 5, CODEC[c["codec"]]))
    if (raw[2] & 5) != (ref[2] & 5):
        raise Violation("%s: Blosc shuffle flags %d, requested mode %d gives %d" % (what, raw[2] & 5, c["shuffle"], ref[2] & 5))


def place(out, dims, idx, chunk):
    """put a decoded chunk at chunk-grid position idx of the array, clipped to its bounds"""
    src, dst = [], []
    for i, d, size in zip(idx, dims, out.shape):
        lo = i * d["chunk"]
        n = min(d["chunk"], size - lo)
        if n <= 0:
            return
        dst.append(slice(lo, lo + n))
        src.append(slice(0, n))
    out[tuple(dst)] = chunk[tuple(src)]


def read_array(case, store, k, dims, shape):
    """decode a whole level; missing chunks read as 0"""
    dt = np_dtype(case["dtype"])
    out = np.zeros(shape, dt)
    cshape = [d["chunk"] for d in dims]
    nbytes = prod(cshape) * dt.itemsize
    grid = [ceil_div(s, c) for s, c in zip(shape, cshape)]
    if case["version"] == 2:
        for idx in itertools.product(*[range(g) for g in grid]):
            key = "%d/" % k + "/".join(map(str, idx))
            raw = store.get(key)
            if raw is None:
                continue
            chunk = np.frombuffer(decode_chunk(case, raw, nbytes, key), dt).reshape(cshape)
            place(out, dims, idx, chunk)
    else:
        sshape = [d["shard"] for d in dims]
        sgrid = [ceil_div(g, s) for g, s in zip(grid, sshape)]
        for sidx in itertools.product(*[range(g) for g in sgrid]):
            key = "data/root/%d/c" % k + "/".join(map(str, sidx))
            raw = store.get(key)
            if raw is None:
                continue
            for idx, chunk in read_shard(case, dims, key, raw, sidx, grid, nbytes):
                place(out, dims, idx, np.frombuffer(chunk, dt).reshape(cshape))
    return out


NOT = 2 ** 64 - 1


def read_shard(case, dims, key, raw, sidx, grid, nbytes):
    sshape = [d["shard"] for d in dims]
    per = prod(sshape)
    tab = 16 * per
    if len(raw) < tab:
        raise Violation("%s has %d bytes, its index alone needs %d" % (key, len(raw), tab))
    index = np.frombuffer(raw[len(raw) - tab:], "<u8").reshape(per, 2)
    body = len(raw) - tab
    spans = []
    for j in range(per):
        off, size = int(index[j, 0]), int(index[j, 1])
        within = np.unravel_index(j, sshape)
        idx = [s * m + int(w) for s, m, w in zip(sidx, sshape, within)]
        if off == NOT and size == NOT:
            continue
        if off == NOT or size == NOT:
            raise Violation("%s: half-empty index entry %d: (%d, %d)" % (key, j, off, size))
        if off + size > body:
            raise Violation("%s: index entry %d (%d+%d) exceeds the %d data bytes" % (key, j, off, size, body))
        if size == 0:
            raise Violation("%s: index entry %d has no bytes" % (key, j))
        # a chunk outside the grid (append dimension aside) can have no content
        if any(i >= g for i, g in zip(idx[1:], grid[1:])):
            raise Violation("%s: index entry %d is for chunk %s outside the array" % (key, j, idx))
        spans.append((off, size))
        yield idx, decode_chunk(case, raw[off:off + size], nbytes, "%s chunk %s" % (key, idx))
    spans.sort()
    pos = 0
    for off, size in spans:
        if off != pos:
            raise Violation("%s: chunk bytes %s at %d, previous chunk ended at %d" % (key, "overlap" if off < pos else "leave a gap", off, pos))
        pos = off + size
    if pos != body:
        raise Violation("%s: %d data bytes, the index covers %d" % (key, body, pos))


def assert_equal(got, want, what):
    a = got.view("u%d" % got.dtype.itemsize) if got.size else got
    b = want.view("u%d" % want.dtype.itemsize) if want.size else want
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.size and not np.array_equal(a, b):
        bad = np.argwhere(a != b)
        i = tuple(int(x) for x in bad[0])
        raise Violation("%s: %d of %d elements differ, first at %s: %r instead of %r" % (what, len(bad), got.size, i, got[i].item(), want[i].item()))


# ---- pyramid oracle ------------------------------------------------------------------------------------------------------
def pyramid_interval(prev, dt):
    """bounds of the next level's frames given the stored frames of a level (n, h, w)"""
    n = len(prev) // 2
    h, w = prev.shape[1:]
    if h % 2:
        prev = np.concatenate([prev, prev[:, -1:, :]], axis=1)
    if w % 2:
        prev = np.concatenate([prev, prev[:, :, -1:]], axis=2)
    prev = prev[:2 * n]
    hh, ww = prev.shape[1] // 2, prev.shape[2] // 2
    blocks = prev.reshape(n, 2, hh, 2, ww, 2)
    if dt.kind == "f":
        x = blocks.astype(np.longdouble)
        lo = x.mean(axis=(1, 3, 5))
        # error bound relative to the largest magnitude involved
        mag = np.abs(x).max(axis=(1, 3, 5))
        eps = np.longdouble(np.finfo(dt).eps) * 8 * mag + np.longdouble(np.finfo(dt).tiny)
        return lo - eps, lo + eps
    x = blocks.astype(object)
    s = x.sum(axis=(3, 5))  # n,2,hh,ww : sum of the 2x2 block
    lo4 = s // 4
    hi4 = -((-s) // 4)
    lo = (lo4[:, 0] + lo4[:, 1]) // 2
    hi = -((-(hi4[:, 0] + hi4[:, 1])) // 2)
    return lo, hi


def level_frames(arr, n):
    """frames of a level in stream order"""
    h, w = arr.shape[-2:]
    return arr.reshape(-1, h, w)[:n]


def check_pyramid(case, prev, cur, k):
    dt = np_dtype(case["dtype"])
    lo, hi = pyramid_interval(prev, dt)
    if len(cur) != len(lo):
        raise Violation("level %d has %d frames, level %d has %d" % (k, len(cur), k - 1, len(prev)))
    if dt.kind == "f":
        c = cur.astype(np.longdouble)
        bad = ~((c >= lo) & (c <= hi))
        bad &= ~(np.isnan(c) & np.isnan(lo))
    else:
        c = cur.astype(object)
        bad = (c < lo) | (c > hi)
        bad = np.asarray(bad, bool)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation("level %d: %d of %d pixels are not the local mean; frame %d pixel %s is %r, allowed [%s, %s]" % (
            k, int(bad.sum()), bad.size, i[0], i[1:], cur[i].item(), lo[i], hi[i]))


def check_store(case, store, data, nframes=None, levels=True, meta=True, pixels=True):
    """the whole-store oracle for a finished stream that received `data`"""
    frames = frames_of(case, data)
    if nframes is not None:
        frames = frames[:nframes]
    dt = np_dtype(case["dtype"])
    plan = plan_levels(case)
    prev = None
    for k, dims in enumerate(plan if levels else plan[:1]):
        n = frames_at_level(len(frames), k)
        if meta:
            check_array_meta(case, store, k, dims, n)
        if not pixels:
            continue
        shape = [append_size(dims, n)] + [d["array"] for d in dims[1:]]
        if k == 0:
            want = expected_array(dims, frames, dt)
            got = read_array(case, store, 0, dims, shape)
            assert_equal(got, want, "level 0")
        else:
            got = read_array(case, store, k, dims, shape)
            flat = got.reshape((-1,) + got.shape[-2:])
            if flat[n:].any():
                raise Violation("level %d: data beyond the last frame" % k)
            check_pyramid(case, prev, flat[:n], k)
        prev = got.reshape((-1,) + got.shape[-2:])[:n]


def check_shards_complete(case, store, nframes, k=0):
    """every chunk of the rows that were begun has an index entry, every other slot is empty"""
    dims = plan_levels(case)[k]
    grid = [chunk_rows(dims, nframes)] + n_chunks(dims)
    sshape = [d["shard"] for d in dims]
    per = prod(sshape)
    sgrid = [ceil_div(g, s) for g, s in zip(grid, sshape)]
    for sidx in itertools.product(*[range(g) for g in sgrid]):
        key = "data/root/%d/c" % k + "/".join(map(str, sidx))
        raw = store.get(key)
        if raw is None:
            raise Violation("shard %s is missing" % key)
        index = np.frombuffer(raw[len(raw) - 16 * per:], "<u8").reshape(per, 2)
        for j in range(per):
            idx = [s * m + int(w) for s, m, w in zip(sidx, sshape, np.unravel_index(j, sshape))]
            inside = all(i < g for i, g in zip(idx, grid))
            present = int(index[j, 0]) != NOT
            if inside != present:
                raise Violation("%s: slot %d (chunk %s) is %s in the index" % (key, j, idx, "present" if present else "missing"))
