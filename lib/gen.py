"""Hypothesis strategies for stream configurations, frame counts, pixel data and append partitions."""
from hypothesis import strategies as st
from math import prod

DTYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"]
TYPES = {"space": 0, "channel": 1, "time": 2, "other": 3}


def ceil_div(a, b):
    return -(-a // b)


NAMES = ["t", "c", "z", "y", "x", "dim a", "größe", "\"q\"", "µm/px", "a\\b", "日本", "n\tt", "{}", "0"]


@st.composite
def geometry(draw, version=None, max_chunks=40, max_px=1600, ndims=None, small=False, max_inner=12, names=False, multiscale=False):
    """list of dimensions, slowest first; sizes bounded so that one chunk row stays small"""
    version = version or draw(st.sampled_from([2, 3]))
    nd = ndims or draw(st.sampled_from([3] * 8 + [4] * 6 + [5] * 4 + [6] * 2 + [7, 9]))
    dims = []
    budget = max_chunks
    extra = 9 if nd < 7 else 1  # dimensions with chunks larger than need be
    # x and y
    hi = 8 if small or nd >= 7 else draw(st.sampled_from([4, 8, 16, 33, 40]))
    w = draw(st.integers(1, hi))
    h = draw(st.integers(1, min(hi, max(1, max_px // w))))
    inner_budget = max_inner
    sizes = [0]
    for i in range(nd - 3):
        a = draw(st.integers(1, max(1, min(5, inner_budget))))
        inner_budget = max(1, inner_budget // a)
        sizes.append(a)
    sizes += [h, w]
    for i, a in enumerate(sizes):
        if i == 0:
            chunk = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5]))
            shard = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
            array = draw(st.sampled_from([0, 0, 0, 0, 1, 7]))
        else:
            lo = ceil_div(a, max(1, min(a, budget)))
            chunk = draw(st.one_of(st.integers(lo, max(lo, a)), st.integers(lo, a + 3))) if extra else draw(st.integers(lo, max(lo, a)))
            extra -= chunk > a
            n = ceil_div(a, chunk)
            budget = max(1, budget // n)
            shard = draw(st.one_of(st.integers(1, n), st.integers(1, n + 2)))
            array = a
        if i == 0:
            ty = draw(st.sampled_from([2, 2, 0, 3, 1]))
        elif i >= nd - 2:
            ty = 0
        else:
            ty = draw(st.sampled_from([0, 0, 1, 2, 3] if not multiscale else [0, 0, 0, 1, 2]))
        if names:
            name = draw(st.one_of(st.sampled_from(NAMES), st.text(st.characters(exclude_characters="\0", exclude_categories=["Cs"]), min_size=1, max_size=6)))
            if not name.strip(" \t\n\v\f\r"):
                name = "n" + name
        else:
            name = "tczyx"[-1 - (nd - 1 - i)] if nd <= 5 else "d%d" % i
        dims.append({"name": name, "type": ty, "array": array, "chunk": chunk, "shard": shard if version == 3 else draw(st.sampled_from([0, 1, shard]))})
    return dims


def fpr_of(dims):
    """frames per chunk row"""
    return dims[0]["chunk"] * prod(d["array"] for d in dims[1:-2])


@st.composite
def frame_count(draw, dims, version, cap=120):
    fpr = fpr_of(dims)
    row = fpr * (dims[0]["shard"] if version == 3 else 1)
    slice_ = fpr // dims[0]["chunk"]
    cands = [0, 1, fpr - 1, fpr, fpr + 1, 2 * fpr, row - 1, row, row + 1, 2 * row, 2 * row + fpr, 3 * row + 1, slice_, slice_ + 1, row + slice_, row + fpr]
    cands = sorted({c for c in cands if 0 <= c <= cap})
    return draw(st.one_of(st.sampled_from(cands), st.integers(0, min(cap, 2 * row + 2))))


fractions = st.one_of(st.integers(0, 997), st.integers(0, 997), st.sampled_from([0, 997])).map(lambda i: i / 997)  # floats(0, 1) are mostly next to 0
compressions = st.one_of(
    st.none(), st.none(),
    st.fixed_dictionaries({"compressor": st.just(1), "codec": st.sampled_from([1, 2]), "level": st.integers(0, 9), "shuffle": st.integers(0, 2)}),
    st.fixed_dictionaries({"compressor": st.just(1), "codec": st.sampled_from([1, 2]), "level": st.just(1), "shuffle": st.just(1)}),
)
compressions_all = st.one_of(
    compressions,
    st.fixed_dictionaries({"compressor": st.just(0), "codec": st.sampled_from([0, 0, 1, 2]), "level": st.integers(0, 9), "shuffle": st.integers(0, 2)}),
)

data_specs = st.fixed_dictionaries({
    "kind": st.sampled_from(["random", "random", "random", "bits", "unique", "unique", "extreme", "sparse", "const", "zero", "gradient"]),
    "seed": st.integers(0, 2 ** 32 - 1)})


@st.composite
def partition(draw, frame_bytes, nframes, trailing=True):
    """append sizes covering nframes frames (plus possibly an incomplete trailing frame)"""
    total = frame_bytes * nframes
    if trailing and draw(st.booleans()):
        total += draw(st.integers(0, frame_bytes - 1)) if frame_bytes > 1 else 0
    cuts = []
    left = total
    while left > 0 and len(cuts) < 60:
        k = draw(st.one_of(
            st.integers(0, min(left, 2 * frame_bytes + 3)),
            st.just(min(left, frame_bytes)),
            st.just(min(left, 1)),
            st.integers(0, left),
            st.just(min(left, max(frame_bytes - 1, 0))),
            st.just(min(left, frame_bytes + 1))))
        cuts.append(k)
        left -= k
    if left:
        cuts.append(left)
    return cuts


@st.composite
def stream_case(draw, version=None, compression=compressions, multiscale=None, partitions="frames", names=False, cap=120, small=False,
                max_chunks=40, max_px=1600, ndims=None, dtypes=None, log_levels=(1, 3), s3=False, custom=None, max_inner=12):
    v = version or draw(st.sampled_from([2, 3]))
    ms = draw(st.booleans()) if multiscale is None else multiscale
    dims = draw(geometry(version=v, max_chunks=max_chunks, max_px=max_px, ndims=ndims, small=small, names=names, max_inner=max_inner, multiscale=ms))
    dt = draw(st.sampled_from(dtypes or range(10)))
    n = draw(frame_count(dims, v, cap))
    bpp = [1, 2, 4, 8, 1, 2, 4, 8, 4, 8][dt]
    fb = bpp * dims[-1]["array"] * dims[-2]["array"]
    c = {"version": v, "dtype": dt, "dims": dims, "compression": draw(compression), "multiscale": ms, "nframes": n,
         "data": draw(data_specs), "nprocs": draw(st.sampled_from([1, 2, 3, 8])), "log_level": draw(st.sampled_from(log_levels))}
    if partitions == "frames":
        # whole frames, one or several per call
        k = draw(st.sampled_from([1, 1, 1, 2, 3, 5, 1000]))
        c["appends"] = None if k == 1 else [fb * min(k, n - i) for i in range(0, n, k)]
    else:
        c["appends"] = draw(partition(fb, n))
    if custom is not None:
        c["custom"] = draw(custom)
    return c


EDGES = [255, 256, 257, 300, 511, 513, 1000, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70001]


def _finish(draw, c, compression, log_levels=(1, 3)):
    c.update(compression=draw(compression), data=draw(data_specs), nprocs=draw(st.sampled_from([1, 2, 3, 8])), log_level=draw(st.sampled_from(log_levels)))
    return c


def _bytes(c):
    return [1, 2, 4, 8, 1, 2, 4, 8, 4, 8][c["dtype"]]


@st.composite
def long_case(draw, version=None, compression=compressions, multiscale=None, rows_cap=300):
    """hundreds to tens of thousands of tiny frames: frame, chunk and row counters beyond 8 and 16 bits"""
    v = version or draw(st.sampled_from([2, 3]))
    ms = draw(st.booleans()) if multiscale is None else multiscale
    nd = draw(st.sampled_from([3, 3, 4, 5]))
    w, h = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    want = draw(st.sampled_from(EDGES))
    inner = [draw(st.sampled_from([1, 2, 3, 17, 260])) if nd == 4 else draw(st.integers(1, 4)) for _ in range(nd - 3)]
    sizes = [0] + inner + [h, w]
    dims = []
    per_row = 1
    for i, a in enumerate(sizes):
        if i == 0:
            dims.append(None)
            continue
        chunk = draw(st.integers(max(1, ceil_div(a, 6)), a + 1))
        n = ceil_div(a, chunk)
        per_row *= n
        dims.append({"name": "d%d" % i, "type": 0, "array": a, "chunk": chunk, "shard": draw(st.integers(1, n + 1)) if v == 3 else 1})
    slice_ = prod(inner)
    rows = max(1, rows_cap // per_row)
    lo = max(1, ceil_div(want, slice_ * rows))
    chunk = draw(st.sampled_from([lo, lo + 1, 2 * lo, 7 * lo, want]))
    shard = draw(st.sampled_from([1, 2, 3, 16, 100, 300])) if v == 3 else 1
    # the chunk row and the shard index are held in memory
    while chunk * prod(d["chunk"] for d in dims[1:]) * per_row > 1 << 22:
        chunk = max(1, chunk // 2)
    while shard * prod(d["shard"] for d in dims[1:]) > 1 << 16:
        shard = max(1, shard // 2)
    dims[0] = {"name": "t", "type": 2, "array": draw(st.sampled_from([0, 0, 5])), "chunk": chunk, "shard": shard}
    n = min(want, rows * chunk * slice_)
    c = {"version": v, "dtype": draw(st.sampled_from([0, 0, 1, 3, 4, 8])), "dims": dims, "multiscale": ms, "nframes": n}
    fb = _bytes(c) * w * h
    k = draw(st.sampled_from([n, n, ceil_div(n, 3), ceil_div(n, 50)]))
    c["appends"] = [fb * min(k, n - i) for i in range(0, n, k)]
    return _finish(draw, c, compression)


@st.composite
def wide_case(draw, version=None, compression=compressions, multiscale=None, px_cap=200000):
    """one or two dimensions of hundreds to tens of thousands of pixels; chunks of up to megabytes, up to hundreds of chunks"""
    v = version or draw(st.sampled_from([2, 3]))
    ms = draw(st.booleans()) if multiscale is None else multiscale
    nd = draw(st.sampled_from([3, 3, 4]))
    sizes = [0] + [draw(st.integers(1, 3)) for _ in range(nd - 1)]
    if draw(st.booleans()):
        sizes[draw(st.sampled_from([-1, -1, -2, -2] + ([1] if nd > 3 else [])))] = draw(st.sampled_from(EDGES))
    else:
        sizes[-1], sizes[-2] = draw(st.integers(65, 500)), draw(st.integers(65, 400))
    if nd > 3 and sizes[1] > 300:
        sizes[1] = draw(st.sampled_from([255, 256, 257, 300]))
    dims, per_row = [], 1
    t = draw(st.sampled_from([1, 1, 2, 3]))
    for i, a in enumerate(sizes):
        if i == 0:
            dims.append({"name": "t", "type": 2, "array": 0, "chunk": t, "shard": draw(st.sampled_from([1, 2])) if v == 3 else 1})
            continue
        budget = max(1, 300 // per_row)
        k = draw(st.sampled_from([1, 1, 2, 3, 5, 16, 50, 257, 300]))
        k = min(k, a, budget)
        chunk = draw(st.sampled_from([ceil_div(a, k), ceil_div(a, k), ceil_div(a, k) + 1]))
        n = ceil_div(a, chunk)
        per_row *= n
        shard = draw(st.sampled_from([1, n, ceil_div(n, 2), min(n + 1, 7)])) if v == 3 else 1
        dims.append({"name": "d%d" % i, "type": 0, "array": a, "chunk": chunk, "shard": shard})
    frame = dims[-1]["array"] * dims[-2]["array"]
    slice_ = prod(d["array"] for d in dims[1:-2])
    n = draw(st.integers(1, 2 * t * slice_ + 1))
    n = max(1, min(n, 4000000 // frame // 8, 700))
    c = {"version": v, "dtype": draw(st.sampled_from(range(10))), "dims": dims, "multiscale": ms, "nframes": n}
    while prod(d["chunk"] for d in dims) * per_row * _bytes(c) > 1 << 25:
        dims[0]["chunk"] = 1
        for d in dims[1:]:
            d["chunk"] = min(d["chunk"], d["array"])
        break
    c["appends"] = None if n < 200 else [_bytes(c) * frame * n]
    return _finish(draw, c, compression)


@st.composite
def solid_case(draw, version=None, compression=compressions, multiscale=None, least=1 << 16, most=3 << 20, total=10 << 20):
    """few frames of 64 KiB to 3 MiB in one to a few chunks: buffers, writes and uploads far beyond any small-size threshold"""
    v = version or draw(st.sampled_from([2, 3]))
    ms = draw(st.booleans()) if multiscale is None else multiscale
    dt = draw(st.sampled_from(range(10)))
    c = {"version": v, "dtype": dt, "multiscale": ms}
    px = draw(st.integers(least, most)) // _bytes(c)
    w = draw(st.one_of(st.integers(100, 2000), st.sampled_from([256, 512, 1024, 2048])))
    h = max(1, px // w)
    nd = draw(st.sampled_from([3, 3, 3, 4]))
    sizes = ([draw(st.integers(1, 4))] if nd == 4 else []) + [h, w]
    dims = [{"name": "t", "type": 2, "array": 0, "chunk": draw(st.sampled_from([1, 1, 1, 2, 3])), "shard": draw(st.sampled_from([1, 1, 2])) if v == 3 else 1}]
    for i, a in enumerate(sizes):
        chunk = ceil_div(a, draw(st.sampled_from([1, 1, 2, 3]))) + draw(st.sampled_from([0, 0, 0, 1]))
        n = ceil_div(a, chunk)
        dims.append({"name": "d%d" % i, "type": 0, "array": a, "chunk": chunk, "shard": draw(st.sampled_from([1, n])) if v == 3 else 1})
    c["dims"] = dims
    row = dims[0]["chunk"] * dims[0]["shard"] * prod(d["array"] for d in dims[1:-2])
    n = draw(st.integers(1, 3)) * row + draw(st.sampled_from([0, 0, 1, row // 2, row - 1]))
    c["nframes"] = max(1, min(n, total // (_bytes(c) * w * h)))
    c["appends"] = None
    return _finish(draw, c, compression)


@st.composite
def heavy_case(draw, partitions="frames", compression=compressions, multiscale=None, version=None):
    """what the small cases leave out: large frames, large chunks, long lines, or very many frames"""
    kind = draw(st.sampled_from(["solid", "solid", "solid", "wide", "long"]))
    if kind == "solid":
        c = draw(solid_case(version=version, compression=compression, multiscale=multiscale))
    elif kind == "wide":
        c = draw(wide_case(version=version, compression=compression, multiscale=multiscale))
    else:
        c = draw(long_case(version=version, compression=compression, multiscale=multiscale, rows_cap=40))
    c["kind"] = kind
    if partitions == "any" and kind != "long":
        fb = _bytes(c) * c["dims"][-1]["array"] * c["dims"][-2]["array"]
        left = fb * c["nframes"] + draw(st.sampled_from([0, 0, fb - 1, fb // 2]))
        cuts = []
        while left > 0 and len(cuts) < 12:
            k = min(left, draw(st.one_of(st.sampled_from([1, 4096, 65536, fb, fb - 1, fb + 1, fb // 2, 2 * fb, 1 << 20, (1 << 20) + 1]), st.integers(1, 2 * fb))))
            cuts.append(max(1, k))
            left -= cuts[-1]
        c["appends"] = cuts + ([left] if left else [])
    return c


@st.composite
def dense_case(draw, version=None, compression=compressions, multiscale=False):
    """hundreds to thousands of tiny chunks in memory, and shards that hold very many of them"""
    v = version or draw(st.sampled_from([2, 3, 3]))
    nd = draw(st.sampled_from([3, 4, 4, 5]))
    cap = 2500 if v == 3 else 500
    counts, left = [], draw(st.integers(100, cap))
    for i in range(nd - 1):
        k = draw(st.integers(1, left)) if i < nd - 2 else left
        if draw(st.booleans()):
            k = min(k, 40)
        counts.append(max(1, k))
        left = max(1, left // counts[-1])
    counts = draw(st.permutations(counts))
    dims = [{"name": "t", "type": 2, "array": 0, "chunk": draw(st.sampled_from([1, 1, 2])), "shard": draw(st.sampled_from([1, 2, 2, 3, 5])) if v == 3 else 1}]
    files = 1
    for i, n in enumerate(counts):
        chunk = draw(st.sampled_from([1, 1, 1, 2, 3])) if n < 60 else 1
        a = n * chunk - (draw(st.integers(0, chunk - 1)))
        shard = 1
        if v == 3:
            shard = draw(st.sampled_from([n, n, n + 1, ceil_div(n, 2), max(1, n - 1), 256, 16]))
            if ceil_div(n, shard) * files > 400:
                shard = n
            files *= ceil_div(n, shard)
        dims.append({"name": "d%d" % i, "type": 0, "array": a, "chunk": chunk, "shard": shard})
    cells = lambda: prod(d["shard"] * ceil_div(ceil_div(d["array"], d["chunk"]), d["shard"]) for d in dims[1:]) * dims[0]["shard"]
    if v == 3 and cells() > 8000:  # the size of all indices together
        for d in dims[1:]:
            d["shard"] = min(d["shard"], ceil_div(d["array"], d["chunk"]))
        if cells() > 8000:
            dims[0]["shard"] = min(2, dims[0]["shard"])
    slice_ = prod(d["array"] for d in dims[1:-2])
    frame = dims[-1]["array"] * dims[-2]["array"]
    layer = slice_ * dims[0]["chunk"]
    n = draw(st.integers(1, 4)) * layer - draw(st.sampled_from([0, 0, 1, layer // 2]))
    n = max(1, min(n, 1500, 3000000 // frame))
    c = {"version": v, "dtype": draw(st.sampled_from([0, 0, 1, 3, 5, 8])), "dims": dims, "multiscale": multiscale, "nframes": n}
    c["appends"] = None if n < 200 else [_bytes(c) * frame * n]
    return _finish(draw, c, compression)


@st.composite
def deep_case(draw, levels=(1, 2, 3)):
    """several levels: chunks small relative to the image so that halving goes on, or channel x/y-only pyramids"""
    dt = draw(st.integers(0, 9))
    v = draw(st.sampled_from([2, 3]))
    c = draw(st.sampled_from([1, 2, 3, 4]))
    k = draw(st.sampled_from(levels))
    h, w = c * 2 ** k + draw(st.integers(-1, 1)), c * 2 ** k + draw(st.integers(-1, 1))
    h, w = max(1, h), max(1, w)
    if draw(st.integers(0, 3)) == 0:
        h = draw(st.integers(1, 40))
    dims = [{"name": "t", "type": draw(st.sampled_from([2, 2, 0, 1])), "array": 0, "chunk": draw(st.integers(1, 4)), "shard": draw(st.integers(1, 3))}]
    if draw(st.integers(0, 2)) == 0:
        n = draw(st.integers(1, 3))
        dims.append({"name": "c", "type": 1, "array": n, "chunk": draw(st.integers(1, n)), "shard": 1})
    dims += [{"name": "y", "type": 0, "array": h, "chunk": min(h, c), "shard": draw(st.integers(1, 3))},
             {"name": "x", "type": 0, "array": w, "chunk": min(w, c), "shard": draw(st.integers(1, 3))}]
    case = {"version": v, "dtype": dt, "dims": dims, "compression": draw(st.sampled_from([None, None, {"compressor": 1, "codec": 1, "level": 1, "shuffle": 1}])),
            "multiscale": True, "nframes": draw(st.integers(0, 40)), "data": draw(data_specs), "nprocs": draw(st.sampled_from([1, 2, 8])), "log_level": 3}
    fb = _bytes(case) * h * w
    kind = draw(st.integers(0, 2))
    if kind == 0:
        case["appends"] = None
    elif kind == 1:
        case["appends"] = [fb * case["nframes"]]
    else:
        case["appends"] = draw(partition(fb, case["nframes"], trailing=False))
    return case


@st.composite
def many_rows_case(draw, version):
    """more than 2^16 chunk rows (shard rows)"""
    rows = 65536 + draw(st.integers(1, 9))
    ch, sh = draw(st.sampled_from([(1, 1), (1, 1), (2, 1)])) if version == 2 else draw(st.sampled_from([(1, 1), (1, 1), (1, 2), (2, 1)]))
    dims = [{"name": "t", "type": 2, "array": 0, "chunk": ch, "shard": sh}, {"name": "y", "type": 0, "array": 1, "chunk": 1, "shard": 1},
            {"name": "x", "type": 0, "array": 1, "chunk": 1, "shard": 1}]
    n = rows * ch * sh - draw(st.integers(0, ch * sh - 1))
    return {"version": version, "dtype": 1, "dims": dims, "multiscale": False, "nframes": n, "appends": [2 * n], "compression": None,
            "data": {"kind": "random", "seed": draw(st.integers(0, 1000))}, "nprocs": draw(st.sampled_from([2, 4])), "log_level": 3}


@st.composite
def many_chunks_case(draw):
    """more than 2^16 chunks in memory at once, in a few shards"""
    w = draw(st.sampled_from([256, 257, 300]))
    h = 65536 // w + draw(st.integers(1, 3))
    order = draw(st.booleans())
    ch, sh = draw(st.sampled_from([(1, 1), (1, 2), (2, 1)]))
    dims = [{"name": "t", "type": 2, "array": 0, "chunk": ch, "shard": sh}]
    for nm, a in (("y", h), ("x", w)) if order else (("y", w), ("x", h)):
        dims.append({"name": nm, "type": 0, "array": a, "chunk": 1, "shard": draw(st.sampled_from([a, a, ceil_div(a, 2)]))})
    n = draw(st.integers(1, ch * sh + 1))
    return {"version": 3, "dtype": draw(st.sampled_from([0, 1])), "dims": dims, "multiscale": False, "nframes": n, "compression": None,
            "data": {"kind": "random", "seed": draw(st.integers(0, 1000))}, "nprocs": draw(st.sampled_from([2, 4])), "log_level": 3}
