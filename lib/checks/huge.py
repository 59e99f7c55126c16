"""streams whose chunks or shards are larger than 4 GiB (used by C01 and C02), appends and frames of more than 4 GiB (C04)"""
import os
import fcntl
import mmap
import tempfile
import time
import numpy as np
from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Violation

GIB4 = 1 << 32
LOCK = os.path.join(tempfile.gettempdir(), "azv-huge.lock")


def alone(fn):
    """these cases need up to 20 GB: one at a time, and only when there is room"""
    def run(ctx, case):
        with open(LOCK, "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            for i in range(60):
                with open("/proc/meminfo") as f:
                    free = [int(l.split()[1]) for l in f if l.startswith("MemAvailable")][0]
                if free > 22 << 20:
                    return fn(ctx, case)
                time.sleep(1)
        return {"nontrivial": False, "labels": ["not tried: not enough memory"]}
    return run


@st.composite
def huge_case(draw, version):
    w = 2048
    h = draw(st.sampled_from([2048, 2051]))
    ch = GIB4 // (w * h) + draw(st.integers(2, 9)) if version == 2 else draw(st.sampled_from([16, 31]))
    sh = 1 if version == 2 else GIB4 // (w * h * ch) + draw(st.integers(1, 2))
    dims = [{"name": "t", "type": 2, "array": 0, "chunk": ch, "shard": sh}, {"name": "y", "type": 0, "array": h, "chunk": h, "shard": 1},
            {"name": "x", "type": 0, "array": w, "chunk": w, "shard": 1}]
    return {"version": version, "dtype": 0, "dims": dims, "multiscale": False, "nframes": ch * sh - draw(st.integers(0, 2)), "compression": None,
            "data": {"kind": "random", "seed": draw(st.integers(0, 1000))}, "nprocs": 4, "log_level": 3}


@alone
def fn(ctx, case):
    dims, n = case["dims"], case["nframes"]
    h, w = dims[1]["array"], dims[2]["array"]
    fb = h * w
    d = ctx.fresh()
    # frames are windows of one block of noise
    block = np.random.Generator(np.random.PCG64(case["data"]["seed"])).integers(0, 256, fb + 4096, dtype=np.uint8)
    offs = [(i * 1031) % 4096 for i in range(n)]
    path = os.path.join(d, stream.STORE)
    script = stream.base_script(case, d, block.tobytes())
    steps = [{"s": "create", "id": 0, "settings": stream.settings(case, path)}]
    steps += [{"s": "append", "id": 0, "off": o, "len": fb} for o in offs] + [{"s": "destroy", "id": 0}]
    script["steps"] = steps
    script["timeout"] = 240
    r = ctx.run(script)
    for x in r["results"]:
        if x.get("s") == "append" and (x["rc"] != 0 or x["bytes_out"] != fb):
            raise Violation("append of frame data failed: %s" % x)
    ch, sh = dims[0]["chunk"], dims[0]["shard"]
    f = os.path.join(path, "0/0/0/0" if case["version"] == 2 else "data/root/0/c0/0/0")
    if not os.path.exists(f):
        raise Violation("%s is missing" % f[len(path):])
    nb = ch * fb
    layers = -(-n // ch)
    size = nb if case["version"] == 2 else nb * layers + 16 * sh
    if os.path.getsize(f) != size:
        raise Violation("%s has %d bytes instead of %d" % (f[len(path):], os.path.getsize(f), size))
    with open(f, "rb") as fh:
        mm = mmap.mmap(fh.fileno(), 0, access=mmap.ACCESS_READ)
        try:
            a = np.frombuffer(mm, np.uint8)
            where = [i * nb for i in range(layers)]
            if case["version"] == 3:
                tab = np.frombuffer(a[-16 * sh:].tobytes(), np.uint64).reshape(sh, 2)
                for i in range(sh):
                    e = (int(tab[i][0]), int(tab[i][1]))
                    if i < layers:
                        where[i] = e[0]
                        if e[1] != nb or e[0] + nb > size - 16 * sh:
                            raise Violation("index entry %d is %s" % (i, e))
                    elif e != (2**64 - 1,) * 2:
                        raise Violation("index entry %d of a missing chunk is %s" % (i, e))
            for i in range(layers * ch):
                p = where[i // ch] + (i % ch) * fb
                got = a[p:p + fb]
                if not (np.array_equal(got, block[offs[i]:offs[i] + fb]) if i < n else not got.any()):
                    raise Violation("frame %d is not what was appended" % i)
            del a, got
        finally:
            try:
                mm.close()
            except BufferError:
                pass
    ctx.fresh()
    return {"nontrivial": True, "labels": ["huge"]}


# ---- one append, or one frame, of more than 4 GiB --------------------------------------------------------------------------
@st.composite
def append_case(draw, kind):
    w = 2048
    if kind == "call":
        h, ch, cy = 2048, 64, 2048
        n = GIB4 // (w * h) + draw(st.integers(1, 3))
    else:
        h, ch, cy = GIB4 // w + draw(st.integers(1, 9)), 1, draw(st.sampled_from([1 << 18, 300001]))
        n = 1
    return {"kind": kind, "w": w, "h": h, "ch": ch, "cy": cy, "nframes": n, "tail": draw(st.sampled_from([0, 1, 1000])), "cuts": draw(st.lists(st.integers(1, 10 ** 6), min_size=1, max_size=3)) if kind == "frame" else [],
            "seed": draw(st.integers(0, 1000)), "version": 2}


@alone
def append_fn(ctx, case):
    w, h, n = case["w"], case["h"], case["nframes"]
    fb = w * h
    tile = (1 << 23) + 1031
    T = np.random.Generator(np.random.PCG64(case["seed"])).integers(0, 256, tile, dtype=np.uint8)
    T2 = np.concatenate([T, T])
    d = ctx.fresh()
    path = os.path.join(d, stream.STORE)
    cfg = {"version": 2, "dtype": 0, "dims": [{"name": "t", "type": 2, "array": 0, "chunk": case["ch"], "shard": 1}, {"name": "y", "type": 0, "array": h, "chunk": case["cy"], "shard": 1},
                                              {"name": "x", "type": 0, "array": w, "chunk": w, "shard": 1}], "multiscale": False, "nframes": n, "compression": None, "nprocs": 4, "log_level": 3}
    script = stream.base_script(cfg, d, T.tobytes())
    total = n * fb + case["tail"]
    at = [0] + sorted({int(total * c / (10 ** 6 + 1)) for c in case["cuts"]} - {0}) + [total]
    steps = [{"s": "create", "id": 0, "settings": stream.settings(cfg, path)}]
    steps += [{"s": "append", "id": 0, "off": a, "len": b - a, "tile": tile} for a, b in zip(at, at[1:])]
    script["steps"] = steps + [{"s": "destroy", "id": 0}]
    script["timeout"] = 240
    r = ctx.run(script)
    apps = [x for x in r["results"] if x.get("s") == "append"]
    for x, a, b in zip(apps, at, at[1:]):
        if x["rc"] != 0 or x["bytes_out"] != b - a or x["modified"]:
            raise Violation("append of %d bytes: %s" % (b - a, x))
    if len(apps) != len(at) - 1:
        raise Violation("the stream was not created")
    for t in range(-(-n // case["ch"])):
        for y in range(-(-h // case["cy"])):
            f = os.path.join(path, "0/%d/%d/0" % (t, y))
            if not os.path.exists(f):
                raise Violation("%s is missing" % f[len(path):])
            if os.path.getsize(f) != case["ch"] * case["cy"] * w:
                raise Violation("%s has %d bytes" % (f[len(path):], os.path.getsize(f)))
            rows = min(case["cy"], h - y * case["cy"])
            with open(f, "rb") as fh:
                for i in range(min(case["ch"], n - t * case["ch"])):
                    g, left = (t * case["ch"] + i) * fb + y * case["cy"] * w, rows * w
                    fh.seek(i * case["cy"] * w)
                    while left:
                        k = min(left, tile)
                        got = np.frombuffer(fh.read(k), np.uint8)
                        if not np.array_equal(got, T2[g % tile:g % tile + k]):
                            raise Violation("%s: frame %d is not what was appended" % (f[len(path):], t * case["ch"] + i))
                        g += k
                        left -= k
    meta = zarr.strict_json(open(os.path.join(path, "0/.zarray"), "rb").read(), ".zarray")
    if meta["shape"] != [n, h, w]:
        raise Violation("shape is %s" % meta["shape"])
    ctx.fresh()
    return {"nontrivial": True, "labels": ["huge " + case["kind"]]}


# ---- a dimension of more than 2^31 pixels, with lower resolutions ------------------------------------------------------------
@st.composite
def side_case(draw, axis):
    n = (1 << 31) + draw(st.integers(1, 1 << 20))
    return {"long": n, "axis": axis, "version": draw(st.sampled_from([2, 3])), "seed": draw(st.integers(0, 1000))}


@alone
def side_fn(ctx, case):
    n, v = case["long"], case["version"]
    tile = (1 << 22) + 1030  # even: the mean of a pair is the mean of a pair of the tile
    T = np.random.Generator(np.random.PCG64(case["seed"])).integers(0, 256, tile, dtype=np.uint8)
    d = ctx.fresh()
    path = os.path.join(d, stream.STORE)
    a, c = [1, 1], [1, 1]
    a[case["axis"] == "x"] = c[case["axis"] == "x"] = n
    cfg = {"version": v, "dtype": 0, "dims": [{"name": "t", "type": 2, "array": 0, "chunk": 1, "shard": 1}, {"name": "y", "type": 0, "array": a[0], "chunk": c[0], "shard": 1},
                                              {"name": "x", "type": 0, "array": a[1], "chunk": c[1], "shard": 1}], "multiscale": True, "nframes": 2, "compression": None, "nprocs": 2, "log_level": 3}
    script = stream.base_script(cfg, d, T.tobytes())
    script["steps"] = [{"s": "create", "id": 0, "settings": stream.settings(cfg, path)}] + [{"s": "append", "id": 0, "off": i * tile // 2, "len": n, "tile": tile} for i in range(2)] + [{"s": "destroy", "id": 0}]
    script["timeout"] = 600
    r = ctx.run(script)
    apps = [x for x in r["results"] if x.get("s") == "append"]
    if len(apps) != 2 or any(x["rc"] or x["bytes_out"] != n for x in apps):
        raise Violation("append of %d bytes: %s" % (n, apps))
    half = n // 2 + n % 2
    meta = zarr.strict_json(open(os.path.join(path, "1/.zarray" if v == 2 else "meta/root/1.array.json"), "rb").read(), "metadata of level 1")
    want = [1] + [-(-x // 2) for x in a]
    if meta["shape"] != want:
        raise Violation("shape of level 1 is %s instead of %s" % (meta["shape"], want))
    f = os.path.join(path, "1/0/0/0" if v == 2 else "data/root/1/c0/0/0")
    if not os.path.exists(f):
        raise Violation("%s is missing" % f[len(path):])
    if os.path.getsize(f) != half + (16 if v == 3 else 0):
        raise Violation("%s has %d bytes" % (f[len(path):], os.path.getsize(f)))
    U = np.roll(T, -(tile // 2))
    S = sum(x[i::2].astype(np.float32) for x in (T, U) for i in (0, 1)) / 4  # period tile/2, apart from the last pixel of an odd length
    with open(f, "rb") as fh:
        for at in range(0, half, tile // 2):
            got = np.frombuffer(fh.read(min(tile // 2, half - at)), np.uint8)
            e = np.abs(got - S[:len(got)])
            if at + len(got) == half and n % 2:
                x = [(i * (tile // 2) + n - 1) % tile for i in range(2)]
                e[-1] = abs(float(got[-1]) - (float(T[x[0]]) + float(T[x[1]])) / 2)
            if (e >= 2).any():
                i = int(np.argmax(e >= 2))
                raise Violation("level 1, pixel %d is %d" % (at + i, got[i]))
    ctx.fresh()
    return {"nontrivial": True, "labels": ["side of %d along %s" % (n >> 31 << 31, case["axis"])]}
