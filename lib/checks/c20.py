from math import prod

from hypothesis import strategies as st

from ..core import Sub, Violation

U32 = (1 << 32) - 1
BYTES = [1, 2, 4, 8, 1, 2, 4, 8, 4, 8]


def ceil(a, b):
    return -(-a // b)


@st.composite
def number(draw, lo, hi):
    """lo..hi, spread over all magnitudes"""
    if lo >= hi:
        return lo
    k = draw(st.integers(0, 9))
    if k < 4 or hi < 16:
        return draw(st.integers(lo, min(hi, lo + 9)))
    if k == 4:
        return hi - draw(st.integers(0, min(3, hi - lo)))
    if k == 5:
        p = 1 << draw(st.integers(1, hi.bit_length() - 1))
        return min(hi, max(lo, p + draw(st.integers(-1, 1))))
    return draw(st.integers(lo, min(hi, (1 << draw(st.integers(1, hi.bit_length()))) - 1 if lo < 2 else hi)))


@st.composite
def geometry(draw, small):
    """[array, chunk, shard, type] per dimension; every derived quantity fits its type"""
    n = draw(st.sampled_from([3, 3, 3, 4, 4, 4, 5, 5, 6, 7, 8, 10]))
    big = 5 if small else U32
    dtype = draw(st.integers(0, 9))
    frames, chunks, nbytes, shard, shards = (1 << 63) - 1, U32, (1 << 63) - 1, U32, U32
    nbytes //= BYTES[dtype]
    dims = []
    for i in reversed(range(n)):
        # the product of array sizes (frames), chunk counts, chunk sizes and shard sizes stays in range
        arr_hi = min(big, frames) if 0 < i < n - 2 else big
        ch_hi = max(1, min(big + 2, U32, nbytes))
        if i < n - 2:
            ch_hi = max(1, min(ch_hi, frames))
        arr = 0 if i == 0 else draw(number(1, max(1, arr_hi)))
        mode = draw(st.integers(0, 5))
        if mode == 0 and arr:
            ch = arr
        elif mode == 1:
            ch = draw(number(1, ch_hi))  # may exceed the array
        else:
            ch = draw(number(1, max(1, min(arr or ch_hi, ch_hi))))
        ch = min(ch, ch_hi)
        if i and ceil(arr, ch) > chunks:  # too many chunks: larger chunks or smaller array
            ch = min(ch_hi, ceil(arr, chunks))
            arr = min(arr, ch * chunks)
        k = ceil(arr, ch)
        sh = min(shard, draw(number(1, min(shard, 6 if small else max(2 * k, 4)))))
        if draw(st.integers(0, 3)) == 0 and k and k <= shard:
            sh = k
        if i:
            chunks //= max(1, k)
            if i < n - 2:
                frames //= arr
        nbytes //= ch
        shard //= sh
        dims.insert(0, [arr, ch, sh, 0 if i >= n - 2 else draw(st.integers(0, 3))])
    dims[0][0] = draw(st.sampled_from([0, 0, 0, 1, 7, U32]))
    return {"dims": dims, "dtype": dtype}


def run(ctx, case):
    r = ctx.run({"cmd": "dims", "list": case["list"]})
    res = [x for x in r["results"] if "done" not in x]
    if len(res) != len(case["list"]):
        raise Violation("%d results for %d geometries" % (len(res), len(case["list"])))
    return res


def same(what, got, want, g):
    if got != want:
        raise Violation("%s is %s instead of %s for [array, chunk, shard, kind] = %s, type %d" % (what, got, want, g["dims"], g["dtype"]))


def fn(ctx, case):
    lab, nontriv = set(), False
    for g, x in zip(case["list"], run(ctx, case)):
        d = g["dims"]
        n = len(d)
        if "refused" in x:
            raise Violation("refused: %s: %s" % (g, x["refused"]))
        same("the number of dimensions", x["ndims"], n, g)
        same("first, height and width size", x["sizes"], [d[0][0], d[-2][0], d[-1][0]], g)
        bpp = BYTES[g["dtype"]]
        nch = [ceil(a, c) for a, c, _, _ in d]
        memory, size = prod(nch[1:]), prod(q[1] for q in d) * bpp
        inner = [q[0] for q in d[1:n - 2]]
        tile = d[-1][1] * d[-2][1] * bpp
        places = {}
        for f, (idx, group, internal) in zip(g["frames"], x["frames"]):
            coord, rest = [], f
            for a in reversed(inner):
                coord.insert(0, rest % a)
                rest //= a
            coord.insert(0, rest)
            want_idx = [c // q[1] for c, q in zip(coord, d)]
            if want_idx[0] > U32:
                want_idx[0] = idx[0]  # cannot be represented
            same("frame %d: the chunk index along each dimension" % f, idx, want_idx, g)
            want_group, want_int, s1, s2 = 0, 0, nch[-1] * nch[-2], 1
            for k in range(n - 3, -1, -1):
                if k:
                    want_group += coord[k] // d[k][1] * s1
                    s1 *= nch[k]
                want_int += coord[k] % d[k][1] * s2
                s2 *= d[k][1]
            same("frame %d: the group of chunks" % f, group, want_group, g)
            same("frame %d: the offset in the chunk" % f, internal, want_int * tile, g)
            # independent of the formulas above: inside the buffers, and no two frames of a row at one place
            if group + nch[-1] * nch[-2] > memory or internal + tile > size:
                raise Violation("frame %d lies outside the buffers: %s" % (f, g))
            row = f // (d[0][1] * prod(inner))
            if places.setdefault((row, group, internal), f) != f:
                raise Violation("frames %d and %d share a place: %s" % (f, places[(row, group, internal)], g))
            if f > U32:
                lab.add("frame beyond 32 bits")
        if "bad_index" in g and "threw" not in str(x["bad_index"]):
            raise Violation("dimension %d is not addressed by frames, but has chunk index %s" % (g["bad_index"], x["bad_index"]))
        same("the number of chunks in memory", x["memory"], memory, g)
        same("the size of a chunk", x["bytes"], size, g)
        nontriv |= any(a > 1 for a in inner)
        lab.add("%d dimensions" % n)
        if any(a % c for a, c, _, _ in d[1:]):
            lab.add("ragged")
        if any(c > a for a, c, _, _ in d[1:]):
            lab.add("chunk larger than array")
        if size > U32:
            lab.add("chunk beyond 4 GiB")
        if prod(inner) > U32:
            lab.add("row beyond 2^32 frames")
    return {"nontrivial": nontriv, "labels": sorted(lab)}


@st.composite
def large(draw):
    out = []
    for _ in range(draw(st.integers(1, 6))):
        g = draw(geometry(False))
        d = g["dims"]
        strides, s = [1], 1
        for a, _, _, _ in reversed(d[1:-2]):
            s *= a
            strides.append(s)
        strides.append(s * d[0][1])
        strides += [a * c for a, (_, c, _, _) in zip([1] + strides, reversed(d[:-2]))]
        fr = []
        for _ in range(draw(st.integers(1, 24))):
            k = draw(st.integers(0, 3))
            if k == 0:
                f = draw(st.integers(0, 40))
            elif k == 1:
                f = draw(number(0, (1 << 63) - 1))
            else:
                f = draw(st.sampled_from(strides)) * draw(number(0, 1 << 20)) + draw(st.integers(-1, 1))
            fr.append(min(max(f, 0), (1 << 63) - 1))
        g["frames"] = fr
        if draw(st.booleans()):
            g["bad_index"] = len(d) - draw(st.sampled_from([0, 1, 2])) + draw(st.sampled_from([0, 0, 5])) * 0
        out.append(g)
    return {"list": out}


@st.composite
def small(draw):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        g = draw(geometry(True))
        row = g["dims"][0][1] * prod(q[0] for q in g["dims"][1:-2])
        a = draw(st.sampled_from([0, 0, 1, 3])) * row
        g["frames"] = list(range(a, a + min(2 * row + 1, 300)))
        out.append(g)
    return {"list": out}


CHECK = {
    "id": "C20",
    "level": "exploration",
    "rule": "random dimension lists (3-10 dimensions, sizes from 1 to 2^32-1, ragged and oversized chunks, all types); for small ones all frames of two chunk rows, for large "
            "ones frames at and around every stride up to 2^63; non-trivial: an inner dimension longer than 1. Oracle: row-major decomposition with unlimited integers; "
            "bounds; no two frames of a row at one place.",
    "assumptions": ["the chunk index along the append dimension is compared only where it fits its 32-bit type; derived quantities are generated to fit theirs"],
    "technique": "property-based testing against an unlimited-precision reference model",
    "subs": [Sub("large", large(), fn, 8000, 150000, "dims:asan"), Sub("small", small(), fn, 4000, 60000, "dims:asan")],
}
