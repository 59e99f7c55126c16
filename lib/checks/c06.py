import json
from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Sub, Violation

KINDS = {0: "space", 1: "channel", 2: "time", 3: "other"}
V3 = "https://purl.org/zarr/spec/protocol/core/3.0"


def same(a, b):
    """JSON values equal, integers and floats kept apart, key order irrelevant"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def check_multiscales(case, ms, what):
    if not isinstance(ms, list) or len(ms) != 1 or not isinstance(ms[0], dict):
        raise Violation("%s multiscales is %r" % (what, ms))
    m = ms[0]
    dims = case["dims"]
    axes = []
    for i, d in enumerate(dims):
        a = {"name": d["name"], "type": KINDS[d["type"]]}
        if i >= len(dims) - 2:
            a["unit"] = "micrometer"
        axes.append(a)
    zarr.eq(m.get("axes"), axes, what + " axes")
    levels = zarr.plan_levels(case)
    ds = m.get("datasets")
    want = []
    for k in range(len(levels)):
        s = float(2 ** k)
        want.append({"path": str(k), "coordinateTransformations": [{"type": "scale", "scale": [s] + [1.0] * (len(dims) - 3) + [s, s]}]})
    zarr.eq(ds, want, what + " datasets")
    if not isinstance(m.get("version"), str):
        raise Violation("%s has no version" % what)


def fn(ctx, case):
    store, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)

    def doc(key):
        return zarr.strict_json(store.get(key), key)
    if case["version"] == 2:
        zarr.eq(doc(".zgroup"), {"zarr_format": 2}, ".zgroup")
        at = doc(".zattrs")
        zarr.eq(sorted(at), ["multiscales"], ".zattrs keys")
        check_multiscales(case, at["multiscales"], ".zattrs")
        zarr.eq(doc("0/.zattrs"), {}, "0/.zattrs")
        ukey = "acquire.json"
        arrays = [k[:-8] for k in store.keys() if k.endswith("/.zarray")]
    else:
        zarr.eq(doc("zarr.json"), {"extensions": [], "metadata_encoding": V3, "metadata_key_suffix": ".json", "zarr_format": V3}, "zarr.json")
        g = doc("meta/root.group.json")
        zarr.eq(sorted(g), ["attributes"], "root.group.json keys")
        zarr.eq(sorted(g["attributes"]), ["multiscales"], "root.group.json attributes")
        check_multiscales(case, g["attributes"]["multiscales"], "root.group.json")
        ukey = "meta/acquire.json"
        arrays = [k[len("meta/root/"):-len(".array.json")] for k in store.keys() if k.startswith("meta/root/")]
    zarr.eq(sorted(arrays, key=int), [str(k) for k in range(len(zarr.plan_levels(case)))], "levels on disk")
    got = doc(ukey)
    want = case["value"] if case["custom"] else {}
    if not same(got, want):
        raise Violation("user metadata %r was stored as %r" % (case["custom"][:300] if case["custom"] else case["custom"], str(got)[:300]))
    lab = ["v%d" % case["version"], "ndims=%d" % len(case["dims"]), "levels=%d" % min(4, len(arrays)),
           "custom=" + ("none" if case["custom"] is None else "empty" if not case["custom"] else type(case["value"]).__name__)]
    if any(ord(ch) > 127 or ord(ch) < 32 or ch in "\"\\" for d in case["dims"] for ch in d["name"]):
        lab.append("name needs escaping or is not ASCII")
    if case["nframes"] == 0:
        lab.append("no frames")
    return {"nontrivial": bool(case["custom"]) or len(arrays) > 1, "labels": lab}


text = st.text(st.characters(exclude_categories=["Cs"]), max_size=8)
ints = st.one_of(st.integers(-100, 100), st.integers(-2 ** 63, 2 ** 64 - 1), st.sampled_from([2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, -2 ** 63, 2 ** 53 + 1, 2 ** 32, 0]))
floats = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.1, 1.0, 1e300, 5e-324, 2.0 ** 53, 123456789.123456789, 1e16, 1e15]))
leaves = st.one_of(st.none(), st.booleans(), ints, floats, text)
values = st.recursive(leaves, lambda c: st.one_of(st.lists(c, max_size=5), st.dictionaries(text, c, max_size=5)), max_leaves=25)


@st.composite
def custom_text(draw):
    kind = draw(st.sampled_from(["none", "empty", "value", "value", "value", "object", "object", "deep", "long"]))
    if kind == "none":
        return None, None
    if kind == "empty":
        return "", None
    if kind == "deep":
        n = draw(st.integers(2, 150))
        v = draw(leaves)
        for i in range(n):
            v = [v] if draw(st.booleans()) else {"k%d" % (i % 3): v}
    elif kind == "long":
        v = {"key%d" % i: "v" * (i % 50) for i in range(draw(st.integers(1, 400)))}
    elif kind == "object":
        v = draw(st.dictionaries(text, values, max_size=6))
    else:
        v = draw(values)
    ascii_ = draw(st.booleans())
    indent = draw(st.sampled_from([None, None, 1, 4]))
    s = json.dumps(v, ensure_ascii=ascii_, indent=indent, allow_nan=False)
    # raw DEL etc. are fine in JSON; control characters are escaped by dumps
    pre = draw(st.sampled_from(["", "", " ", "\n\t ", "/* a comment */", "// line\n"]))
    post = draw(st.sampled_from(["", "", " ", "\r\n", " /* end */", "\n// end\n"]))
    return pre + s + post, v


@st.composite
def cases(draw):
    c = draw(gen.stream_case(names=True, cap=8, max_px=200, max_chunks=8, compression=gen.compressions_all))
    c["custom"], c["value"] = draw(custom_text())
    return c


@st.composite
def tall(draw):
    """pyramids of many levels (scale factors to 2^20 and more); few frames"""
    v = draw(st.sampled_from([2, 3]))
    big = draw(st.sampled_from([255, 256, 257, 511, 513, 1000, 1025, 4097, 65536, 70001, 1 << 20, (1 << 24) + 1, (1 << 31) - 1, (1 << 32) - 1]))
    # halving stops when a chunk would shrink: the others are of one pixel
    dims = [{"name": "t", "type": 2, "array": draw(st.sampled_from([0, 0, big])), "chunk": 1, "shard": 1}]
    if draw(st.booleans()):
        dims.append({"name": "c", "type": draw(st.sampled_from([0, 1, 3])), "array": draw(st.integers(1, 3)), "chunk": 1, "shard": 1})
    one = {"type": 0, "array": 1, "chunk": 1, "shard": 1}
    small = big <= 1025
    wide = {"type": 0, "array": big if small else 1, "chunk": 1, "shard": draw(st.sampled_from([1, 16, 300]))}
    dims += [dict(one, name="y"), dict(wide, name="x")] if draw(st.booleans()) else [dict(wide, name="y"), dict(one, name="x")]
    if not small:
        dims[0]["array"] = big
    c = {"version": v, "dtype": 0, "dims": dims, "multiscale": True, "nframes": draw(st.sampled_from([0, 0, 0, 1])), "compression": None, "appends": None,
         "data": {"kind": "random", "seed": 1}, "nprocs": 2, "log_level": 3}
    c["custom"], c["value"] = None, None
    return c


CHECK = {
    "id": "C06",
    "level": "exploration",
    "rule": "random user metadata (any JSON value, nesting to 150, every unicode character, 64-bit integers, doubles, comments and white space around it), dimension "
            "names, kinds and counts, versions, levels (to 32), frame counts; non-trivial: user metadata given or more than one level. Oracle: strict JSON, "
            "model of every group document, value-for-value comparison (integers and floats kept apart).",
    "assumptions": ["JSON integers outside 64 bits and duplicate keys are outside the domain"],
    "subs": [Sub("groups", cases(), fn, 3200, 40000, "stream:asan"),
             Sub("tall", tall(), fn, 240, 3000, "stream:asan")],
}
