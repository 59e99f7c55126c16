import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, stream, zarr
from ..core import Sub, Violation

ENUMS = {
    "ZarrVersion": {"V2": 2, "V3": 3},
    "DataType": {n: i for i, n in enumerate(["UINT8", "UINT16", "UINT32", "UINT64", "INT8", "INT16", "INT32", "INT64", "FLOAT32", "FLOAT64"])},
    "Compressor": {"NONE": 0, "BLOSC1": 1},
    "CompressionCodec": {"NONE": 0, "BLOSC_LZ4": 1, "BLOSC_ZSTD": 2},
    "DimensionType": {"SPACE": 0, "CHANNEL": 1, "TIME": 2, "OTHER": 3},
    "LogLevel": {"DEBUG": 0, "INFO": 1, "WARNING": 2, "ERROR": 3, "NONE": 4},
}
NAMES = {e: {v: n for n, v in m.items()} for e, m in ENUMS.items()}
FORMATS = "BHILbhilfd"
hx = stream.hx


def enum(e, v):
    return {"enum": e, "name": NAMES[e][v]}


def fields(kind, x):
    """(attribute, value as it is written, value as it reads back) of a settings object"""
    if kind == "Dimension":
        out = [("name", hx(x["name"])), ("kind", enum("DimensionType", x["type"])), ("array_size_px", x["array"]), ("chunk_size_px", x["chunk"]),
               ("shard_size_chunks", x["shard"])]
    elif kind == "CompressionSettings":
        out = [("compressor", enum("Compressor", x["compressor"])), ("codec", enum("CompressionCodec", x["codec"])), ("level", x["level"]),
               ("shuffle", x["shuffle"])]
    elif kind == "S3Settings":
        out = [(k, hx(x[j])) for k, j in (("endpoint", "endpoint"), ("bucket_name", "bucket"), ("access_key_id", "key"), ("secret_access_key", "secret"))]
    return out


def shown(v):
    return dict(v, value=ENUMS[v["enum"]][v["name"]]) if isinstance(v, dict) else v


def read_back(kind, x):
    return {"class": kind, "props": {k: shown(v) for k, v in fields(kind, x)}}


class Script:
    def __init__(self, how):
        self.steps, self.how, self.vars = [], list(how), 0
        self.expect = []  # what each step must give: ("value", v) | ("raises", types) | None

    def add(self, step, expect=("ok",)):
        step["n"] = len(self.steps)
        self.steps.append(step)
        self.expect.append(expect)

    def pick(self):
        return self.how.pop(0) if self.how else 0

    def var(self):
        self.vars += 1
        return "v%d" % self.vars

    def obj(self, cls, kv):
        """makes an object whose attributes are given by keyword, assigned later, or assigned over a first value; its variable"""
        v = self.var()
        kw, later = {}, []
        for k, x in kv:
            w = self.pick() % 3
            if w == 0:
                kw[k] = x
            else:
                later.append((k, x))
        self.add({"s": "let", "var": v, "value": {"new": cls, "kw": kw}})
        for k, x in later:
            self.add({"s": "set", "on": {"var": v}, "attr": k, "value": x})
        return v


def layout(rng_dims, arr, spec):
    """arr's content in memory laid out as spec says. Returns (bytes, offset of element 0, strides)"""
    nd = arr.ndim
    perm = sorted(range(nd), key=lambda i: (spec["order"][i % len(spec["order"])], i))
    step = [spec["step"][i % len(spec["step"])] for i in range(nd)]
    pad = [spec["pad"][i % len(spec["pad"])] for i in range(nd)]
    n = [arr.shape[a] * abs(step[i]) + pad[i] for i, a in enumerate(perm)]
    mem = np.frombuffer(bytes([0xA7]) * (int(np.prod(n, dtype=np.int64)) * arr.itemsize), dtype=arr.dtype).reshape(n).copy()
    view = mem
    for i, a in enumerate(perm):
        k, s = arr.shape[a], step[i]
        ix = [slice(None)] * nd
        lo = pad[i] // 2
        if s > 0:
            ix[i] = slice(lo, lo + k * s, s)
        else:
            first = lo + (k - 1) * -s
            ix[i] = slice(first, first + k * s if first + k * s >= 0 else None, s) if k else slice(0, 0)
        view = view[tuple(ix)]
    view = view.transpose(np.argsort(perm))
    if view.shape != arr.shape:
        raise AssertionError("layout %s %s" % (view.shape, arr.shape))
    view[...] = arr
    at = view.__array_interface__["data"][0] - mem.__array_interface__["data"][0] if view.size else 0
    return mem.tobytes(), at, list(view.strides)


def arrays(case, data):
    """the arrays the frames are appended as: [(ndarray)]"""
    dims = case["dims"]
    dt = zarr.np_dtype(case["dtype"])
    h, w = dims[-2]["array"], dims[-1]["array"]
    at = 0
    for i, n in enumerate(stream.append_list(case)):
        spec = case["arrays"][i % len(case["arrays"])]
        a = np.frombuffer(data, dtype=np.uint8, count=n, offset=at)
        at += n
        if n % dt.itemsize == 0 and (n or h * w) and spec["shape"] != "bytes":
            a = a.view(dt)
            f = a.size // (h * w)
            if a.size % (h * w) == 0 and spec["shape"] != "flat":
                inner = zarr.inner_frames(dims)
                if spec["shape"] == "full" and inner > 1 and f % inner == 0 and f:
                    a = a.reshape([f // inner] + [x["array"] for x in dims[1:]])
                elif spec["shape"] == "frame" and f == 1:
                    a = a.reshape(h, w)
                else:
                    a = a.reshape(f, h, w)
        yield a, spec


def declare(s, case, path):
    """steps that make the settings object "s" """
    dims = []
    for d in case["dims"]:
        dims.append(s.obj("Dimension", fields("Dimension", d)))
    kv = [("store_path", hx(path)), ("multiscale", case["multiscale"]), ("data_type", enum("DataType", case["dtype"])), ("version", enum("ZarrVersion", case["version"]))]
    want = {k: shown(v) for k, v in kv}
    want["dimensions"] = [read_back("Dimension", d) for d in case["dims"]]
    for k, cls, x in (("compression", "CompressionSettings", case["compression"]), ("s3", "S3Settings", case.get("s3"))):
        if x is None:
            want[k] = None
            if s.pick() % 2:
                kv.append((k, None))
        else:
            want[k] = read_back(cls, x)
            kv.append((k, {"var": s.obj(cls, fields(cls, x))}))
    want["custom_metadata"] = hx(case.get("custom"))
    if case.get("custom") is not None or s.pick() % 2:
        kv.append(("custom_metadata", hx(case.get("custom"))))
    refs = [{"var": v} for v in dims]
    how = s.pick() % 4
    vec = {"new": "VectorDimension", "args": [refs]}
    if how == 0:
        kv.append(("dimensions", vec))
    v = s.obj("StreamSettings", kv)
    at = {"var": v, "path": ["dimensions"]}
    if how == 1:
        s.add({"s": "call", "on": at, "method": "extend", "args": [refs]})
    elif how == 2:
        for r in refs:
            s.add({"s": "call", "on": at, "method": "append", "args": [r]})
    elif how == 3:
        s.add({"s": "set", "on": {"var": v}, "attr": "dimensions", "value": vec})
    return v, {"class": "StreamSettings", "props": want}


def fn(ctx, case):
    d = ctx.fresh()
    s3 = case.get("s3")
    path = stream.STORE if s3 else os.path.join(d, stream.STORE)
    data = stream.data_for(case)
    s = Script(case["how"])
    s.add({"s": "enums"}, ("value", ENUMS))
    # levels
    s.add({"s": "func", "name": "get_log_level"}, ("value", shown(enum("LogLevel", 1))))
    for l in case["levels"]:
        s.add({"s": "func", "name": "set_log_level", **({"kw": {"level": enum("LogLevel", l)}} if l % 2 else {"args": [enum("LogLevel", l)]})})
        s.add({"s": "func", "name": "get_log_level"}, ("value", shown(enum("LogLevel", l))))
        s.add({"s": "clevel"}, ("value", l))
    v, want = declare(s, case, path)
    s.add({"s": "get", "value": {"var": v}}, ("value", want))
    for attr, bad in case["bad"]:
        on = {"var": v, "path": ["dimensions", 0]} if attr in ("array_size_px", "kind") else {"var": v}
        s.add({"s": "set", "on": on, "attr": attr, "value": bad}, ("raises",))
    s.add({"s": "get", "value": {"var": v}}, ("value", want))
    s.add({"s": "call", "on": {"var": v}, "method": "__repr__", "args": []}, ("repr",))
    # the stream
    z = s.var()
    s.add({"s": "let", "var": z, "value": {"new": "ZarrStream", "args": [{"var": v}]}})
    s.add({"s": "call", "on": {"var": z}, "method": "is_active", "args": []}, ("value", True))
    if case["forget"] == 1:
        s.add({"s": "del", "var": v})
    elif case["forget"] == 2:
        s.add({"s": "set", "on": {"var": v}, "attr": "store_path", "value": hx("elsewhere")})
        s.add({"s": "call", "on": {"var": v, "path": ["dimensions"]}, "method": "clear", "args": []})
    mem, odd = [], 0
    at = 0
    for a, spec in arrays(case, data):
        raw, first, strides = layout(None, a, spec)
        odd += not (a.size == 0 or strides == list(np.empty(a.shape, a.dtype).strides))
        j = {"file": os.path.join(d, "mem.bin"), "off": at, "len": len(raw), "at": first, "item": a.itemsize,
             "format": FORMATS[case["dtype"]] if a.dtype != np.uint8 else "B", "shape": list(a.shape), "strides": strides}
        mem.append(raw)
        at += len(raw)
        s.add({"s": "call", "on": {"var": z}, "method": "append", "args": [{"array": j}]}, ("value", None))
    if case["not_array"]:
        s.add({"s": "call", "on": {"var": z}, "method": "append", "args": [hx("text")]}, ("raises",))
    s.add({"s": "del", "var": z})
    if s3:
        s.add({"s": "s3dump", "dir": os.path.join(d, "s3")})
    stream.write_data(d, b"".join(mem), "mem.bin")
    script = {"cmd": "python", "prefix": d + "/", "nprocs": case["nprocs"], "steps": s.steps}
    if s3:
        script["s3"] = {"buckets": [s3["bucket"]], "accounts": [dict(key=hx(s3["key"]), secret=hx(s3["secret"]), host=hx(s3["endpoint"]), https=False, buckets=[s3["bucket"]])]}
    r = ctx.run(script)
    got = {x["n"]: x for x in r["results"] if "n" in x}
    for step, e in zip(s.steps, s.expect):
        if step["s"] == "s3dump":
            continue
        x = got.get(step["n"])
        what = "%s %s" % (step["s"], {k: step[k] for k in ("attr", "method", "name", "var", "value") if k in step})
        if x is None:
            raise Violation("no result of " + what)
        if e[0] == "raises":
            if not x["raised"]:
                raise Violation("%s did not raise" % what)
            continue
        if x["raised"]:
            raise Violation("%s raised %s: %s; %s" % (what[:300], x["raised"], x.get("what"), r["err"][-500:]))
        if e[0] == "value" and x.get("value") != e[1]:
            raise Violation("%s gives %r, expected %r" % (what[:200], x.get("value"), e[1]))
        if e[0] == "repr":
            text = bytes.fromhex(x["value"])
            if s3 and len(s3["secret"]) > 5 and s3["secret"].encode() in text:
                raise Violation("the text form of the settings shows the secret key")
            for k in ["store_path"]:
                if path.encode() not in text:
                    raise Violation("the text form of the settings lacks the store path: %r" % text)
    if s3:
        p = stream.STORE + "/"
        store = zarr.MemStore({k[len(p):]: v for k, v in stream.s3_objects(r, s3["bucket"]).items() if k.startswith(p)})
    else:
        store = zarr.DirStore(path)
    zarr.check_store(case, store, data, levels=True)
    if case.get("custom") is not None:
        k = "acquire.json" if case["version"] == 3 else "0/.zattrs"
        key = [x for x in store.keys() if x.endswith("acquire.json")]
        if not any(zarr.strict_json(store.get(x), x) == zarr.strict_json(case["custom"].encode(), "custom") for x in key):
            raise Violation("the custom metadata are not in the store: %s" % key)
    lab = stream.labels(case) + ["s3" if s3 else "directory"]
    if odd:
        lab.append("arrays that are not packed")
    return {"nontrivial": case["nframes"] > 0, "labels": lab}


@st.composite
def cases(draw):
    c = draw(gen.stream_case(compression=gen.compressions_all, names=True, partitions=draw(st.sampled_from(["frames", "frames", "frames", "any"])), cap=60, max_px=400, max_chunks=16))
    n = draw(st.integers(1, 4))
    c["arrays"] = [{"shape": draw(st.sampled_from(["stack", "stack", "frame", "full", "flat", "bytes"])),
                    "order": draw(st.lists(st.integers(0, 3), min_size=1, max_size=6)),
                    "step": draw(st.lists(st.sampled_from([1, 1, 1, -1, 2, 3, -2]), min_size=1, max_size=6)),
                    "pad": draw(st.lists(st.sampled_from([0, 0, 0, 1, 2, 5]), min_size=1, max_size=6))} for _ in range(n)]
    c["how"] = draw(st.lists(st.integers(0, 11), max_size=40))
    c["levels"] = draw(st.lists(st.integers(0, 4), max_size=3))
    c["forget"] = draw(st.integers(0, 2))
    c["not_array"] = draw(st.integers(0, 3)) == 0
    c["custom"] = draw(st.sampled_from([None, None, "{}", '{"a": [1, 2.5, null], "b": {"c": "\u00e9 \\u20ac"}}', '{"k": "' + "x" * 300 + '"}']))
    c["bad"] = draw(st.lists(st.sampled_from([
        ["multiscale", "6e6f"], ["store_path", 7], ["data_type", 3], ["version", enum("DataType", 2)], ["data_type", enum("ZarrVersion", 2)],
        ["array_size_px", -1], ["array_size_px", 1 << 32], ["array_size_px", "31"], ["kind", 2], ["custom_metadata", 5],
        ["compression", {"new": "S3Settings"}], ["s3", {"new": "CompressionSettings"}], ["dimensions", None]]), max_size=3))
    word = st.text("abcdefghijklmnopqrstuvwxyz0123456789", min_size=3, max_size=12)
    c["s3"] = draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries({
        "endpoint": st.sampled_from(["http://localhost:9000", "http://10.0.0.7:80"]), "bucket": word.map(lambda x: "b" + x), "key": word.map(lambda x: "K" + x),
        "secret": st.text("QRSTUVWXYZ", min_size=1, max_size=20)})))
    return c


def settings_fn(ctx, case):
    """a history of changes to a settings object: it always reads as the model does"""
    s = Script([])
    m = {"store_path": hx(""), "multiscale": False, "data_type": enum("DataType", 0), "version": enum("ZarrVersion", 2), "custom_metadata": None, "s3": None, "compression": None}
    dims = []
    changes = refused = 0

    def model():
        p = {k: shown(v) if not isinstance(v, tuple) else read_back(*v) for k, v in m.items()}
        p["dimensions"] = [{"class": "Dimension", "props": {k: shown(v) for k, v in d.items()}} for d in dims]
        return {"class": "StreamSettings", "props": p}

    def val(x):
        return {"new": x[0], "kw": dict(fields(*x))} if isinstance(x, tuple) else x

    on = {"var": "s"}
    s.add({"s": "let", "var": "s", "value": {"new": "StreamSettings"}})
    for op in case["ops"]:
        kind = op["op"]
        if kind == "set":
            k, v = op["attr"], op["value"]
            if k in ("s3", "compression"):
                v = v and ({"s3": "S3Settings", "compression": "CompressionSettings"}[k], v)
            elif k in ("store_path", "custom_metadata"):
                v = hx(v)
            elif k in ("data_type", "version"):
                v = enum({"data_type": "DataType", "version": "ZarrVersion"}[k], v)
            m[k] = v
            s.add({"s": "set", "on": on, "attr": k, "value": val(v)})
        elif kind == "remake":  # another object with everything given by keyword
            kw = {k: val(v) for k, v in m.items() if k not in op["leave"]}
            for k in op["leave"]:
                m[k] = {"store_path": hx(""), "multiscale": False, "data_type": enum("DataType", 0), "version": enum("ZarrVersion", 2)}.get(k)
            kw["dimensions"] = {"new": "VectorDimension", "args": [[{"new": "Dimension", "kw": dict(d)} for d in dims]]}
            s.add({"s": "let", "var": "s", "value": {"new": "StreamSettings", "kw": kw}})
        elif kind == "append":
            dims.append(dict(fields("Dimension", op["dim"])))
            s.add({"s": "call", "on": {"var": "s", "path": ["dimensions"]}, "method": "append", "args": [{"new": "Dimension", "kw": dims[-1]}]})
            dims[-1] = dict(dims[-1])
        elif kind == "clear":
            dims.clear()
            s.add({"s": "call", "on": {"var": "s", "path": ["dimensions"]}, "method": "clear", "args": []})
        elif kind == "dim" and dims:
            i = op["i"] % len(dims)
            k, v = fields("Dimension", op["dim"])[op["field"]]
            dims[i][k] = v
            s.add({"s": "set", "on": {"var": "s", "path": ["dimensions", i]}, "attr": k, "value": v})
        elif kind == "bad":
            if op["attr"] in ("name", "kind", "array_size_px", "chunk_size_px", "shard_size_chunks"):
                cls, tgt = "Dimension", {"var": "s", "path": ["dimensions", 0]} if dims else None
            elif op["attr"] in ("compressor", "codec", "level", "shuffle"):
                cls, tgt = "CompressionSettings", {"var": "s", "path": ["compression"]} if m["compression"] else None
            elif op["attr"] in ("endpoint", "bucket_name", "access_key_id", "secret_access_key"):
                cls, tgt = "S3Settings", {"var": "s", "path": ["s3"]} if m["s3"] else None
            else:
                cls, tgt = "StreamSettings", on
            refused += 1
            if op["new"] or tgt is None:
                s.add({"s": "let", "var": "bad", "value": {"new": cls, "kw": {op["attr"]: op["value"]}}}, ("raises",))
            else:
                s.add({"s": "set", "on": tgt, "attr": op["attr"], "value": op["value"]}, ("raises",))
        else:
            continue
        changes += 1
        s.add({"s": "get", "value": on}, ("value", model()))
        s.add({"s": "call", "on": on, "method": "__repr__", "args": []}, ("ok",))
    r = ctx.run({"cmd": "python", "prefix": ctx.fresh() + "/", "steps": s.steps})
    got = {x["n"]: x for x in r["results"] if "n" in x}
    for step, e in zip(s.steps, s.expect):
        x = got[step["n"]]
        if e[0] == "raises":
            if not x["raised"]:
                raise Violation("%r was accepted" % step)
        elif x["raised"]:
            raise Violation("%r raised %s: %s" % (step, x["raised"], x.get("what")))
        elif e[0] == "value" and x["value"] != e[1]:
            raise Violation("the settings read %r, expected %r" % (x["value"], e[1]))
    return {"nontrivial": changes > 1, "labels": ["refused"] if refused else []}


u32 = st.one_of(st.sampled_from([0, 1, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]), st.integers(0, 2 ** 32 - 1))
u8 = st.one_of(st.integers(0, 12), st.integers(0, 255))
text = st.one_of(st.sampled_from(["", "a", "/tmp/x y", "\u00e9\u65e5", "{}", "'\"\\", "x" * 300]), st.text(max_size=12).filter(lambda t: not any(0xd800 <= ord(c) < 0xe000 for c in t)))
dim = st.fixed_dictionaries({"name": text, "type": st.integers(0, 3), "array": u32, "chunk": u32, "shard": u32})
WRONG = {
    "name": [5, None], "kind": [1, enum("DataType", 1)], "array_size_px": [-1, 1 << 32, "31"], "chunk_size_px": [-1, 1 << 32, 1 << 63], "shard_size_chunks": [-7, 1 << 40, []],
    "compressor": [0, enum("CompressionCodec", 0)], "codec": [1, enum("Compressor", 1)], "level": [-1, 256, 1000, "31"], "shuffle": [-1, 256, 1 << 32],
    "endpoint": [1], "bucket_name": [None], "access_key_id": [True], "secret_access_key": [7],
    "store_path": [7, None], "custom_metadata": [5, []], "s3": [{"new": "CompressionSettings"}, 1], "compression": [{"new": "S3Settings"}, "31"], "dimensions": [None, {"new": "Dimension"}],
    "multiscale": ["31"], "data_type": [3, enum("ZarrVersion", 2)], "version": [2, enum("DataType", 2)],
}
settings_ops = st.lists(st.one_of(
    st.one_of(st.tuples(st.just("store_path"), text), st.tuples(st.just("custom_metadata"), st.one_of(st.none(), text)), st.tuples(st.just("multiscale"), st.booleans()),
              st.tuples(st.just("data_type"), st.integers(0, 9)), st.tuples(st.just("version"), st.sampled_from([2, 3])),
              st.tuples(st.just("s3"), st.one_of(st.none(), st.fixed_dictionaries({"endpoint": text, "bucket": text, "key": text, "secret": text}))),
              st.tuples(st.just("compression"), st.one_of(st.none(), st.fixed_dictionaries({"compressor": st.sampled_from([0, 1]), "codec": st.integers(0, 2), "level": u8, "shuffle": u8})))
              ).map(lambda x: {"op": "set", "attr": x[0], "value": x[1]}),
    st.fixed_dictionaries({"op": st.just("append"), "dim": dim}),
    st.fixed_dictionaries({"op": st.just("dim"), "dim": dim, "i": st.integers(0, 7), "field": st.integers(0, 4)}),
    st.fixed_dictionaries({"op": st.just("remake"), "leave": st.lists(st.sampled_from(["store_path", "multiscale", "data_type", "version", "custom_metadata", "s3", "compression"]), max_size=2)}),
    st.sampled_from(sorted(WRONG)).flatmap(lambda a: st.fixed_dictionaries({"op": st.just("bad"), "attr": st.just(a), "value": st.sampled_from(WRONG[a]), "new": st.booleans()})),
    st.just({"op": "clear"})), min_size=1, max_size=14)


def bad_fn(ctx, case):
    """creations and appends that cannot succeed raise RuntimeError"""
    d = ctx.fresh()
    path = os.path.join(d, stream.STORE)
    c = case["cfg"]
    data = stream.data_for(c)
    s = Script(case["how"])
    s.add({"s": "func", "name": "set_log_level", "args": [enum("LogLevel", 4)]})
    before = []
    if case["kind"] == "settings":
        bad = dict(c, dims=[dict(x) for x in c["dims"]], compression=c["compression"] and dict(c["compression"]))
        w, i = case["what"], case["dim"] % len(c["dims"])
        p = path
        if w == "chunk":
            bad["dims"][i]["chunk"] = 0
        elif w == "array":
            bad["dims"][1 + i % (len(c["dims"]) - 1)]["array"] = 0
        elif w == "name":
            bad["dims"][i]["name"] = ""
        elif w == "few":
            bad["dims"] = bad["dims"][:case["dim"] % 3]
        elif w == "path":
            p = ""
        elif w == "level":
            bad["compression"] = {"compressor": 1, "codec": 1, "level": 10 + i * 40, "shuffle": 1}
        elif w == "shuffle":
            bad["compression"] = {"compressor": 1, "codec": 1, "level": 1, "shuffle": 3 + i * 40}
        elif w == "custom":
            bad["custom"] = "{nonsense"
        elif w == "file":
            p = os.path.join(stream.write_data(d, b"x", "plain"), "sub.zarr")
        elif w == "bucket":
            bad["s3"] = {"endpoint": "http://localhost:9000", "bucket": "missing", "key": "k", "secret": "s"}
        v, want = declare(s, bad, p)
        s.add({"s": "get", "value": {"var": v}}, ("value", want))
        s.add({"s": "let", "var": "z", "value": {"new": "ZarrStream", "args": [{"var": v}]}}, ("error",))
        s.add({"s": "get", "value": {"var": v}}, ("value", want))
    # a stream with good settings comes after, and works
    v, want = declare(s, c, path)
    s.add({"s": "let", "var": "z", "value": {"new": "ZarrStream", "args": [{"var": v}]}})
    fails = []
    stream.write_data(d, data or b"x")
    fb = stream.frame_bytes(c)
    if case["kind"] == "faults":
        s.add({"s": "fail", "ops": 5})
    for i in range(c["nframes"]):
        s.add({"s": "call", "on": {"var": "z"}, "method": "append", "args": [{"array": {
            "file": os.path.join(d, "data.bin"), "off": i * fb, "len": fb, "at": 0, "item": 1, "format": "B", "shape": [fb], "strides": [1]}}]},
            ("may",) if case["kind"] == "faults" else ("value", None))
    s.add({"s": "del", "var": "z"})
    r = ctx.run({"cmd": "python", "prefix": d + "/", "nprocs": c["nprocs"], "steps": s.steps, "s3": {"buckets": ["bucket"]}})
    got = {x["n"]: x for x in r["results"] if "n" in x}
    raised = 0
    for step, e in zip(s.steps, s.expect):
        x = got[step["n"]]
        what = "%s %s" % (step["s"], {k: step[k] for k in ("attr", "method", "name", "var", "value") if k in step})
        if e[0] == "error":
            if x["raised"] != "RuntimeError":
                raise Violation("creating a stream with invalid settings (%s) raised %s" % (case["what"], x["raised"]))
        elif e[0] == "may":
            if x["raised"] not in (None, "RuntimeError"):
                raise Violation("a failed append raised %s" % x["raised"])
            raised += x["raised"] is not None
        elif x["raised"]:
            raise Violation("%s raised %s: %s; %s" % (what[:300], x["raised"], x.get("what"), r["err"][-500:]))
        elif e[0] == "value" and x.get("value") != e[1]:
            raise Violation("%s gives %r, expected %r" % (what[:200], x.get("value"), e[1]))
    if case["kind"] == "faults":
        row = c["dims"][0]["chunk"] * zarr.inner_frames(c["dims"]) * (c["dims"][0]["shard"] if c["version"] == 3 else 1)
        if c["nframes"] > row and not raised:
            raise Violation("nothing could be written, and no append of %d frames (a row is %d) raised" % (c["nframes"], row))
        return {"nontrivial": raised > 0, "labels": ["faults", "v%d" % c["version"]]}
    zarr.check_store(c, zarr.DirStore(path), data)
    return {"nontrivial": True, "labels": ["settings", case["what"]]}


@st.composite
def bad_cases(draw):
    c = draw(gen.stream_case(compression=gen.compressions, cap=40, max_px=200, max_chunks=8))
    c["appends"] = None
    return {"cfg": c, "kind": draw(st.sampled_from(["settings", "settings", "faults"])), "dim": draw(st.integers(0, 5)), "how": draw(st.lists(st.integers(0, 11), max_size=40)),
            "what": draw(st.sampled_from(["chunk", "array", "name", "few", "path", "level", "shuffle", "custom", "file", "bucket"]))}


CHECK = {
    "id": "C30",
    "level": "exploration",
    "rule": "random stream settings (as C01/C02/C03, to directories and S3), each attribute given by keyword, assigned, or appended in place; frames given as arrays of any layout: axes in any order, steps of -2 to 3, padding, stacks, single frames, "
            "whole slices, flat and byte arrays, partial frames; histories of changes to settings objects with values of any size, of a wrong type or out of range; invalid settings and stores that cannot be written. Non-trivial: at least one frame, a refused creation, or an append that raised. "
            "Oracle: what was given must read back, and the independent reader must find the arrays' elements in C order.",
    "assumptions": ["pybind11 is not installed: the binding is compiled against a stand-in header that follows pybind11's documentation", "libblosc decodes correctly",
                    "the part of the code that needs minio-cpp is compiled against a stand-in header"],
    "subs": [
        Sub("arrays", cases(), fn, 2400, 30000, "py:asan"),
        Sub("settings", st.fixed_dictionaries({"ops": settings_ops}), settings_fn, 2400, 30000, "py:asan"),
        Sub("errors", bad_cases(), bad_fn, 800, 10000, "py:asan"),
    ],
}
