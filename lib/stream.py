"""Turns a generated stream case into a worker script, runs it and returns the store."""
import os

from . import zarr
from .core import Violation, check_process
from .zarr import DirStore, MemStore, np_dtype

STORE = "store.zarr"


def hx(s):
    if s is None:
        return None
    return (s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")).hex()


def settings(case, path, s3=False):
    s = {"store_path": hx(path), "custom_metadata": hx(case.get("custom")),
         "s3": {"endpoint": hx("http://localhost:9000"), "bucket": hx("bucket"), "key": hx("key"), "secret": hx("secret")} if s3 else None,
         "compression": case["compression"],
         "dims": [dict(d, name=hx(d["name"])) for d in case["dims"]],
         "multiscale": case["multiscale"], "dtype": case["dtype"], "version": case["version"], "dim_api": case.get("dim_api", False)}
    return s


def frame_bytes(case):
    return np_dtype(case["dtype"]).itemsize * case["dims"][-1]["array"] * case["dims"][-2]["array"]


def append_list(case):
    fb = frame_bytes(case)
    return case["appends"] if case.get("appends") is not None else [fb] * case["nframes"]


def append_steps(case, sid=0, base=0, extra=None):
    steps, off = [], base
    for i, n in enumerate(append_list(case)):
        steps.append({"s": "append", "id": sid, "off": off, "len": n, "mis": (case.get("mis", 0) * (i + 1)) % 8})
        off += n
    return steps


def total_bytes(case):
    return sum(append_list(case))


def write_data(dir_, data, name="data.bin"):
    p = os.path.join(dir_, name)
    with open(p, "wb") as f:
        f.write(data)
    os.chmod(p, 0o644)
    return p


def base_script(case, dir_, data):
    c = {"cmd": "script", "data": write_data(dir_, data), "prefix": dir_ + "/", "nprocs": case.get("nprocs", 4),
         "log_level": case.get("log_level", 1)}
    if "jitter" in case:
        c["jitter"] = case["jitter"]
    return c


def data_for(case):
    extra = total_bytes(case) - case["nframes"] * frame_bytes(case)
    return zarr.make_data(case, max(0, extra))


def run_simple(ctx, case, s3=False, target=None, dir_=None, store=None, tail_steps=(), script_extra=None):
    """create, append everything, destroy. Returns (store, response, data)."""
    d = dir_ or ctx.fresh()
    data = data_for(case)
    script = base_script(case, d, data)
    path = store if store is not None else (STORE if s3 else os.path.join(d, STORE))
    steps = [{"s": "create", "id": 0, "settings": settings(case, path, s3)}] + append_steps(case) + [{"s": "destroy", "id": 0}]
    if s3:
        script["s3"] = {"buckets": ["bucket"]}
        steps.append({"s": "s3dump", "dir": os.path.join(d, "s3")})
    steps += list(tail_steps)
    script["steps"] = steps
    if script_extra:
        script.update(script_extra)
    r = ctx.run(script, target=target)
    return (s3_store(r, STORE) if s3 else DirStore(path)), r, data


def s3_dump(r):
    for x in r["results"]:
        if x.get("s") == "s3dump":
            return x
    return None


def s3_objects(r, bucket="bucket"):
    d = {}
    for o in s3_dump(r)["objects"]:
        if o["bucket"] == bucket:
            with open(o["file"], "rb") as f:
                d[bytes.fromhex(o["key"]).decode("utf-8", "surrogateescape")] = f.read()
    return d


def s3_store(r, prefix):
    objs = s3_objects(r)
    p = prefix + "/"
    return MemStore({k[len(p):]: v for k, v in objs.items() if k.startswith(p)})


def require_success(case, r):
    """every call of a healthy run must succeed and account for its bytes"""
    apps = [x for x in r["results"] if x.get("s") == "append"]
    cre = [x for x in r["results"] if x.get("s") == "create"]
    for x in cre:
        if not x["ok"]:
            raise Violation("creation with valid settings failed: " + r["err"][-600:])
        if x["modified"]:
            raise Violation("creation modified the caller's settings")
    lens = append_list(case)
    if len(apps) != len(lens):
        raise Violation("%d appends ran, %d expected" % (len(apps), len(lens)))
    for n, x in zip(lens, apps):
        if x.get("skipped"):
            raise Violation("stream missing")
        if x["rc"] != 0:
            raise Violation("append of %d bytes returned %d: %s" % (n, x["rc"], r["err"][-600:]))
        if x["bytes_out"] != n:
            raise Violation("append of %d bytes reported %d written" % (n, x["bytes_out"]))
        if x["modified"]:
            raise Violation("append modified the caller's buffer")
    if "[ERROR]" in r["err"] or "[ERROR]" in r["out"]:
        i = r["err"].find("[ERROR]")
        raise Violation("an error was logged in a healthy run: " + r["err"][max(0, i - 30):i + 300])


def nontrivial(case):
    """a case counts as non-trivial when frames were streamed over a grid that needs more than one chunk"""
    from math import prod
    return case["nframes"] > 0 and (prod(zarr.n_chunks(case["dims"])) > 1 or zarr.chunk_rows(case["dims"], case["nframes"]) > 1)


def labels(case):
    d = case["dims"]
    out = ["v%d" % case["version"], zarr.DTYPES[case["dtype"]], "ndims=%d" % len(d), "data=" + case["data"]["kind"]]
    c = zarr.effective_compression(case)
    out.append("compressed" if c else "raw")
    if case["multiscale"]:
        out.append("multiscale")
        out.append("levels>=3" if len(zarr.plan_levels(case)) >= 3 else "levels=2")
    n = case["nframes"]
    if n == 0:
        out.append("no frames")
        return out
    fpr = d[0]["chunk"] * zarr.inner_frames(d)
    if n % fpr:
        out.append("partial chunk row at end")
    if zarr.chunk_rows(d, n) > 1:
        out.append("several chunk rows")
    if any(x["array"] % x["chunk"] for x in d[1:]):
        out.append("ragged chunks")
    if any(x["chunk"] > x["array"] for x in d[1:]):
        out.append("chunk larger than array")
    if n % zarr.inner_frames(d):
        out.append("partial slice at end")
    if case["version"] == 3:
        if d[0]["shard"] > 1:
            out.append("multi-layer shards")
        if zarr.chunk_rows(d, n) % d[0]["shard"]:
            out.append("unfinished shard at end")
        if any(zarr.ceil_div(x["array"], x["chunk"]) % x["shard"] for x in d[1:]):
            out.append("ragged shards")
    if case.get("appends") is not None:
        fb = frame_bytes(case)
        if any(a % fb for a in case["appends"]):
            out.append("partial-frame appends")
        if any(a > fb for a in case["appends"]):
            out.append("multi-frame appends")
        if 0 in case["appends"]:
            out.append("empty appends")
    return out
