import copy, json, os
from hypothesis import strategies as st

from .. import fstree, gen, zarr, stream
from ..core import Sub, Violation
from .c08 import check_layout

WS = " \t\n\v\f\r"


# ---- model: the documented constraints -----------------------------------------------------------------------------
def strip_comments(s):
    """JSON text with // and /* */ comments removed (outside strings)"""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s.startswith("//", i):
            while i < n and s[i] not in "\n\r":
                i += 1
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise ValueError("comment")
            i = j + 2
            out.append(" ")
        else:
            out.append(c)
            i += 1
    return "".join(out)


def json_ok(s):
    try:
        s.encode("utf-8")

        def bad(x):
            raise ValueError(x)
        json.loads(strip_comments(s), parse_constant=bad)
        return True
    except ValueError:
        return False


def utf8_ok(s):
    try:
        s.encode("utf-8")
        return True
    except UnicodeEncodeError:
        return False


def blank(s):
    return s is None or not s.strip(WS)


def invalid(s, env):
    """why the settings must be refused, or None"""
    if s is None:
        return "settings NULL"
    if s["version"] not in (2, 3):
        return "version"
    if blank(s["path"]):
        return "store path"
    if s["s3"] is not None:
        z = s["s3"]
        for k in ("endpoint", "key", "secret"):
            if blank(z[k]):
                return "s3 " + k
        if z["bucket"] is None or not 3 <= len(z["bucket"].strip(WS).encode("utf-8")) <= 63:
            return "s3 bucket"
        if z["bucket"].strip(WS) not in env["buckets"]:
            return "s3 bucket missing"
    elif not env["parent_ok"]:
        return "parent directory"
    if not 0 <= s["dtype"] <= 9:
        return "data type"
    c = s["compression"]
    if c is not None:
        if c["compressor"] not in (0, 1):
            return "compressor"
        if c["codec"] not in (0, 1, 2) or (c["compressor"] == 1 and c["codec"] == 0):
            return "codec"
        if c["level"] > 9:
            return "level"
        if c["shuffle"] > 2:
            return "shuffle"
    if s["custom"] and not json_ok(s["custom"]):
        return "custom metadata"
    d = s["dims"]
    if d is None:
        return "dimensions NULL"
    n = len(d) if s["dim_count"] is None else s["dim_count"]
    if n < 3:
        return "too few dimensions"
    d = d[:n]
    if d[-1]["type"] != 0 or d[-2]["type"] != 0:
        return "x or y is not spatial"
    for i, x in enumerate(d):
        if blank(x["name"]) or not utf8_ok(x["name"]):
            return "dimension name"
        if x["type"] not in (0, 1, 2, 3):
            return "dimension type"
        if i and x["array"] == 0:
            return "array size"
        if x["chunk"] == 0:
            return "chunk size"
        if s["version"] == 3 and x["shard"] == 0:
            return "shard size"
    return None


# ---- generator -----------------------------------------------------------------------------------------------------
def set_(path, value):
    return ["set", path, value]


def mutation(draw, s):
    """one edit of the settings: [op, path, value]"""
    n = len(s["dims"])
    i = draw(st.integers(0, n - 1))
    S = st.sampled_from
    kind = draw(S(["version", "path", "parent", "dtype", "compression", "compression", "custom", "custom", "dims", "dim_count", "xy", "name", "name", "type",
                   "array", "chunk", "shard", "shard", "s3", "s3", "s3", "null", "big"]))
    if kind == "version":
        return set_(["version"], draw(S([-1, 0, 1, 4, 5, 100, 2 ** 31 - 1, 2, 3])))
    if kind == "path":
        return set_(["path"], draw(S([None, "", " ", "\t\n ", "\v\f\r"])))
    if kind == "parent":
        return ["parent", draw(S(["missing", "file", "readonly", "writable", "linkdir", "linkmissing"])), None]
    if kind == "dtype":
        return set_(["dtype"], draw(S([-1, 10, 11, 255, 2 ** 31 - 1, 0, 9])))
    if kind == "compression":
        c = {"compressor": draw(S([0, 1, 1, 1])), "codec": draw(S([1, 2])), "level": draw(st.integers(0, 9)), "shuffle": draw(st.integers(0, 2))}
        f, v = draw(S([("compressor", 2), ("compressor", -1), ("codec", 0), ("codec", 3), ("codec", -1), ("codec", 77), ("level", 10), ("level", 255), ("level", 100),
                       ("shuffle", 3), ("shuffle", 255), ("level", 0), ("level", 9), ("shuffle", 0), ("shuffle", 2), ("codec", 1)]))
        c[f] = v
        return set_(["compression"], c)
    if kind == "custom":
        return set_(["custom"], draw(S(["{", "nul", "{'a':1}", "[1,]", "  ", "{\"a\":1}x", "\"\udcff\"", "\udcff", "{\"a\"}", "1 2", "NaN", "-", "\"a", "[", "{\"a\":1,}", "tru",
                                        "{\"a\":\"\t\"}" , "01", "1.", "/* open", "\"\\ud800\"x",
                                        "{}", "[]", "null", "1", "\"x\"", "  {\"a\": [1, 2]} ", "// c\n{\"a\":1}", "{\"a\":1} /* c */", ""])))
    if kind == "dims":
        return set_(["dims"], None)
    if kind == "dim_count":
        return set_(["dim_count"], draw(st.integers(0, n)))
    if kind == "xy":
        return set_(["dims", draw(S([n - 1, n - 2])), "type"], draw(S([1, 2, 3, 4])))
    if kind == "name":
        return set_(["dims", i, "name"], draw(S([None, "", "  ", "\t", "\udcff", "a\udc80", "\udce2\udc82", "ok", " padded ", "\u00e9"])))
    if kind == "type":
        return set_(["dims", i, "type"], draw(S([-1, 4, 5, 100, 2 ** 31 - 1])))
    if kind == "array":
        return set_(["dims", draw(S([i, i, 0])), "array"], 0)
    if kind == "chunk":
        return set_(["dims", i, "chunk"], 0)
    if kind == "shard":
        return set_(["dims", i, "shard"], 0)
    if kind == "s3":
        f = draw(S(["endpoint", "key", "secret", "bucket", "bucket", "none"]))
        z = {"endpoint": "http://localhost:9000", "bucket": "bucket", "key": "key", "secret": "secret"}
        if f == "bucket":
            z["bucket"] = draw(S([None, "", "  ", "ab", " ab ", "abc", "a" * 63, "a" * 64, " " + "b" * 63 + "\n", "c" * 65, "missing", "  bucket\t", "é" * 31, "é" * 32]))
        elif f != "none":
            z[f] = draw(S([None, "", " ", "\n\t", " padded "]))
        return set_(["s3"], z)
    if kind == "null":
        return ["null", None, None]
    return set_(["dims", 0, "array"], draw(S([0, 1, 2 ** 32 - 1])))


@st.composite
def cases(draw):
    c = draw(gen.stream_case(cap=12, max_px=64, max_chunks=8, max_inner=4, small=True))
    s = {"version": c["version"], "path": "store.zarr", "s3": None, "dtype": c["dtype"], "compression": c["compression"], "custom": None,
         "dims": c["dims"], "dim_count": None, "multiscale": c["multiscale"]}
    k = draw(st.sampled_from([0, 1, 1, 1, 1, 1, 2, 2, 3]))
    return {"settings": s, "muts": [mutation(draw, s) for _ in range(k)], "frames": c["nframes"] % 9, "data": c["data"],
            "existing": draw(st.sampled_from(["no", "no", "tree", "store", "file"])), "pad": draw(st.sampled_from(["", "", " ", "\n\t"])),
            "log_level": draw(st.sampled_from([0, 1, 3, 3]))}


def fn(ctx, case):
    s = copy.deepcopy(case["settings"])
    parent = None
    for op, path, value in case["muts"]:
        if op == "null":
            s = None
            break
        if op == "parent":
            parent = path
            continue
        x = s
        ok = True
        for p in path[:-1]:
            x = x[p] if x is not None and not (isinstance(x, list) and p >= len(x)) else None
        if x is not None:
            x[path[-1]] = value
    d = ctx.fresh()
    work = os.path.join(d, "w")
    fstree.plant(work, [["", "dir", ""], ["sib/f", "file", "x"]])
    pdir = work
    if parent:
        pdir = os.path.join(work, "p")
        if parent == "file":
            fstree.plant(work, [["p", "file", "x"]])
        elif parent in ("readonly", "writable"):
            fstree.plant(work, [["p", "dir", ""]])
        elif parent == "linkdir":
            fstree.plant(work, [["real", "dir", ""], ["p", "link", "real"]])
        elif parent == "linkmissing":
            fstree.plant(work, [["p", "link", "nowhere"]])
    store = os.path.join(pdir, "store.zarr")
    env = {"buckets": ["bucket", "abc", "a" * 63, "b" * 63, "é" * 31], "parent_ok": parent in (None, "writable", "linkdir")}
    if os.path.isdir(pdir):
        if case["existing"] == "tree":
            fstree.plant(store, [["", "dir", ""], ["0/0/0", "file", "precious"], [".zattrs", "file", "{}"], ["l", "link", "../sib"]])
        elif case["existing"] == "file":
            fstree.plant(store, [["", "file", "precious"]])
    if parent == "readonly":
        os.chmod(pdir, 0o555)
    steps = []
    path = None
    model = None
    if s is not None:
        why = invalid(s, env)
        n = None if s["dims"] is None else len(s["dims"]) if s["dim_count"] is None else s["dim_count"]
        model = {"version": s["version"], "dtype": s["dtype"], "dims": s["dims"] if s["dims"] is None else s["dims"][:n], "compression": s["compression"],
                 "multiscale": s["multiscale"], "nframes": case["frames"], "data": case["data"], "custom": s["custom"], "nprocs": 4,
                 "log_level": case["log_level"], "appends": None}
        if s["path"] is not None:
            path = s["path"] if blank(s["path"]) else case["pad"] + ("pre/store.zarr" if s["s3"] is not None else store) + case["pad"]
        z = stream.settings(dict(model, dims=s["dims"] or []), path)
        z["dims"] = None if s["dims"] is None else [dict(x, name=stream.hx(x["name"])) for x in s["dims"]]
        z["dim_count"] = n if s["dims"] is not None else (3 if s["dim_count"] is None else s["dim_count"])
        z["s3"] = None if s["s3"] is None else {k: stream.hx(v) for k, v in s["s3"].items()}
    else:
        why, z = "settings NULL", None
    data = b"" if why else stream.data_for(model)
    script = {"cmd": "script", "data": stream.write_data(d, data), "prefix": d + "/", "nprocs": 4, "log_level": case["log_level"],
              "s3": {"buckets": env["buckets"]}}
    pre = None
    if case["existing"] == "store" and os.path.isdir(pdir) and parent != "readonly":
        pre = dict(case["settings"], nframes=0, appends=None, data=case["data"], log_level=4)
        ctx.run({"cmd": "script", "data": stream.write_data(d, b""), "prefix": d + "/", "log_level": 4,
                 "steps": [{"s": "create", "id": 1, "settings": stream.settings(pre, store)}, {"s": "destroy", "id": 1}]})
        stream.write_data(d, data)
    if parent == "readonly":
        os.chmod(pdir, 0o555)
    before = fstree.snapshot(d)
    steps.append({"s": "create", "id": 0, "settings": z})
    if not why:
        steps += stream.append_steps(model)
    else:
        steps.append({"s": "append", "id": 0, "len": 0, "null_ok": True})
    steps += [{"s": "destroy", "id": 0}, {"s": "s3dump", "dir": os.path.join(d, "s3")}]
    script["steps"] = steps
    r = ctx.run(script)
    cre = [x for x in r["results"] if x.get("s") == "create"][0]
    if cre["modified"]:
        raise Violation("creation modified the caller's settings")
    if why:
        if cre["ok"]:
            raise Violation("invalid settings were accepted (%s)" % why)
        if "[ERROR]" not in r["err"]:
            raise Violation("settings were refused without logging an error (%s)" % why)
        app = [x for x in r["results"] if x.get("s") == "append"][0]
        if app["rc"] == 0:
            raise Violation("append to a NULL stream succeeded")
        after = fstree.snapshot(d, exclude=(os.path.join(d, "s3"),))
        x = fstree.diff(before, after)
        if x:
            raise Violation("refused settings (%s) changed the file system: %s" % (why, x))
        if stream.s3_dump(r)["objects"] or stream.s3_dump(r)["uploads"]:
            raise Violation("refused settings (%s) left objects" % why)
    else:
        if not cre["ok"]:
            raise Violation("valid settings were refused: " + r["err"][-500:])
        stream.require_success(model, r)
        if s["s3"] is not None:
            p = "pre/store.zarr/"
            objs = stream.s3_objects(r, s["s3"]["bucket"].strip(WS))
            st_ = zarr.MemStore({k[len(p):]: v for k, v in objs.items() if k.startswith(p)})
            if set(st_.keys()) != zarr.expected_files(model):
                raise Violation("accepted settings give objects %s" % sorted(set(st_.keys()) ^ zarr.expected_files(model))[:5])
            x = fstree.diff(before, fstree.snapshot(d, exclude=(os.path.join(d, "s3"),)))
            if x:
                raise Violation("an S3 stream changed the file system: " + x)
        else:
            check_layout(model, os.path.realpath(store))
            st_ = zarr.DirStore(store)
        zarr.check_store(model, st_, data)
    return {"nontrivial": bool(case["muts"]), "labels": ["rejected: " + why if why else "accepted", "existing=" + case["existing"]] + (["mutated but valid"] if case["muts"] and not why else [])}


CHECK = {
    "id": "C09",
    "level": "exploration",
    "rule": "valid settings with 0-3 random edits (NULL pointers, blank and invalid strings, out-of-range enumerators, zero sizes, bad parents, S3 settings), with and "
            "without an existing store; non-trivial: at least one edit. Oracle: model of the documented constraints; refused: snapshot of the file system and of the "
            "server unchanged and an error logged; accepted: the store passes the whole-store oracle.",
    "assumptions": ["a directory that only the operating system refuses to write to (owner or ACL, not mode bits) is C11's subject",
                    "store paths ending in a separator or in '.' and dangling links at the store path are outside the domain"],
    "subs": [Sub("settings", cases(), fn, 5000, 60000, "stream:asan")],
}
