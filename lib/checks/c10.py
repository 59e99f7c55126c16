import os
import numpy as np
from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Sub, Violation

KILLS = {"before": 2, "after": 3, "mid": 4}


def row_frames(case, dims):
    return dims[0]["chunk"] * zarr.inner_frames(dims) * (dims[0]["shard"] if case["version"] == 3 else 1)


def check_survivors(case, store, ref, nack, nmax, where):
    """frames acknowledged in complete rows are on disk; metadata is valid and covers them. Returns rows checked."""
    checked = 0
    dt = zarr.np_dtype(case["dtype"])
    for k, dims in enumerate(zarr.plan_levels(case)):
        n = zarr.frames_at_level(nack, k)
        row = row_frames(case, dims)
        done = n // row * row
        if not done:
            continue
        checked += 1
        key = zarr.meta_key(case, k)
        meta = zarr.strict_json(store.get(key), "%s: %s" % (where, key))
        shape = meta.get("shape")
        lo, hi = zarr.append_size(dims, done), zarr.append_size(dims, zarr.frames_at_level(nmax, k))
        if not isinstance(shape, list) or not shape or not isinstance(shape[0], int) or not lo <= shape[0] <= hi:
            raise Violation("%s: level %d says shape %r, at least %d and at most %d slices were stored" % (where, k, shape, lo, hi))
        meta["shape"][0] = hi
        (zarr.check_v2_meta if case["version"] == 2 else zarr.check_v3_meta)(case, dims, zarr.frames_at_level(nmax, k), meta, "%s: %s" % (where, key))
        want_shape = [lo] + [d["array"] for d in dims[1:]]
        # every chunk file of the finished rows must exist
        rows = zarr.chunk_rows(dims, done)
        if case["version"] == 3:
            rows = zarr.ceil_div(rows, dims[0]["shard"])
        pre = "%d/" % k if case["version"] == 2 else "data/root/%d/c" % k
        for f in zarr.expected_files(case, [dims], done):
            if f.startswith("0/" if case["version"] == 2 else "data/root/0/c") and not f.endswith((".zarray", ".zattrs")):
                f = pre + f[len("0/" if case["version"] == 2 else "data/root/0/c"):]
                if store.get(f) is None:
                    raise Violation("%s: %s is missing although %d frames of level %d were acknowledged" % (where, f, n, k))
        try:
            got = zarr.read_array(case, store, k, dims, want_shape)
        except Violation as v:
            raise Violation("%s: acknowledged data is damaged: %s" % (where, v))
        want = zarr.read_array(case, ref, k, dims, want_shape)
        h = got.shape[-2:]
        zarr.assert_equal(got.reshape((-1,) + h)[:done], want.reshape((-1,) + h)[:done], "%s: level %d, %d acknowledged frames" % (where, k, done))
        if k == 0:
            pass
    return checked


def fn(ctx, case):
    store, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)
    ref = zarr.MemStore({k: store.get(k) for k in store.keys()})
    zarr.check_store(case, ref, data)
    ops = [x for x in r["results"] if x.get("s") == "ops"][0]
    fb = stream.frame_bytes(case)
    lens = stream.append_list(case)
    total = {"open": ops["open"], "write": ops["write"], "any": ops["open"] + ops["write"] + ops["mkdir"]}
    checked = 0
    lab = []
    for kill in case["kills"]:
        d = ctx.fresh()
        path = os.path.join(d, stream.STORE)
        script = stream.base_script(case, d, data)
        steps = [{"s": "create", "id": 0, "settings": stream.settings(case, path)}] + stream.append_steps(case)
        if kill["kind"] == "step":
            i = min(len(lens), int(kill["frac"] * (len(lens) + 1)))
            steps.insert(1 + i, {"s": "kill"})
        else:
            mask = {"open": 1, "write": 4, "any": 7}[kill["ops"]]
            nth = int(kill["frac"] * (total[kill["ops"]] + 1))
            mode = KILLS[kill["kind"]]
            script["faults"] = [{"ops": mask, "nth": nth, "mode": mode}]
            if kill["kind"] == "mid":
                # a torn data write; metadata documents are small single writes, which a process death does not tear
                script["faults"][0]["path"] = "/data/root/" if case["version"] == 3 else stream.STORE + "/0/0"
        steps.append({"s": "destroy", "id": 0})
        script["steps"] = steps
        r = ctx.run(script, allow_signal=True)
        apps = [x for x in r["results"] if x.get("s") == "append"]
        for x in apps:
            if x["rc"] != 0:
                raise Violation("append failed in a run that was only killed")
        nack = sum(x["bytes_out"] for x in apps) // fb
        nmax = min(len(data), sum(lens[:len(apps) + 1])) // fb
        where = "killed %s" % kill["kind"] + (" append %d" % len(apps) if kill["kind"] == "step" else " operation %d" % nth)
        c = check_survivors(case, zarr.DirStore(path), ref, nack, nmax, where)
        checked += c
        if r["signal"]:
            lab.append("killed " + kill["kind"])
            if c:
                lab.append("rows acknowledged before the kill")
        else:
            lab.append("finished before the kill point")
    return {"nontrivial": checked > 0, "labels": lab + stream.labels(case)}


def data_files(case, nack):
    """the data files of all rows that are complete after nack frames"""
    out = []
    for k, dims in enumerate(zarr.plan_levels(case)):
        row = row_frames(case, dims)
        n = zarr.frames_at_level(nack, k) // row * row
        pre, pre0 = ("%d/" % k, "0/") if case["version"] == 2 else ("data/root/%d/c" % k, "data/root/0/c")
        if n:
            out += [pre + f[len(pre0):] for f in zarr.expected_files(case, [dims], n) if f.startswith(pre0) and not f.endswith((".zarray", ".zattrs"))]
    return out


def faulty_fn(ctx, case):
    """killed after system calls have failed: whatever the appends acknowledged before the first one that reported a failure is there"""
    store, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)
    ref = zarr.MemStore({k: store.get(k) for k in store.keys()})
    ops = [x for x in r["results"] if x.get("s") == "ops"][0]
    total = {"open": ops["open"], "write": ops["write"], "any": ops["open"] + ops["write"] + ops["mkdir"]}
    fb, lens = stream.frame_bytes(case), stream.append_list(case)
    lab, nontriv = stream.labels(case), False
    for plan in case["plans"]:
        d = ctx.fresh()
        path = os.path.join(d, stream.STORE)
        script = stream.base_script(case, d, data)
        # creation takes most of the calls of a short stream: half of the faults are for data files only
        there = "/data/root/" if case["version"] == 3 else "/%d/" % (plan["frac"] < 0.2)
        n_data = len(data_files(case, case["nframes"])) + 2
        script["faults"] = [{"path": there if f["data"] else "", "ops": {"open": 1, "write": 4, "any": 7}[f["ops"]], "nth": int(f["frac"] * (n_data if f["data"] else total[f["ops"]])), "count": f["count"], "err": 5 if f["err"] == 4 and f["count"] < 0 else f["err"], "mode": f["mode"]} for f in plan["faults"]]
        steps = [{"s": "create", "id": 0, "settings": stream.settings(case, path)}] + stream.append_steps(case)
        i = min(len(lens), int(plan["frac"] * (len(lens) + 1)))
        if plan["die"]:
            steps.insert(1 + i, {"s": "kill"})
        else:
            steps = steps[:1 + i] + [{"s": "destroy", "id": 0}]
        script["steps"] = steps
        r = ctx.run(script, allow_signal=True)
        cre = [x for x in r["results"] if x.get("s") == "create"]
        if not cre or not cre[0]["ok"]:
            lab.append("not created")
            continue
        apps = [x for x in r["results"] if x.get("s") == "append"]
        bad = [j for j, x in enumerate(apps) if x["rc"] or x["bytes_out"] != lens[j]]
        good = apps[:bad[0]] if bad else apps
        nack = sum(x["bytes_out"] for x in good) // fb
        where = "killed" if plan["die"] else "destroyed"
        where += " after %d appends (%s)" % (len(apps), "all succeeded" if not bad else "number %d failed" % bad[0])
        have = zarr.DirStore(path)
        fs = data_files(case, nack)
        for f in fs:
            if have.get(f) is None:
                raise Violation("%s: %s is missing although %d frames were acknowledged" % (where, f, nack))
            if have.get(f) != ref.get(f):
                raise Violation("%s: %s is damaged although %d frames were acknowledged" % (where, f, nack))
        if not bad and plan["die"]:
            check_survivors(case, have, ref, nack, sum(lens[:len(apps)]) // fb, where)
        nontriv |= bool(fs)
        lab.append("%s, %s, %s" % ("killed" if plan["die"] else "destroyed", "an append failed" if bad else "all appends succeeded", "rows acknowledged" if fs else "no row"))
    return {"nontrivial": nontriv, "labels": lab}


def s3_fn(ctx, case):
    """an S3 stream watched from the server between appends: what is there is what a client's death would leave"""
    d = ctx.fresh()
    store, r, data = stream.run_simple(ctx, case)
    stream.require_success(case, r)
    files = {k: store.get(k) for k in store.keys()}
    script = stream.base_script(case, d, data)
    script["s3"] = {"buckets": ["bucket"]}
    fb = stream.frame_bytes(case)
    steps = [{"s": "create", "id": 0, "settings": stream.settings(case, "store", True)}]
    aps = stream.append_steps(case)
    at = sorted(set(min(len(aps), int(f * (len(aps) + 1))) for f in case["looks"]))
    nd = 0
    for i in range(len(aps) + 1):
        if i in at:
            steps.append({"s": "s3dump", "dir": d + "/s3_%d" % nd})
            nd += 1
        if i < len(aps):
            steps.append(aps[i])
    steps += [{"s": "destroy", "id": 0}]
    script["steps"] = steps
    r = ctx.run(script)
    done, checked = 0, 0
    for x in r["results"]:
        if x.get("s") == "append":
            if x["rc"] != 0:
                raise Violation("append failed without a fault")
            done += x["bytes_out"]
        if x.get("s") != "s3dump":
            continue
        n = done // fb
        objs = {k[len("store/"):]: v for k, v in stream.s3_objects({"results": [x]}).items()}
        where = "after %d of %d frames" % (n, case["nframes"])
        for k, dims in enumerate(zarr.plan_levels(case)):
            m = zarr.frames_at_level(n, k)
            row = row_frames(case, dims)
            if m // row == 0:
                continue
            pre = "%d/" % k if case["version"] == 2 else "data/root/%d/c" % k
            pre0 = "0/" if case["version"] == 2 else "data/root/0/c"
            for f in zarr.expected_files(case, [dims], m // row * row):
                if not f.startswith(pre0) or f.endswith((".zarray", ".zattrs")):
                    continue
                f = pre + f[len(pre0):]
                if f not in objs:
                    raise Violation("%s: object %s of an acknowledged row is not on the server" % (where, f))
                checked += 1
        for f, v in objs.items():
            if f in files and (f.startswith("data/") or f.split("/")[-1].isdigit()) and v != files[f]:
                raise Violation("%s: object %s exists with %d bytes, the finished one has %d, and they differ" % (where, f, len(v), len(files[f])))
            if f not in files:
                raise Violation("%s: object %s is no part of the store" % (where, f))
    return {"nontrivial": checked > 0, "labels": ["looks=%d" % nd, "rows on the server" if checked else "no row yet"] + stream.labels(case)}


def many_rows(draw, heavy=False):
    if heavy:
        return draw(gen.heavy_case(draw(st.sampled_from(["frames", "any"]))))
    c = draw(gen.stream_case(cap=60, max_px=64, max_chunks=12, max_inner=4, partitions=draw(st.sampled_from(["frames", "frames", "any"]))))
    if draw(st.booleans()):  # many rows, so that the kill falls between them
        d = c["dims"]
        d[0]["chunk"] = draw(st.sampled_from([1, 1, 2]))
        d[0]["shard"] = draw(st.sampled_from([1, 1, 2]))
        row = row_frames(c, d)
        c["nframes"] = row * draw(st.integers(1, 6)) + draw(st.integers(0, row))
        c["appends"] = None
    return c


@st.composite
def s3_cases(draw, heavy=False):
    c = many_rows(draw, heavy)
    c["looks"] = draw(st.lists(gen.fractions, min_size=1, max_size=4))
    return c


@st.composite
def faulty_cases(draw, heavy=False):
    c = many_rows(draw, heavy)
    c["plans"] = draw(st.lists(st.fixed_dictionaries({
        "die": st.sampled_from([True, True, False]), "frac": st.one_of(st.just(1.0), gen.fractions),
        "faults": st.lists(st.fixed_dictionaries({"ops": st.sampled_from(["open", "write", "write", "any"]), "frac": gen.fractions, "data": st.booleans(), "count": st.sampled_from([1, 1, 1, 2, 5, -1]),
                                                  "err": st.sampled_from([28, 5, 24, 13, 4, 11]), "mode": st.sampled_from([0, 0, 0, 1])}), min_size=1, max_size=2)}), min_size=1, max_size=3))
    return c


@st.composite
def cases(draw, heavy=False):
    c = many_rows(draw, heavy)
    c["kills"] = draw(st.lists(st.fixed_dictionaries({"kind": st.sampled_from(["step", "before", "after", "mid"]), "ops": st.sampled_from(["open", "write", "any"]),
                                                       "frac": gen.fractions}), min_size=2, max_size=4))
    return c


CHECK = {
    "id": "C10",
    "level": "fault_enumeration",
    "rule": "random multi-row streams killed (SIGKILL) between appends and before, after and in the middle of a randomly chosen open, mkdir or write of the whole "
            "life of the stream, destruction included; non-trivial: a complete row had been acknowledged. Oracle: the acknowledged rows are read back by the "
            "independent reader (all levels), and the metadata covers them. s3: the same streams to the in-memory server, dumped between appends; every object of an "
            "acknowledged row is there and equals the finished one. faulty: system calls fail before the process dies or the stream is destroyed; the data files of all rows "
            "acknowledged before the first failed append equal those of a healthy run, and if no append failed the metadata covers them.",
    "assumptions": ["process death, not power loss: what write() accepted stays; single small metadata writes are not torn"],
    "technique": "property-based testing with injected crash points",
    "subs": [Sub("kill", cases(), fn, 1200, 16000, "stream:asan"),
             Sub("faulty", faulty_cases(), faulty_fn, 1000, 12000, "stream:asan"),
             Sub("s3", s3_cases(), s3_fn, 800, 10000, "stream:asan"),
             Sub("kill_heavy", cases(True), fn, 96, 1400, "stream:asan"),
             Sub("faulty_heavy", faulty_cases(True), faulty_fn, 96, 1400, "stream:asan"),
             Sub("s3_heavy", s3_cases(True), s3_fn, 64, 900, "stream:asan")],
}
