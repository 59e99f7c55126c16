import itertools, os
import numpy as np
from hypothesis import strategies as st

from .. import gen, zarr, stream
from ..core import Sub, Violation
from . import c14, c15

KINDS = ["*", "*", "list", "bucket_exists", "put", "create_upload", "upload_part", "complete_upload"]


# ---- sinks ------------------------------------------------------------------------------------------------------------
def sinks(ctx, case):
    r = c14.run(ctx, case, case["faults"])
    pool = [x for x in r["results"] if "pool" in x][0]["pool"]
    if not pool:
        # every connection failed its test
        return {"nontrivial": False, "labels": ["no connection pool"]}
    c14.check_end(r)
    lab, hit = [], False
    for x in (x for x in r["results"] if "sink" in x):
        inj = [q for q in x["requests"] if q[4]]
        hit |= bool(inj)
        fin = x["finalize"]
        refused = [o for o in x["ops"] if o["len"] and not o["ok"] and o["uploaded"] <= o["off"] <= o["end"]]
        where = "sink %d (failed requests: %s)" % (x["sink"], [q[0] for q in inj][:4])
        if x["changed"] and not x["equal"]:
            raise Violation("%s: the object has %d bytes, %d were written to it; first difference at %d" % (where, x["size"], x["model"], x["first_diff"]))
        if any(o["visible"] for o in x["ops"]):
            raise Violation(where + ": the object appeared before finalisation")
        if fin and fin["ok"]:
            if x["lost"]:
                raise Violation(where + ": a write failed, but finalisation succeeded")
            if x["model"] and not x["exists"]:
                raise Violation(where + ": finalisation succeeded, but there is no object")
            if x["model"] and not x["equal"]:
                raise Violation(where + ": finalisation succeeded, but the object differs")
            if x["open_uploads"]:
                raise Violation(where + ": finalisation succeeded and left an upload open")
        if not inj and (refused or (fin and not fin["ok"])):
            raise Violation(where + ": no request failed, but the sink reported a failure")
        if inj and fin:
            lab.append("reported by " + ("write" if refused else "finalisation" if not fin["ok"] else "nobody (object complete)"))
        for q in inj:
            lab.append("failed " + q[0])
    return {"nontrivial": hit, "labels": lab}


fault = st.fixed_dictionaries({"kind": st.sampled_from(["*", "put", "create_upload", "upload_part", "upload_part", "complete_upload", "list"]), "nth": st.integers(0, 6),
                               "count": st.sampled_from([1, 1, 2, -1]), "after": st.booleans(), "status": st.sampled_from([503, 0, 200, 403])})


@st.composite
def sink_cases(draw):
    c = draw(c14.cases(max_sinks=3))
    if draw(st.booleans()):  # make sure that many objects are multipart
        c["sinks"][0]["ops"].insert(0, ("next", 0, draw(st.sampled_from([c14.P, c14.P + 1, 2 * c14.P, 2 * c14.P + 5]))))
    c["faults"] = draw(st.lists(fault, min_size=1, max_size=3))
    c["stop"] = draw(st.booleans())
    return c


# ---- streams ----------------------------------------------------------------------------------------------------------
def script_for(ctx, case, data, faults, name="store"):
    d = ctx.fresh()
    script = stream.base_script(case, d, data)
    script["timeout"] = 120.0
    script["s3"] = {"buckets": ["bucket"], "faults": faults}
    steps = [dict(x, stop=case["stop"]) for x in stream.append_steps(case)]
    script["steps"] = [{"s": "create", "id": 0, "settings": stream.settings(case, name, True)}] + steps + [{"s": "s3faults", "rules": []}] * bool(case.get("relief")) + [
        {"s": "destroy", "id": 0}, {"s": "s3faults", "rules": []}, {"s": "probe"}, {"s": "s3dump", "dir": os.path.join(d, "s3")}]
    return script


def region(case, dims, key, k):
    """slices of the level's array that a data object covers, or None"""
    pre = "%d/" % k if case["version"] == 2 else "data/root/%d/c" % k
    if not key.startswith(pre):
        return None
    parts = key[len(pre):].split("/")
    if len(parts) != len(dims) or not all(p.isdigit() for p in parts):
        return None
    m = [d["chunk"] * (d["shard"] if case["version"] == 3 else 1) for d in dims]
    return tuple(slice(int(p) * s, (int(p) + 1) * s) for p, s in zip(parts, m))


def check_objects(case, objs, ref, nack, nmax, exact):
    """every object that exists is complete"""
    store = zarr.MemStore(objs)
    n = 0
    for k, dims in enumerate(zarr.plan_levels(case)):
        full = zarr.frames_at_level(case["nframes"], k)
        shape = [zarr.append_size(dims, full)] + [d["array"] for d in dims[1:]]
        keys = [x for x in objs if region(case, dims, x, k) is not None]
        if not keys:
            continue
        try:
            got = zarr.read_array(case, store, k, dims, shape)
        except Violation as v:
            raise Violation("level %d: an object exists, but it is damaged: %s" % (k, v))
        n += len(keys)
        if not exact:
            continue
        want = zarr.read_array(case, ref, k, dims, shape)
        mask = np.zeros(shape, bool)
        for x in keys:
            mask[region(case, dims, x, k)] = True
        u = "u%d" % got.dtype.itemsize
        a, b = got.view(u), want.view(u)
        flat = lambda z: z.reshape((-1,) + z.shape[-2:])
        # frames acknowledged before the failure: exactly there; later ones: there or never written
        row = dims[0]["chunk"] * zarr.inner_frames(dims)
        done = zarr.frames_at_level(nack, k) // row * row
        bad = flat(mask) & (flat(a) != flat(b))
        late = bad.copy()
        late[:done] = False
        late &= flat(a) != 0
        early = bad[:done]
        if early.any():
            i = tuple(int(z) for z in np.argwhere(early)[0])
            raise Violation("level %d: an object exists that lacks acknowledged data: frame %d of %d, pixel %s" % (k, i[0], done, i[1:]))
        if late.any():
            i = tuple(int(z) for z in np.argwhere(late)[0])
            raise Violation("level %d: an object holds wrong data: frame %d pixel %s" % (k, i[0], i[1:]))
    return n


def streams(ctx, case):
    data = stream.data_for(case)
    r = ctx.run(script_for(ctx, case, data, []))
    stream.require_success(case, r)
    dump = stream.s3_dump(r)
    clean = {k[len("store/"):]: v for k, v in stream.s3_objects(r).items()}
    ref = zarr.MemStore(clean)
    count = {}
    for o in dump["ops"]:
        count[o[0]] = count.get(o[0], 0) + 1
    count["*"] = len(dump["ops"])
    lens, fb = stream.append_list(case), stream.frame_bytes(case)
    lab, nontriv = [], False
    for plan in case["plans"]:
        rules = [{"kind": f["kind"], "nth": int(f["frac"] * count.get(f["kind"], 1)), "count": f["count"], "after": f["after"], "status": f["status"]} for f in plan]
        r = ctx.run(script_for(ctx, case, data, rules))
        dump = stream.s3_dump(r)
        hits = [o for o in dump["ops"] if o[5]]
        cre = [x for x in r["results"] if x.get("s") == "create"][0]
        apps = [x for x in r["results"] if x.get("s") == "append"]
        bad = [i for i, x in enumerate(apps) if not x.get("skipped") and (x["rc"] != 0 or x["bytes_out"] != lens[i])]
        # destroy returns nothing and can only log; what went wrong before it, with nothing failing during it, create or an append reports
        reported = not cre["ok"] or bool(bad) or (not case.get("relief") and "[ERROR]" in r["err"])
        what = "failed requests: %s" % [(o[0], o[1]) for o in hits][:3]
        if dump["protocol_errors"]:
            raise Violation("%s: a request a server would refuse: %s" % (what, dump["protocol_errors"][:3]))
        p = [x for x in r["results"] if x.get("s") == "probes"][0]["list"][0]
        if p["clients"] or p["threads"] != 1:
            raise Violation("%s: %d connections and %d threads left at the end" % (what, p["clients"], p["threads"] - 1))
        objs = {k[len("store/"):]: v for k, v in stream.s3_objects(r).items()}
        if not set(objs) <= set(clean):
            raise Violation("%s: unexpected objects %s" % (what, sorted(set(objs) - set(clean))[:5]))
        if not hits:
            stream.require_success(case, r)
        # the first failing call ends the acknowledged prefix
        good = apps[:bad[0]] if bad else apps
        nack = sum(x["bytes_out"] for x in good if not x.get("skipped")) // fb if cre["ok"] else 0
        n = check_objects(case, objs, ref, nack, case["nframes"], case["stop"] or not bad)
        if not reported:
            if dump["uploads"]:
                raise Violation("%s: no call reported it, but an upload is open" % what)
            if objs != clean:
                k = [x for x in sorted(clean) if objs.get(x) != clean[x]][0]
                raise Violation("%s: no call reported it, but %s is %s" % (what, k, "missing" if k not in objs else "wrong"))
        nontriv |= bool(hits)
        if hits:
            lab += ["failed " + k for k in {o[0] for o in hits}]
            lab.append("reported by " + ("create" if not cre["ok"] else "append" if bad else "log only" if reported else "nobody (store complete)"))
            if n:
                lab.append("objects of the failed store checked")
        else:
            lab.append("fault not reached")
    return {"nontrivial": nontriv, "labels": lab + ["v%d" % case["version"], "multiscale" if case["multiscale"] else "one level", "threads=%d" % case["nprocs"]]}


sfault = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "frac": gen.fractions, "count": st.sampled_from([1, 1, 1, 2, 5, -1]), "after": st.booleans(), "status": st.sampled_from([503, 0, 200, 403])})


@st.composite
def stream_cases(draw, large):
    if large == "heavy":
        c = draw(gen.heavy_case(draw(st.sampled_from(["frames", "any"]))))
    elif large:
        c = draw(c15.large())
    else:
        c = draw(gen.stream_case(cap=40, max_px=64, max_chunks=12, max_inner=4, partitions=draw(st.sampled_from(["frames", "frames", "any"])), log_levels=(0, 3)))
        if draw(st.booleans()):
            d = c["dims"]
            d[0]["chunk"] = draw(st.sampled_from([1, 2]))
            row = d[0]["chunk"] * zarr.inner_frames(d)
            c["nframes"] = row * draw(st.integers(1, 5)) + draw(st.integers(0, row))
            c["appends"] = None
    c["stop"] = draw(st.booleans())
    c["log_level"] = 3
    c["relief"] = draw(st.booleans())
    c["plans"] = draw(st.lists(st.lists(sfault, min_size=1, max_size=2), min_size=1, max_size=2 if large else 3))
    return c


CHECK = {
    "id": "C16",
    "level": "fault_enumeration",
    "rule": "random write scripts on S3 sinks, and random streams to S3, with requests of every kind failing before or after the server applied them, once, a few times or "
            "from a point on; non-trivial: a request failed. Oracle: every call returns, connections are all back, an object that exists holds everything that was written "
            "to it (byte model for sinks, fault-free store for streams), a success report means a complete object or store (in half of the streams no request fails during destruction: then create or an append must have reported), nothing fails without cause.",
    "assumptions": ["minio-cpp is replaced by an in-memory S3 server with the same interface", "a failed request returns an error response; connections do not hang"],
    "technique": "model-based property-based testing with fault injection",
    "concurrent": True,
    "subs": [Sub("sinks", sink_cases(), sinks, 800, 10000, "internal:asan"),
             Sub("streams", stream_cases(False), streams, 1000, 14000, "stream:asan"),
             Sub("large", stream_cases(True), streams, 120, 1600, "stream:asan"),
             Sub("heavy", stream_cases("heavy"), streams, 100, 1400, "stream:asan")],
}
