import errno, os
from hypothesis import strategies as st

from .. import fstree, gen, zarr, stream
from ..core import Sub, Violation
from .c08 import check_layout

OPS = {"open": 1, "mkdir": 2, "write": 4, "unlink": 8, "any": 7}
ERRNOS = [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EIO, errno.EDQUOT, errno.EROFS, errno.ENFILE, errno.EFBIG]


def script_for(ctx, case, data, faults, relief=False):
    d = ctx.fresh()
    path = os.path.join(d, stream.STORE)
    if case["existing"]:
        fstree.plant(path, [["", "dir", ""], [".zattrs", "file", "{}"], ["0/0/0", "file", "x"], ["old/a", "file", "x"], ["old/b", "dir", ""]])
    script = stream.base_script(case, d, data)
    script["steps"] = [{"s": "create", "id": 0, "settings": stream.settings(case, path)}] + stream.append_steps(case) + \
        [{"s": "faults", "rules": []}] * bool(relief) + [{"s": "destroy", "id": 0}]
    if faults:
        script["faults"] = faults
    return script, path, d


def fn(ctx, case):
    data = stream.data_for(case)
    script, path, _ = script_for(ctx, case, data, None)
    r = ctx.run(script)
    stream.require_success(case, r)
    ops = [x for x in r["results"] if x.get("s") == "ops"][0]
    total = {k: ops[k] for k in ("open", "mkdir", "write", "unlink")}
    total["any"] = ops["open"] + ops["mkdir"] + ops["write"]
    lab, nontriv = [], False
    for plan in case["plans"]:
        rules = []
        for f in plan:
            m = {"fail": 0, "short": 1}[f["mode"]]
            op = "write" if m == 1 else f["ops"]
            rules.append({"ops": OPS[op], "nth": int(f["frac"] * total[op]), "count": f["count"], "err": f["err"], "mode": m})
        # destroy returns nothing and can only log; what went wrong before it, with nothing failing during it, create or an append reports
        relief = case.get("relief", False)
        script, path, d = script_for(ctx, case, data, rules, relief)
        before = fstree.snapshot(d, exclude=(path,))
        r = ctx.run(script)
        hits = [x for x in r["results"] if x.get("s") == "ops"][0]["hits"]
        cre = [x for x in r["results"] if x.get("s") == "create"][0]
        apps = [x for x in r["results"] if x.get("s") == "append"]
        lens = stream.append_list(case)
        bad_append = [i for i, x in enumerate(apps) if not x.get("skipped") and (x["rc"] != 0 or x["bytes_out"] != lens[i])]
        reported = not cre["ok"] or bool(bad_append) or (not relief and "[ERROR]" in r["err"])
        x = fstree.diff(before, fstree.snapshot(d, exclude=(path,)))
        if x:
            raise Violation("outside the store: " + x)
        if cre["modified"] or any(x.get("modified") for x in apps):
            raise Violation("a call modified its arguments")
        if hits == 0:
            stream.require_success(case, r)
        if not reported:
            try:
                check_layout(case, path)
                zarr.check_store(case, zarr.DirStore(path), data)
            except Violation as v:
                raise Violation("%d operations failed, %s, but the store is wrong: %s" % (hits, "neither create nor an append reported it" if relief else "nothing was reported", v))
        nontriv |= hits > 0
        if hits:
            lab.append("reported by " + ("create" if not cre["ok"] else "append" if bad_append else "log only" if reported else "nobody (store complete)"))
            lab.append("several failures" if hits > 1 else "one failure")
        else:
            lab.append("fault not reached")
    return {"nontrivial": nontriv, "labels": lab + stream.labels(case)}


fault = st.fixed_dictionaries({"ops": st.sampled_from(["open", "mkdir", "write", "write", "any", "any", "unlink"]), "frac": gen.fractions,
                               "count": st.sampled_from([1, 1, 1, 2, 5, -1]), "err": st.sampled_from(ERRNOS),
                               "mode": st.sampled_from(["fail", "fail", "fail", "short"])})


@st.composite
def cases(draw, heavy=False):
    c = draw(gen.heavy_case(draw(st.sampled_from(["frames", "any"])))) if heavy else draw(gen.stream_case(cap=40, max_px=64, max_chunks=12, max_inner=4, partitions=draw(st.sampled_from(["frames", "frames", "any"])), log_levels=(0, 3)))
    if not heavy and draw(st.integers(0, 5)) == 0:
        c = draw(gen.deep_case())
    elif not heavy and draw(st.booleans()):
        d = c["dims"]
        d[0]["chunk"] = draw(st.sampled_from([1, 2]))
        row = d[0]["chunk"] * zarr.inner_frames(d)
        c["nframes"] = row * draw(st.integers(1, 5)) + draw(st.integers(0, row))
        c["appends"] = None
    c["existing"] = draw(st.booleans())
    c["relief"] = draw(st.booleans())
    c["plans"] = draw(st.lists(st.lists(fault, min_size=1, max_size=2), min_size=1, max_size=3))
    return c


CHECK = {
    "id": "C11",
    "level": "fault_enumeration",
    "rule": "random streams with file-system calls (open, mkdir, write/writev/pwrite*, unlink) failing with a random errno or storing only half of a write, once, a few "
            "times or from a point on, anywhere in the life of the stream; non-trivial: a fault was injected. Oracle: every call returns; a failure is reported, or the "
            "finished store passes the layout and whole-store oracles (in half of the cases nothing fails during destruction: then create or an append must have reported); a fault-free run reports nothing.",
    "assumptions": ["close, fsync and stat failures are not injected"],
    "technique": "property-based testing with fault injection",
    "subs": [Sub("faults", cases(), fn, 1600, 20000, "stream:asan"),
             Sub("faults_heavy", cases(True), fn, 200, 2600, "stream:asan")],
}
