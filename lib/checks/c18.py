import os

from hypothesis import strategies as st

from ..core import Sub, Violation

GIB = 1 << 30
FAULTS = st.fixed_dictionaries({"ops": st.just(4), "nth": st.integers(0, 6), "count": st.sampled_from([1, 1, 2, -1]), "mode": st.sampled_from([0, 0, 1, 1, 1]),
                                "err": st.sampled_from([5, 28, 27, 4])}).map(  # EIO, ENOSPC, EFBIG, EINTR
    lambda f: dict(f, count=2) if f["err"] == 4 and f["count"] < 0 else f)  # interrupted calls may be repeated until they are not
NAMES = st.sampled_from(["f", "a file", "-x", "\u00e9", "x" * 255, ".hidden", "a\nb"])
OBSTACLES = ["none"] * 12 + ["directory", "no parent", "read-only", "parent is a file", "symlink", "name too long"]


def place(ctx, case):
    """creates what is in the way; returns the path and whether it can be opened"""
    d = ctx.fresh()
    os.chmod(d, 0o755)
    p = os.path.join(d, case["name"])
    o = case["obstacle"]
    if o == "directory":
        os.mkdir(p)
        os.chown(p, 61234, 61234)
    elif o == "no parent":
        p = os.path.join(d, "missing", "f")
    elif o == "parent is a file":
        open(os.path.join(d, "file"), "w").close()
        p = os.path.join(d, "file", "f")
    elif o == "read-only":
        with open(p, "w") as f:
            f.write("x")
        os.chmod(p, 0o444)
    elif o == "symlink":
        t = os.path.join(d, "target")
        open(t, "w").close()
        os.chown(t, 61234, 61234)
        os.symlink(t, p)
    elif o == "name too long":
        p = os.path.join(d, "y" * 256)
    return d, p, o in ("none", "symlink")


def run(ctx, case, kind):
    d, p, openable = place(ctx, case)
    msg = {"cmd": "files", "kind": kind, "path": os.fsencode(p).hex(), "prefix": d, "ops": case["ops"], "writers": case.get("writers", 1),
           "faults": case.get("faults", []), "timeout": 120.0, "drop": case.get("drop", False), "log_level": 4}
    if case.get("jitter"):
        msg["jitter"] = case["jitter"]
    if case["initial"] and case["obstacle"] in ("none", "symlink"):
        msg["initial"] = case["initial"]
        if case["obstacle"] == "symlink":
            os.unlink(os.path.join(d, "target"))
    r = ctx.run(msg)
    return r, openable


def fn(ctx, case):
    r, openable = run(ctx, case, "vec")
    res = r["results"]
    opened = [x for x in res if "open" in x]
    if not opened:
        raise Violation("no result")
    opened = opened[0]
    if not openable:
        if opened["open"]:
            raise Violation("the file cannot be opened (%s), but no failure was reported" % case["obstacle"])
        return {"nontrivial": True, "labels": ["cannot be opened: " + case["obstacle"]]}
    if not opened["open"]:
        if opened["hits"]:
            return {"nontrivial": False, "labels": ["open failed by injection"]}
        raise Violation("the file could not be opened: %r" % opened["what"])
    lab = set()
    nontriv = False
    for x in res:
        if "op" not in x:
            continue
        flat = x["par"] if "par" in x else [x]
        spec = [j for t in case["ops"][x["op"]] for j in t] if "par" in x else [case["ops"][x["op"]]]
        for y, j in zip(flat, spec):
            n = sum(a * b for a, b in j["lens"])
            where = "op %d: %d buffers, %d bytes at %d" % (x["op"], sum(b for _, b in j["lens"]), n, j["off"])
            if "threw" in y:
                raise Violation("%s: exception %s" % (where, y["threw"]))
            if not y["unchanged"]:
                raise Violation("%s: the buffers were modified" % where)
            possible = j["off"] + n < 1 << 63
            if not y["ok"] and not x["hits"] and j["off"] + n < 1 << 62:
                raise Violation("%s: reported as failed without a cause" % where)
            if y["ok"] and n and not possible:
                raise Violation("%s: reported as written" % where)
            if y.get("bad"):
                raise Violation("%s (%s, %d failed or short system calls): %s" % (where, "success" if y["ok"] else "failure reported", x["hits"], y["bad"]))
            nontriv |= n > 0
            for flag, name in ((n == 0, "nothing to write"), (sum(b for _, b in j["lens"]) > 1024, "more than 1024 buffers"), (j["off"] >= 4 * GIB, "beyond 4 GiB"),
                               (x["hits"] and y["ok"], "success in spite of faults"), (not y["ok"], "failure reported"), ("par" in x, "several threads")):
                if flag:
                    lab.add(name)
    end = [x for x in res if x.get("end")]
    if end and end[0]["bad"]:
        raise Violation("at the end: " + end[0]["bad"])
    if not end and not any("abandoned" in x for x in res):
        raise Violation("no result")
    if case["initial"]:
        lab.add("existing file")
    return {"nontrivial": nontriv, "labels": sorted(lab)}


small = st.integers(0, 40)
length = st.one_of(small, small, st.sampled_from([0, 1, 511, 512, 4095, 4096, 4097, 8192, 65536, 200000]), st.integers(0, 20000))


@st.composite
def buffers(draw):
    out = []
    for _ in range(draw(st.integers(0, 5))):
        n = draw(length)
        k = draw(st.sampled_from([1, 1, 1, 2, 10, 300, 1023, 1024, 1025, 3000])) if n <= 64 else draw(st.sampled_from([1, 1, 2, 5]))
        out.append([n, k])
    return out


offset = st.one_of(st.integers(0, 64), st.integers(0, 20000), st.sampled_from([4095, 4096, 4097, 65536, (1 << 31) - 5, 1 << 31, (1 << 32) - 3, 1 << 32, 5 * GIB + 7, 40 * GIB + 4095,
                                                                              (1 << 40) + 1]),
                   st.sampled_from([(1 << 63) - 4, (1 << 63) + 5, (1 << 64) - 1]))


@st.composite
def op(draw, sink=False):
    lens = draw(buffers())
    if sink:
        lens = [[draw(length), 1]]
    return {"off": draw(offset), "lens": lens, "seed": draw(st.integers(0, 2 ** 32)), "w": draw(st.integers(0, 3)), "fresh": draw(st.booleans())}


@st.composite
def par(draw):
    """disjoint neighbouring ranges dealt to threads"""
    n = draw(st.integers(2, 4))
    threads = [[] for _ in range(n)]
    at = draw(st.sampled_from([0, 1, 4090, (1 << 32) - 100]))
    for _ in range(draw(st.integers(2, 16))):
        lens = draw(buffers())
        o = {"off": at, "lens": lens, "seed": draw(st.integers(0, 2 ** 32)), "w": draw(st.integers(0, 3)), "fresh": draw(st.booleans())}
        at += sum(a * b for a, b in lens)
        threads[draw(st.integers(0, n - 1))].append(o)
    return threads


initial = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from([0, 1, 100, 4096, 5000, 70000]), st.integers(0, 2 ** 32)))


@st.composite
def cases(draw, concurrent=False):
    if concurrent:
        ops = [draw(op())] * draw(st.integers(0, 1)) + [draw(par()) for _ in range(draw(st.integers(1, 3)))]
    else:
        ops = draw(st.lists(op(), max_size=6))
    return {"name": draw(NAMES), "obstacle": "none" if concurrent else draw(st.sampled_from(OBSTACLES)), "initial": draw(initial), "ops": ops,
            "writers": draw(st.integers(1, 4)), "faults": draw(st.lists(FAULTS, min_size=0, max_size=2)) if not concurrent and draw(st.booleans()) else [],
            "jitter": {"seed": draw(st.integers(1, 2 ** 31)), "permille": draw(st.sampled_from([0, 300])), "max_us": 50} if concurrent else None}


@st.composite
def big_cases(draw, sink=False):
    """one write of more than 2 GiB, between small ones"""
    n = (1 << 31) + draw(st.sampled_from([4097, 1, 0]))
    first = {"off": draw(st.sampled_from([0, 5, 4096])), "lens": [[100, 1]], "seed": 1, "w": 0, "fresh": False}
    lens = [[n, 1]] if sink else draw(st.sampled_from([[[n, 1]], [[7, 2], [n, 1], [4096, 1]], [[n // 3, 3], [5, 1]]]))
    main = {"off": draw(st.sampled_from([0, 1, 4096])), "lens": lens, "seed": draw(st.integers(0, 2 ** 32)), "w": 0, "fresh": False}
    return {"name": "f", "obstacle": "none", "initial": None, "ops": [first, main, dict(first, off=sum(a * b for a, b in lens) - 3)], "writers": 1, "faults": [], "jitter": None}


CHECK = {
    "id": "C18",
    "level": "exploration",
    "rule": "random scripts of vectored writes (0 to several thousand buffers, empty ones, up to 200 kB each (big: more than 2 GiB), offsets from 0 to 1 TiB and unrepresentable ones, existing files, "
            "several writers on one file, disjoint writes from several threads, failing and short system calls); non-trivial: something was written. "
            "Oracle: a sparse byte model of the file, compared after every write.",
    "assumptions": ["Linux implementation (pwritev)", "file system under test is tmpfs"],
    "technique": "model-based property-based testing with fault injection",
    "concurrent": True,
    "subs": [Sub("scripts", cases(), fn, 3000, 50000, "files:asan"),
             Sub("big", big_cases(), fn, 1, 6, "files:asan"),
             Sub("threads", cases(True), fn, 1000, 15000, "files:asan"),
             Sub("races", cases(True), fn, 500, 8000, "files:tsan")],
}
