from hypothesis import strategies as st

from ..core import Sub, Violation
from . import c18


def fn(ctx, case):
    r, openable = c18.run(ctx, case, "sink")
    res = r["results"]
    opened = [x for x in res if "open" in x]
    if not opened:
        raise Violation("no result")
    opened = opened[0]
    if not openable or opened["hits"]:
        if opened["open"]:
            raise Violation("the file cannot be opened (%s), but no failure was reported" % (case["obstacle"] if not openable else "injected fault"))
        return {"nontrivial": True, "labels": ["cannot be opened: " + (case["obstacle"] if not openable else "injected fault")]}
    if not opened["open"]:
        raise Violation("the file could not be opened: %r" % opened["what"])
    lab, nontriv, hits, refused = set(), False, 0, False
    for x in res:
        if "op" not in x:
            continue
        j = case["ops"][x["op"]]
        n = sum(a * b for a, b in j["lens"])
        where = "write %d: %d bytes at %d" % (x["op"], n, j["off"])
        hits += x["hits"]
        if "threw" in x:
            raise Violation("%s: exception %s" % (where, x["threw"]))
        if not x["unchanged"]:
            raise Violation("%s: the buffer was modified" % where)
        possible = j["off"] + n < 1 << 63
        if not x["ok"] and not hits and j["off"] + n < 1 << 62 and not refused:
            raise Violation("%s: reported as failed without a cause" % where)
        if x["ok"] and n and not possible:
            raise Violation("%s: reported as written" % where)
        refused |= not x["ok"]
        nontriv |= n > 0
        for flag, name in ((n == 0, "nothing to write"), (j["off"] >= 1 << 32, "beyond 4 GiB"), (not x["ok"], "failure reported by a write"), (x["hits"] and x["ok"], "success in spite of faults")):
            if flag:
                lab.add(name)
    end = [x for x in res if x.get("end")]
    if not end:
        raise Violation("no result")
    end = end[0]
    if "threw" in end:
        raise Violation("finalisation: exception " + end["threw"])
    if not end["final"] and not hits and not end["final_hits"] and not refused:
        raise Violation("finalisation failed without a cause")
    if end["final"] and not refused and end["bad"]:
        raise Violation("everything succeeded, but " + end["bad"])
    if not end["final"]:
        lab.add("failure reported by finalisation")
    if case["drop"]:
        lab.add("dropped without finalisation")
    if case["initial"]:
        lab.add("existing file replaced")
    return {"nontrivial": nontriv or bool(case["initial"]), "labels": sorted(lab)}


@st.composite
def cases(draw):
    faults = []
    if draw(st.booleans()):
        faults = draw(st.lists(c18.FAULTS, max_size=2))
        if draw(st.integers(0, 5)) == 0:
            faults.append({"ops": 1, "nth": 0, "count": 1, "mode": 0, "err": draw(st.sampled_from([13, 24, 28]))})
    return {"name": draw(c18.NAMES), "obstacle": draw(st.sampled_from(c18.OBSTACLES)), "initial": draw(c18.initial), "ops": draw(st.lists(c18.op(sink=True), max_size=8)),
            "faults": faults, "drop": draw(st.integers(0, 7)) == 0}


CHECK = {
    "id": "C19",
    "level": "exploration",
    "rule": "random scripts of writes to a file sink (overlapping, backward, sparse up to 1 TiB and unrepresentable offsets, empty, up to 200 kB, big: more than 2 GiB; existing files, obstacles at the path, "
            "failing and short system calls), then finalisation or destruction; non-trivial: something was written or replaced. Oracle: a sparse byte model of the file.",
    "assumptions": ["file system under test is tmpfs", "close and fsync do not fail"],
    "technique": "model-based property-based testing with fault injection",
    "subs": [Sub("scripts", cases(), fn, 12000, 200000, "files:asan"),
             Sub("big", c18.big_cases(True).map(lambda c: dict(c, drop=False)), fn, 1, 6, "files:asan")],
}
