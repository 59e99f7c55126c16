from hypothesis import strategies as st

from ..core import Sub, Violation

P = 5 << 20  # smallest part S3 accepts


def check_end(r, want_objects=None):
    end = [x for x in r["results"] if x.get("end")]
    if not end:
        raise Violation("no result")
    end = end[0]
    if end["protocol_errors"]:
        raise Violation("a request a server would refuse: %s" % end["protocol_errors"][:3])
    if end["clients_alive"]:
        raise Violation("%d connections alive after the pool is gone" % end["clients_alive"])
    if any("null_connection" in x for x in r["results"]):
        raise Violation("the pool handed out no connection")
    return end


def concrete(ops):
    """(kind, a, len) -> [offset, length, seed]"""
    out, end = [], 0
    for i, (kind, a, n) in enumerate(ops):
        if kind == "next":
            off = end
        elif kind == "back":
            off = max(0, end - a)
        elif kind == "gap":
            off = end + a
        elif kind == "align":  # up to (or a byte around) the next multiple of the part size
            off = max(0, end - n)
            n = max(0, (end // P + 1) * P - off + a)
        else:
            off = a % (end + 1)
        out.append([off, n, i * 7919 + n])
        if kind != "gap" and off + n > end and off >= end // P * P:
            end = off + n
        # a gap may be refused; offsets after one are only approximate
    return out


def run(ctx, case, faults=()):
    sinks = [{"key": s["key"], "ops": concrete(s["ops"]), "finalize": s["finalize"], "stop": case.get("stop", False)} for s in case["sinks"]]
    return ctx.run({"cmd": "s3sinks", "connections": case["connections"], "threads": case["threads"], "sinks": sinks,
                    "s3": {"buckets": ["bucket", "other"], "faults": list(faults)}, "log_level": 4, "timeout": 120.0,
                    "jitter": {"seed": case["jitter"], "permille": 200 if case["threads"] else 0, "max_us": 100}})


def fn(ctx, case):
    r = run(ctx, case)
    end = check_end(r)
    lab, nontriv = [], False
    keys = set()
    for x in sorted((x for x in r["results"] if "sink" in x), key=lambda x: x["sink"]):
        gap = False
        for o in x["ops"]:
            where = "sink %d, write of %d bytes at %d (uploaded %d, end %d)" % (x["sink"], o["len"], o["off"], o["uploaded"], o["end"])
            if o["threw"]:
                raise Violation(where + " threw")
            if o["visible"]:
                raise Violation(where + ": the object appeared before finalisation")
            if not o["len"]:
                continue
            if o["off"] < o["uploaded"]:
                if o["ok"]:
                    raise Violation(where + " was accepted, but that position is already uploaded")
                lab.append("write before the uploaded position")
            elif o["off"] <= o["end"]:
                if not o["ok"]:
                    raise Violation(where + " was refused")
                if o["off"] < o["end"]:
                    lab.append("rewrite of buffered data")
            else:
                gap = gap or not o["ok"]
                lab.append("gap accepted" if o["ok"] else "gap refused")
        fin = x["finalize"]
        if fin is None:
            if x["changed"]:
                raise Violation("sink %d was never finalised, but its object changed" % x["sink"])
            lab.append("not finalised")
            continue
        if fin["threw"] or not fin["ok"]:
            raise Violation("finalising sink %d (%d bytes) failed" % (x["sink"], x["model"]))
        if x["open_uploads"]:
            raise Violation("sink %d leaves an upload open" % x["sink"])
        if x["model"] == 0:
            if x["changed"]:
                raise Violation("nothing was written to sink %d, but its object changed" % x["sink"])
            lab.append("nothing written")
            continue
        keys.add(x["key"])
        if not x["exists"]:
            raise Violation("sink %d: no object after finalisation" % x["sink"])
        if not x["equal"]:
            raise Violation("sink %d: object has %d bytes, %d were written; first difference at %d" % (x["sink"], x["size"], x["model"], x["first_diff"]))
        nontriv |= len(x["ops"]) > 1
        parts = sum(q[0] == "upload_part" for q in x["requests"])
        lab.append("parts=%d" % min(parts, 5))
        if x["model"] % P == 0:
            lab.append("exact multiple of the part size")
    for b, k, n in end["objects"]:
        if b != "bucket" or k not in keys:
            raise Violation("unexpected object %s/%s" % (b, k))
    lab.append("connections=%d" % case["connections"])
    lab.append("concurrent" if case["threads"] else "one thread")
    return {"nontrivial": nontriv, "labels": lab}


small = st.integers(0, 70)
size = st.one_of(st.sampled_from([1, 2, P - 1, P, P + 1, P // 2, 2 * P, 2 * P - 1, 2 * P + 1, 3 * P, P - 7, 4096]), st.integers(0, 1 << 16), st.integers(1, 2 * P + 9))
op = st.one_of(
    st.tuples(st.just("next"), st.just(0), size),
    st.tuples(st.just("next"), st.just(0), size),
    st.tuples(st.just("next"), st.just(0), small),
    st.tuples(st.just("back"), st.one_of(st.integers(1, 64), st.integers(1, P), st.just(P)), st.one_of(small, size)),
    st.tuples(st.just("align"), st.sampled_from([0, 0, 0, -1, 1]), st.sampled_from([0, 0, 5, 3000])),
    st.tuples(st.just("any"), st.integers(0, 1 << 40), small),
    st.tuples(st.just("gap"), st.one_of(st.integers(1, 100), st.sampled_from([P - 1, P, P + 1, 1 << 33])), small))


@st.composite
def script(draw, max_ops=8, cap=3 * P + 100):
    kind = draw(st.sampled_from(["mixed", "mixed", "mixed", "tiny"]))
    if kind == "tiny":
        n = draw(st.sampled_from([1, 7, 33, 100]))
        return [("next", 0, draw(small)) for _ in range(draw(st.integers(0 if n == 1 else n // 2, n)))]
    out, total = [], 0
    for o in draw(st.lists(op, min_size=1, max_size=max_ops)):
        if total + o[2] > cap:
            o = (o[0], o[1], max(0, min(o[2], cap - total)))
        total += o[2]
        if o[0] == "align":
            if total + P > cap:
                continue
            total += P
        out.append(o)
    return out


@st.composite
def cases(draw, max_sinks=4):
    threads = draw(st.booleans())
    n = draw(st.integers(1, max_sinks if threads else 2))
    sinks = []
    for i in range(n):
        key = draw(st.sampled_from(["a", "store/0/0/0", "größe/x y", "k" * 200, "../x", "//", "a.b"])) + ("%d" % i if threads or draw(st.booleans()) else "")
        if not threads:
            key = draw(st.sampled_from([key, "same"]))
        sinks.append({"key": key, "ops": draw(script(cap=(3 if n == 1 else 2) * P + 100)), "finalize": draw(st.sampled_from([True, True, True, True, False]))})
    return {"connections": draw(st.sampled_from([1, 1, 2, 8])), "threads": threads, "sinks": sinks, "jitter": draw(st.integers(1, 1 << 30))}


@st.composite
def many(draw):
    """an object of more than 256 parts"""
    n = draw(st.sampled_from([4 * P, 9 * P + 13, 20 * P - 1, 33 * P + 1]))
    total = (257 + draw(st.integers(0, 9))) * P
    ops = [("next", 0, n)] * (-(-total // n)) + draw(st.sampled_from([[], [("next", 0, 5)], [("back", 7, 9)]]))
    return {"connections": 1, "threads": False, "sinks": [{"key": "many", "ops": ops, "finalize": True}], "jitter": 1}


CHECK = {
    "id": "C14",
    "level": "exploration",
    "rule": "random write scripts (sizes from 0 bytes to several upload parts, at and around multiples of the part size; rewrites, gaps, positions already uploaded) on one "
            "to four sinks (objects of 257 parts included), one after the other or concurrently over 1-8 connections; non-trivial: several writes went into an object. Oracle: byte model, and an "
            "in-memory server that enforces the S3 multipart rules and is inspected after every write.",
    "assumptions": ["minio-cpp is replaced by an in-memory S3 server with the same interface"],
    "technique": "model-based property-based testing",
    "concurrent": True,
    "subs": [Sub("sinks", cases(), fn, 1200, 16000, "internal:asan"),
             Sub("many_parts", many(), fn, 2, 16, "internal:asan")],
}
