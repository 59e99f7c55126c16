from hypothesis import strategies as st

from ..core import Sub, Violation
from .c20 import BYTES, U32, ceil, number

WHITE = b" \t\n\v\f\r"


def fn(ctx, case):
    calls = [list(c) for c in case["calls"]]
    for i, c in enumerate(calls):
        if c[0] == "empty":
            c.insert(2, "blank%dkv" % i)
    r = ctx.run({"cmd": "misc", "calls": calls, "log_level": case["level"]})
    res = [x for x in r["results"] if "res" in x]
    if not res or len(res[0]["res"]) != len(calls):
        raise Violation("no result")
    lab = set()
    for i, (c, x) in enumerate(zip(calls, res[0]["res"])):
        f = c[0]
        want = None
        refuse = None  # key of the expected exception
        lab.add(f)
        if f in ("trim", "empty"):
            s = bytes.fromhex(c[1])
            t = s.strip(WHITE)
            want = t.hex() if f == "trim" else not t
            if t != s:
                lab.add(f + ": white space")
            if f == "empty":
                logged = c[2] in r["err"]
                if logged != (not t and case["level"] <= 3):
                    raise Violation("is_empty_string(%r) %s its message" % (s, "logged" if logged else "did not log"))
                if r["err"].count(c[2]) > 1:
                    raise Violation("is_empty_string(%r) logged its message %d times" % (s, r["err"].count(c[2])))
        elif f == "type":
            want = BYTES[c[1]] if 0 <= c[1] < 10 else None
            refuse = "invalid" if want is None else None
        elif f == "frame":
            want = c[1] * c[2] * BYTES[c[3]] if 0 <= c[3] < 10 else None
            refuse = "invalid" if want is None else None
        elif f == "chunks":
            want = ceil(c[1], c[2]) if c[2] else None
            refuse = "any" if not c[2] else None
        elif f == "shards":
            if not c[3]:
                continue  # no shards: nothing specified
            want = ceil(ceil(c[1], c[2]), c[3]) if c[2] else None
            refuse = "any" if not c[2] else None
        elif f == "ndims":
            want, refuse = (c[1], None) if c[1] >= 3 else (None, "any")
        elif f == "codec":
            name = x.get("v")
            known = {1: "lz4", 2: "zstd"}.get(c[1])
            if known and name != known:
                raise Violation("codec %d is called %r" % (c[1], x))
            if not known and (name is None or name in ("lz4", "zstd", "")):
                raise Violation("unknown codec %d is called %r" % (c[1], x))
            continue
        if refuse:
            lab.add(f + ": refused")
            if "v" in x or (refuse == "invalid" and "invalid" not in x):
                raise Violation("%s was not refused: %s" % (c, x))
        elif x.get("v") != want:
            raise Violation("%s returned %s instead of %s" % (c, x, want))
    return {"nontrivial": len(lab) > 1, "labels": sorted(lab)}


u32 = st.one_of(number(0, U32), number(0, U32), st.sampled_from([0, 1, U32, U32 - 1, 1 << 31, 1 << 16]))
text = st.one_of(st.binary(max_size=6), st.lists(st.sampled_from([b" ", b"\t", b"\n", b"\v", b"\f", b"\r", b"a", b"\0", b"\xa0", b"\x85", b"\xff", b"\x1c", b"\x1f", b"\xc2\xa0", b"x y"]), max_size=10)
                 .map(b"".join), st.sampled_from([b"", b" " * 5000, b"z" * 3000, b" " * 300 + b"q" + b"\n" * 300])).map(bytes.hex)
def fits(c):
    return not 0 <= c[3] < 10 or c[1] * c[2] * BYTES[c[3]] < 1 << 64


number_any = st.one_of(st.integers(-3, 14), st.integers(-2 ** 31, 2 ** 31 - 1), st.sampled_from([255, 256, 65535]))
call = st.one_of(st.tuples(st.just("trim"), text), st.tuples(st.just("empty"), text),
                 st.tuples(st.just("type"), number_any), st.tuples(st.just("frame"), u32, u32, number_any, st.integers(0, 9)).filter(fits),
                 st.tuples(st.just("frame"), u32, u32, st.integers(0, 9), st.integers(0, 9)).filter(fits),
                 st.tuples(st.just("chunks"), u32, u32), st.tuples(st.just("shards"), u32, u32, u32), st.tuples(st.just("codec"), number_any),
                 st.tuples(st.just("ndims"), st.integers(0, 8)))

CHECK = {
    "id": "C26",
    "level": "exploration",
    "rule": "random calls of the helper functions: byte strings with white space of all kinds and other bytes at both ends, 32-bit sizes over all magnitudes, data types and codecs in "
            "and out of range; non-trivial: at least two helpers called. Oracle: the same functions in Python with unlimited integers; the log text for blank strings.",
    "assumptions": ["C locale; white space is that of isspace in it", "results are not compared for a shard size of 0"],
    "technique": "property-based testing against an unlimited-precision reference model",
    "subs": [Sub("helpers", st.fixed_dictionaries({"calls": st.lists(call, min_size=1, max_size=60), "level": st.sampled_from([0, 1, 2, 3, 3, 4])}), fn, 20000, 300000, "misc:asan")],
}
