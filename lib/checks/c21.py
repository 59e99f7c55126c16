import re

from hypothesis import strategies as st

from .. import gen, stream
from ..core import Sub, Violation

LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR"]
LINE = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} \[([A-Z]+)\] ([^:]*):(-?\d+) (.*?): (.*)$")
STATUS = {0: "Success", 1: "Invalid argument", 2: "Buffer overflow", 3: "Invalid index", 4: "Not yet implemented", 5: "Internal error", 6: "Out of memory", 7: "I/O error",
          8: "Compression error", 9: "Invalid settings"}


def expected(s, uid):
    """level name, file, line, function, text of a message"""
    _, level, text, file, line, func, form = s
    body = {0: text, 1: text + " 42 -7", 2: "1.5" + text + "1", 3: text, 4: text + "__ff2.2true"}[form]
    return (LEVELS[level], file.rsplit("/", 1)[-1], str(line), func, body)


def parse(stream_name, text):
    out = []
    if text and not text.endswith("\n"):
        raise Violation("%s does not end with a line break: %r" % (stream_name, text[-80:]))
    for line in text.split("\n")[:-1] if text else []:
        m = LINE.match(line)
        if not m:
            raise Violation("%s has a broken line: %r" % (stream_name, line))
        out.append(m.groups())
    return out


def messages(ctx, case):
    n = [0]
    phases = []
    for ph in case["phases"]:
        p = []
        for th in ph:
            t = []
            for s in th:
                s = list(s)
                if s[0] == "msg":
                    s[2] = "m%dx" % n[0] + s[2]
                    n[0] += 1
                t.append(s)
            p.append(t)
        phases.append(p)
    msg = {"cmd": "logger", "phases": phases, "jitter": case["jitter"]}
    if case["start"] is not None:
        msg["start"] = case["start"]
    r = ctx.run(msg)
    x = [q for q in r["results"] if "res" in q]
    if not x:
        raise Violation("no result")
    x = x[0]
    level = x["initial"]
    if level != (1 if case["start"] is None else case["start"]):
        raise Violation("the level is %d at the start" % level)
    lab = set()
    must, may = {"out": [], "err": []}, {"out": [], "err": []}
    for p, res in zip(phases, x["res"]):
        changes = {s[1] for t in p for s in t if s[0] in ("api", "set") and 0 <= s[1] <= 4}
        racing = len(p) > 1 and changes
        possible = changes | {level}
        for t, rs in zip(p, res):
            rs = iter(rs)
            for s in t:
                if s[0] in ("api", "set"):
                    rc, now = next(rs)
                    valid = 0 <= s[1] <= 4
                    if (rc == 0) != valid:
                        raise Violation("setting level %d returned %d" % (s[1], rc))
                    if s[0] == "api" and not valid and rc != 1:
                        raise Violation("setting level %d returned status %d" % (s[1], rc))
                    if not racing:
                        if valid:
                            level = s[1]
                        if now != level:
                            raise Violation("after setting level %d the level is %d instead of %d" % (s[1], now, level))
                    elif now not in possible:
                        raise Violation("the level is %d, which nobody set" % now)
                    lab.add("invalid level" if not valid else "level change")
                elif s[0] == "status":
                    a, b = next(rs)
                    if a != b or not a:
                        raise Violation("the message of status %d is %r, then %r" % (s[1], a, b))
                    if s[1] in STATUS and a != STATUS[s[1]]:
                        raise Violation("the message of status %d is %r" % (s[1], a))
                    if s[1] not in STATUS and a in STATUS.values():
                        raise Violation("the message of unknown status %d is %r" % (s[1], a))
                elif s[0] == "version":
                    a, b = next(rs)
                    if a != "0.0.1" or a != b:
                        raise Violation("the version is %r" % a)
                elif s[0] == "msg":
                    e = expected(s, None)
                    where = "err" if s[1] >= 3 else "out"
                    if racing:
                        if all(s[1] >= q for q in possible):
                            must[where].append(e)
                        elif any(s[1] >= q for q in possible):
                            may[where].append(e)
                    elif s[1] >= level:
                        must[where].append(e)
                    else:
                        lab.add("filtered")
        if racing:
            # the last of the racing changes wins: take what the process says next
            lab.add("level changed while others log")
            level = None
            break
    for w, name in (("out", "standard output"), ("err", "the error stream")):
        got = parse(name, r[w])
        want = {e: i for i, e in enumerate(must[w])}
        allowed = set(want) | set(may[w])
        for g in got:
            if g not in allowed:
                raise Violation("%s has an unexpected line %s" % (name, list(g)))
        if len(set(got)) != len(got):
            raise Violation("%s has a line twice" % name)
        missing = set(want) - set(got)
        if missing:
            raise Violation("%s lacks %s" % (name, list(sorted(missing)[0])))
        # messages of one thread keep their order
        pos = {g: i for i, g in enumerate(got)}
        for p in phases:
            for t in p:
                seq = [pos[e] for e in (expected(s, None) for s in t if s[0] == "msg") if e in pos]
                if seq != sorted(seq):
                    raise Violation("%s: messages of one thread are out of order" % name)
        if not any(len(p) > 1 for p in phases) and got != [e for e in must[w]]:
            raise Violation("%s: messages are out of order" % name)
    if any(len(p) > 1 for p in phases):
        lab.add("several threads")
    return {"nontrivial": bool(must["out"] or must["err"]), "labels": sorted(lab)}


word = st.text(st.characters(min_codepoint=33, max_codepoint=126), max_size=12)
func = st.text(st.characters(min_codepoint=97, max_codepoint=122), min_size=1, max_size=12)
msg = st.tuples(st.just("msg"), st.integers(0, 3), st.one_of(word, word, word.map(lambda w: w * 200), st.just("a b  c: d")), st.sampled_from(["a.cpp", "/x/y/b.cc", "dir/c d.hh"]),
                st.integers(0, 9999), func, st.integers(0, 4))
any_level = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(-3, 8), st.sampled_from([2 ** 31 - 1, -2 ** 31, 255, 256]))
change = st.tuples(st.sampled_from(["api", "set"]), any_level)
status = st.tuples(st.just("status"), st.one_of(st.integers(-2, 14), st.integers(-2 ** 31, 2 ** 31 - 1)))
seq = st.lists(st.one_of(msg, msg, msg, change, status, st.just(("version",))), max_size=20)
jitter = st.fixed_dictionaries({"seed": st.integers(1, 2 ** 31), "permille": st.sampled_from([0, 100, 500]), "max_us": st.sampled_from([0, 20])})


@st.composite
def cases(draw, threads):
    phases = [[draw(seq)]]
    if threads:
        phases.append(draw(st.lists(st.lists(msg, min_size=1, max_size=12), min_size=2, max_size=5)))
        if draw(st.booleans()):
            phases.append([draw(seq)])
        elif draw(st.booleans()):
            phases.append(draw(st.lists(st.lists(st.one_of(msg, msg, change), min_size=1, max_size=12), min_size=2, max_size=5)))
    return {"start": draw(st.one_of(st.none(), st.integers(0, 4))), "phases": phases, "jitter": draw(jitter)}


# ---- the level does not matter ------------------------------------------------------------------------------------------
def outcome(ctx, case, level):
    store, r, data = stream.run_simple(ctx, dict(case, log_level=level), s3=case["s3"])
    calls = [(x["s"], x.get("ok"), x.get("rc"), x.get("bytes_out")) for x in r["results"] if x.get("s") in ("create", "append", "destroy")]
    return calls, {k: store.get(k) for k in store.keys()}, r


def indifferent(ctx, case):
    ref = None
    lab = ["s3" if case["s3"] else "files"]
    for level in case["levels"]:
        calls, content, r = outcome(ctx, case, level)
        for w, name in (("out", "standard output"), ("err", "the error stream")):
            for g in parse(name, r[w]):
                if g[0] not in LEVELS or LEVELS.index(g[0]) < level or (g[0] == "ERROR") != (w == "err"):
                    raise Violation("at level %d, %s has %s" % (level, name, list(g)))
        if ref is None:
            ref = (calls, content)
        elif calls != ref[0]:
            raise Violation("calls return something else at level %d than at level %d" % (level, case["levels"][0]))
        elif content != ref[1]:
            raise Violation("the store differs between levels %d and %d: %s" % (level, case["levels"][0], sorted(k for k in set(content) | set(ref[1]) if content.get(k) != ref[1].get(k))[:3]))
        if r["out"] or r["err"]:
            lab.append("something logged at level %d" % level)
    return {"nontrivial": case["nframes"] > 0, "labels": lab}


@st.composite
def level_cases(draw):
    c = draw(gen.stream_case(cap=16, max_px=48, max_chunks=10, max_inner=3, compression=gen.compressions, log_levels=(0,)))
    c["s3"] = draw(st.sampled_from([False, False, True]))
    c["levels"] = [0, 4] + draw(st.lists(st.integers(0, 4), max_size=1))
    # some calls are refused
    if draw(st.integers(0, 3)) == 0:
        c["dims"][-1]["chunk"] = 0
    return c


CHECK = {
    "id": "C21",
    "level": "exploration",
    "rule": "random sequences of log messages of all levels, valid and invalid level changes through both interfaces, status and version queries, by one thread and by several at the "
            "same time; and random streams run at several levels; non-trivial: a message was emitted, or frames were written. Oracle: an exact model of the lines on each "
            "stream (content, destination, order per thread), and equality of return values and stores over levels.",
    "assumptions": ["messages contain no line breaks"],
    "technique": "stateful model-based and metamorphic property-based testing with ThreadSanitizer",
    "concurrent": True,
    "subs": [Sub("sequences", cases(False), messages, 4000, 60000, "logger:asan"),
             Sub("threads", cases(True), messages, 2500, 40000, "logger:asan"),
             Sub("races", cases(True), messages, 1200, 20000, "logger:tsan"),
             Sub("indifferent", level_cases(), indifferent, 700, 10000, "stream:asan")],
}
