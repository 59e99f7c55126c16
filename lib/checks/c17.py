from hypothesis import strategies as st

from ..core import Sub, Violation


def number(case):
    """give every job an id"""
    n = [0]

    def job(j):
        j = dict(j)
        j["id"] = n[0]
        n[0] += 1
        if "kids" in j:
            j["kids"] = [job(k) for k in j["kids"]]
        return j
    return [[job(j) for j in p] for p in case["producers"]], [job(j) for j in case["post"]]


def flat(jobs):
    for j in jobs:
        yield j
        yield from flat(j.get("kids", []))


def fn(ctx, case):
    producers, post = number(case)
    jobs = {j["id"]: j for p in producers + [post] for j in flat(p)}
    msg = {"cmd": "pool", "threads": case["threads"], "nprocs": case["nprocs"], "producers": producers, "post": post, "end": case["end"],
           "inline": case["inline"], "stop_after": int(case["stop_at"] * sum(len(p) for p in producers)), "stops": case["stops"],
           "gate_late": case["gate_late"], "jitter": case["jitter"], "timeout": 60.0, "idle_limit": 3.0, "prefix": "/nonexistent"}
    if case.get("thread_faults"):
        msg["thread_faults"] = case["thread_faults"]
    r = ctx.run(msg)
    res = [x for x in r["results"] if "recs" in x or "threw" in x]
    if not res:
        raise Violation("no result")
    x = res[0]
    want = min(max(case["threads"], 1), max(case["nprocs"], 1))
    if x["left"]:
        raise Violation("%d threads left over" % x["left"])
    if "threw" in x:
        nth, count = case.get("thread_faults") or (1, 0)
        if nth > 0 or not count:
            raise Violation("the pool could not be created: " + x["threw"])
        return {"nontrivial": True, "labels": ["no thread could be started"]}
    if x["pool_threads"] > want:
        raise Violation("%d threads, %d requested on a machine with %d processors" % (x["pool_threads"], case["threads"], case["nprocs"]))
    stop_begin, stop_end = x["stop"]
    recs = {q[0]: dict(zip(("id", "pusher", "tried", "accepted", "pb", "pe", "runs", "start", "finish", "tid"), q)) for q in x["recs"]}
    destroy = case["end"] == "destroy"
    ran = 0
    errs = []
    for i, q in sorted(recs.items()):
        if not q["tried"]:
            continue
        if q["runs"] > 1:
            raise Violation("job %d ran %d times" % (i, q["runs"]))
        if q["runs"] and not q["accepted"]:
            raise Violation("job %d was rejected but ran" % i)
        if q["runs"] and not q["finish"]:
            raise Violation("job %d had not finished at the end" % i)
        if q["accepted"] and not q["runs"] and not destroy:
            raise Violation("job %d was accepted but never ran" % i)
        if q["finish"] > stop_end:
            raise Violation("job %d ran after the stop request returned" % i)
        if q["accepted"] and q["pb"] > stop_end:
            raise Violation("job %d was accepted after the stop" % i)
        if not q["accepted"] and q["pe"] < stop_begin:
            raise Violation("job %d was rejected by an active pool" % i)
        if q["runs"]:
            ran += 1
            if jobs[i].get("fail"):
                errs.append("" if jobs[i].get("mute") else "job %d" % i)
    if sorted(errs) != sorted(x["errors"]):
        raise Violation("errors reported %s, failing jobs that ran %s" % (sorted(x["errors"])[:10], sorted(errs)[:10]))
    if x["last_error"] > stop_end:
        raise Violation("an error was reported after the stop request returned")
    tids = {q["tid"] for q in recs.values() if q["runs"]}
    if len(tids) > want or x["max_running"] > want:
        raise Violation("jobs ran on %d threads (%d at a time), at most %d allowed" % (len(tids), x["max_running"], want))
    if x["tokens"]:
        raise Violation("%d jobs are still held after the pool is gone" % x["tokens"])
    if want == 1:  # in order of acceptance, as far as the order is known
        run = sorted((q for q in recs.values() if q["runs"]), key=lambda q: q["start"])
        latest = 0  # latest begin of a push among the jobs that ran so far
        for q in run:
            if q["pe"] and q["pe"] < latest:
                raise Violation("one thread: job %d was accepted before another one that ran earlier" % q["id"])
            latest = max(latest, q["pb"])
    lab = ["end=" + case["end"], "threads=%d" % min(x["pool_threads"], 9)]
    if any(not q["accepted"] for q in recs.values() if q["tried"] and q["pusher"] < 5000):
        lab.append("stop raced with producers")
    if destroy and any(q["accepted"] and not q["runs"] for q in recs.values()):
        lab.append("destroyed with queued jobs")
    if errs:
        lab.append("failing jobs")
    if any("kids" in j for j in jobs.values()):
        lab.append("jobs pushing jobs")
    if x["hits"]:
        lab.append("thread creation failed")
    return {"nontrivial": ran > 1, "labels": lab}


leaf = st.fixed_dictionaries({}, optional={"us": st.sampled_from([0, 5, 50, -50, -300]), "fail": st.booleans(), "chatty": st.just(True), "gate": st.just(True),
                                           "pause": st.sampled_from([1, 20, 100])})
kid = st.fixed_dictionaries({}, optional={"us": st.sampled_from([0, 5, 50]), "fail": st.booleans(), "mute": st.just(True)})
kid2 = st.fixed_dictionaries({"kids": st.lists(kid, max_size=3)}, optional={"fail": st.booleans()})
job = st.one_of(leaf, leaf, leaf, st.fixed_dictionaries({"kids": st.lists(kid | kid2, max_size=4)}, optional={"us": st.sampled_from([0, 20]), "fail": st.booleans()}))
jitter = st.fixed_dictionaries({"seed": st.integers(1, 2 ** 31), "permille": st.sampled_from([0, 50, 300, 600]), "max_us": st.sampled_from([0, 20, 200])})


@st.composite
def cases(draw, faults=True):
    c = {"threads": draw(st.sampled_from([0, 1, 1, 2, 3, 4, 8, 100])), "nprocs": draw(st.sampled_from([1, 2, 3, 8, 16])),
         "producers": draw(st.lists(st.lists(job, max_size=draw(st.sampled_from([3, 12, 40]))), min_size=1, max_size=4)), "post": draw(st.lists(leaf, max_size=2)),
         "end": draw(st.sampled_from(["stop", "stop", "wait", "destroy"])), "inline": draw(st.booleans()), "stop_at": draw(st.sampled_from([0, 0.3, 0.7, 1, 1])),
         "stops": draw(st.integers(0, 2)), "gate_late": draw(st.booleans()), "jitter": draw(jitter)}
    if c["end"] == "wait":
        c["gate_late"] = False
    if faults and draw(st.integers(0, 9)) == 0:
        c["thread_faults"] = [draw(st.integers(0, 3)), draw(st.sampled_from([1, 2, -1]))]
        c["inline"] = True  # the producers are threads too
    return c


CHECK = {
    "id": "C17",
    "level": "exploration",
    "rule": "random histories of a thread pool: up to 4 producers, instant, slow, blocked, failing and job-pushing jobs, stop requests racing with producers, destruction with "
            "queued jobs, repeated stops, failing thread creation, random delays at mutex and condition-variable operations; non-trivial: at least two jobs ran. Oracle: "
            "a counter and logical time stamps per job, the multiset of reported errors, number of threads, order of acceptance.",
    "assumptions": ["a job returns true or false; it does not throw and does not stop its own pool", "the pool is not used by other threads while it is destroyed or stopped a second time"],
    "technique": "stateful property-based testing with schedule perturbation and ThreadSanitizer",
    "concurrent": True,
    "subs": [Sub("histories", cases(), fn, 5000, 100000, "pool:asan"),
             Sub("races", cases(False), fn, 2000, 40000, "pool:tsan")],
}
