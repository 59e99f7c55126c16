"""Search engine shared by all checks: seeds, shards, shrinking, replay, evidence."""
import hashlib, json, os, sys, time, traceback, zlib

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, kind="oracle", detail=None):
        super().__init__(msg)
        self.kind = kind  # oracle | sanitizer | crash | hang
        self.detail = detail


class StopSearch(BaseException):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


class Sub:
    """one generated sub-check of a property"""

    def __init__(self, name, strategy, fn, quick, thorough, target, nontrivial_rule=""):
        self.name = name
        self.strategy = strategy
        self.fn = fn  # fn(ctx, case) -> dict(nontrivial=bool, labels=[..]); raises Violation
        self.quick = quick  # number of cases over all shards
        self.thorough = thorough
        self.target = target  # worker target, e.g. "stream:asan"


class Ctx:
    """what a sub-check may use: workers and scratch space"""

    def __init__(self, exes, scratch):
        from .workers import Worker
        self.exes = exes
        self.scratch = scratch
        self._workers = {}
        self._Worker = Worker
        self.target = None
        self.deadline = None

    def worker(self, target=None):
        t = target or self.target
        if t not in self._workers:
            self._workers[t] = self._Worker(self.exes[t], self.scratch, t.replace(":", "-"))
        return self._workers[t]

    def close(self):
        for w in self._workers.values():
            w.stop()
        self._workers.clear()

    def fresh(self):
        return self.scratch.fresh()

    def run(self, case, target=None, allow_exit=(0,), allow_signal=False):
        """run one worker case; turns crashes, hangs and sanitizer reports into violations"""
        r = self.worker(target).run(case)
        check_process(r, allow_exit, allow_signal)
        return r


def check_process(r, allow_exit=(0,), allow_signal=False):
    err = r.get("err", "")
    if r.get("hang"):
        raise Violation("a call never returned (%s)" % r.get("why"), "hang", tail(err))
    if "Sanitizer" in err or "runtime error:" in err:
        for line in err.splitlines():
            if "SUMMARY:" in line or "runtime error:" in line or "ERROR: AddressSanitizer" in line:
                raise Violation("sanitizer report: " + line.strip()[:300], "sanitizer", sanitizer_part(err))
    if r["exit"] in (86, 87):
        raise Violation("sanitizer exit without report", "sanitizer", tail(err))
    if r["signal"]:
        if allow_signal and r["signal"] == 9:
            return
        raise Violation("process died from signal %d" % r["signal"], "killed" if r["signal"] == 9 else "crash", tail(err))
    for x in r["results"]:
        if "handler_exception" in x:
            raise Violation("exception escaped the API: " + str(x["handler_exception"]), "crash", tail(err))
    if r["exit"] not in allow_exit:
        raise Violation("process exited with status %s" % r["exit"], "crash", tail(err))


def run_fn(sub, ctx, case):
    """the sub-check on one case. Nothing in the code under test sends SIGKILL: that is what the sandbox does when memory runs low, and says nothing unless it happens each time"""
    for i in range(4):
        try:
            return sub.fn(ctx, case)
        except Violation as v:
            if v.kind != "killed" or i == 3:
                raise
        ctx.close()
        time.sleep(2 + 8 * i)


def tail(s, n=3000):
    return s[-n:]


def sanitizer_part(err):
    i = max(err.find("==ERROR"), err.find("WARNING: ThreadSanitizer"), err.find("runtime error:"))
    i = max(0, err.rfind("\n", 0, max(i, 0)))
    return err[i:i + 4000]


def derive_seed(*parts):
    return int(hashlib.sha256(repr(parts).encode()).hexdigest()[:12], 16)


def search(check, sub, ctx, n_cases, seed, out, deadline, shrink_s=60.0):
    """run one sub-check for n_cases generated cases; `out` collects statistics and the smallest failure"""
    state = {"first_fail": None}
    ctx.target = sub.target
    stats = out.setdefault(sub.name, {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "time": 0.0})
    seen = set()
    t_start = time.monotonic()

    def one(case):
        now = time.monotonic()
        if state["first_fail"] is None and now > deadline:
            stats["cut_by_time"] = True
            raise StopSearch
        if state["first_fail"] is not None and now > state["first_fail"] + shrink_s:
            raise StopSearch
        try:
            info = run_fn(sub, ctx, case) or {}
        except Violation as v:
            if state["first_fail"] is None:
                state["first_fail"] = now
            size = len(canon(case))
            best = out.get("failure")
            if best is None or best["sub"] != sub.name or size <= best["size"]:
                out["failure"] = {"sub": sub.name, "case": case, "msg": str(v), "kind": v.kind, "detail": v.detail, "size": size}
            stats["evaluations"] += 1
            raise
        stats["evaluations"] += 1
        for lab in info.get("labels", ()):
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        if info.get("nontrivial", True):
            d = digest(case)
            if d not in seen:
                seen.add(d)
                if len(seen) in (1, 4, 40) and len(canon(case)) < 6000:
                    stats["samples"].append(case)

    test = given(sub.strategy)(one)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n_cases, database=None, deadline=None, derandomize=False, print_blob=False,
                    report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example,
                                           HealthCheck.filter_too_much])(test)
    try:
        test()
    except StopSearch:
        pass
    except Violation:
        pass
    except Exception as e:  # hypothesis wraps some failures; ours is recorded already
        if "failure" not in out:
            raise
    stats["nontrivial"] = sorted(seen)
    stats["time"] = time.monotonic() - t_start
    return out
