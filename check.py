#!/usr/bin/env python3
"""Runs a property check.

  check.py ID [--tier quick|thorough]     run the check (exit 0 held / exit 1 VIOLATION)
  check.py replay FILE                    replay one saved case (exit 1 if it fails)
  check.py replay-all                     replay the whole committed corpus
"""
import glob, importlib, json, os, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"
if sys.executable != PY and os.path.exists(PY) and os.environ.get("VERIF_PY") != "1":
    os.environ["VERIF_PY"] = "1"
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(HERE, ".build", "hypothesis"))
sys.dont_write_bytecode = True

import build as builder
from lib import core
from lib.workers import Scratch, HarnessError

SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
OUT = os.path.join(builder.BUILD, "replays")


def load(cid):
    return importlib.import_module("lib.checks." + cid.lower()).CHECK


def targets_of(check):
    return sorted({t for s in check["subs"] for t in ([s.target] + list(getattr(s, "extra_targets", [])))})


def known_findings(cid):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e["property"] == cid and e["status"] == "known":
                out.append(e)
    return out


def run_case(ctx, check, rep):
    """replays a case; returns the Violation or None"""
    for s in check["subs"]:
        if s.name == rep["sub"]:
            ctx.target = s.target
            try:
                core.run_fn(s, ctx, rep["case"])
            except core.Violation as v:
                return v
            return None
    raise HarnessError("no sub-check %s" % rep["sub"])


def shard_main(cid, tier, idx, seed, outfile, exes):
    check = load(cid)
    t0 = time.monotonic()
    scratch = Scratch()
    ctx = core.Ctx(exes, scratch)
    out = {}
    budget = check.get("budget", {}).get(tier, {"quick": 150, "thorough": 700}[tier])
    try:
        for s in check["subs"]:
            total = s.quick if tier == "quick" else s.thorough
            n = total // SHARDS + (1 if (idx + len(s.name)) % SHARDS < total % SHARDS else 0)
            if n == 0:
                continue
            # a stop file tells the other shards that a failure was found
            if os.path.exists(outfile + "/stop"):
                break
            core.search(check, s, ctx, n, core.derive_seed(seed, cid, s.name, idx), out, t0 + budget,
                        shrink_s=float(os.environ.get("VERIF_SHRINK_S", check.get("shrink_s", 40.0))))
            if "failure" in out:
                open(outfile + "/stop", "w").close()
                break
    except HarnessError as e:
        out["harness_error"] = str(e)
    except Exception:
        out["harness_error"] = traceback.format_exc()
    finally:
        ctx.close()
        scratch.close()
    with open("%s/shard%d.json" % (outfile, idx), "w") as f:
        json.dump(out, f)


def confirm(ctx, check, rep, tries):
    """how often the failure shows again in `tries` fresh replays"""
    hits, last = 0, None
    for _ in range(tries):
        ctx.close()
        v = run_case(ctx, check, rep)
        if v is not None:
            hits += 1
            last = v
    return hits, last


def main():
    args = sys.argv[1:]
    if args and args[0] == "shard":
        _, cid, tier, idx, seed, outfile, exes = args
        return shard_main(cid, tier, int(idx), int(seed), outfile, json.loads(exes))
    if args and args[0] in ("replay", "replay-all"):
        files = args[1:] if args[0] == "replay" else sorted(glob.glob(HERE + "/corpus/*/*.json"))
        bad = 0
        scratch = Scratch()
        cache = {}
        try:
            for f in files:
                rep = json.load(open(f))
                check = load(rep["property"])
                ts = targets_of(check)
                for t in ts:
                    if t not in cache:
                        cache.update(builder.build(ts))
                ctx = core.Ctx(cache, scratch)
                v = run_case(ctx, check, rep)
                ctx.close()
                print(("FAIL " if v else "ok   ") + f + ((": " + str(v)) if v else ""))
                if v and "-v" in os.environ.get("VERIF_OPTS", ""):
                    print(v.detail)
                bad += bool(v)
        finally:
            scratch.close()
        return 1 if bad else 0

    cid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    check = load(cid)
    exes = builder.build(targets_of(check))
    t_build = time.monotonic() - t0
    work = os.path.join(builder.BUILD, "run-%s-%d" % (cid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    violations = []
    notes = []
    scratch = Scratch()
    ctx = core.Ctx(exes, scratch)
    corpus_n = 0
    procs = []
    shard_logs = []
    try:
        # 1. known findings: print those that (still) fail; they are excluded from the search by construction
        for e in known_findings(cid):
            rep = json.load(open(os.path.join(HERE, e["replay"])))
            v = run_case(ctx, check, rep)
            if v is not None:
                print("KNOWN-FINDING: property=%s %s" % (cid, e["what"]))
            else:
                notes.append("known finding no longer fails: " + e["what"])
        # 2. regression corpus
        for f in sorted(glob.glob(os.path.join(HERE, "corpus", cid, "*.json"))):
            rep = json.load(open(f))
            corpus_n += 1
            v = run_case(ctx, check, rep)
            if v is not None:
                hits, last = confirm(ctx, check, rep, 3)
                if hits:
                    violations.append((f, str(last or v)))
                    break
                notes.append("corpus case failed once and not again: %s: %s" % (f, v))
        # 3. generated search
        if not violations:
            for i in range(SHARDS):
                log = open("%s/log%d" % (work, i), "w+")
                shard_logs.append(log)
                procs.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), "shard", cid, tier, str(i), str(seed), work, json.dumps(exes)],
                                              stdout=log, stderr=log, env=dict(os.environ, VERIF_PY="1")))
            for p in procs:
                p.wait()
        outs = []
        for i in range(len(procs)):
            p = "%s/shard%d.json" % (work, i)
            if os.path.exists(p):
                outs.append(json.load(open(p)))
            else:
                shard_logs[i].seek(0)
                raise HarnessError("shard %d died: %s" % (i, shard_logs[i].read()[-3000:]))
        fails = sorted((o["failure"] for o in outs if "failure" in o), key=lambda f: (f["size"], f["sub"]))
        for fl in fails:
            rep = {"property": cid, "sub": fl["sub"], "case": fl["case"], "msg": fl["msg"], "kind": fl["kind"], "detail": fl["detail"], "seed": seed, "tier": tier}
            path = os.path.join(OUT, "%s-%s-%s.json" % (cid, fl["sub"], core.digest(fl["case"])))
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            tries = 3 if fl["kind"] != "hang" else 2
            hits, last = confirm(ctx, check, rep, tries)
            if not hits and (fl["kind"] == "sanitizer" or (fl["kind"] in ("oracle", "crash") and check.get("concurrent", False))):
                hits, last = confirm(ctx, check, rep, 30)
            if hits or fl["kind"] == "sanitizer":  # a sanitizer report is proof enough, even of something that needs a rare schedule
                violations.append((path, str(last) if last else fl["msg"]))
                break
            notes.append("unconfirmed: %s: %s" % (path, fl["msg"]))
        errs = [o["harness_error"] for o in outs if "harness_error" in o]
        if errs and not violations:
            raise HarnessError(errs[0])
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        ctx.close()
        scratch.close()

    # evidence
    ev_subs, evaluations, nontriv, samples = {}, 0, set(), []
    for o in outs:
        for name, s in o.items():
            if not isinstance(s, dict) or "evaluations" not in s:
                continue
            e = ev_subs.setdefault(name, {"evaluations": 0, "distinct_nontrivial": set(), "labels": {}, "max_shard_s": 0.0, "cut_by_time": 0})
            e["evaluations"] += s["evaluations"]
            e["distinct_nontrivial"].update(s["nontrivial"])
            e["cut_by_time"] += bool(s.get("cut_by_time"))
            e["max_shard_s"] = round(max(e["max_shard_s"], s["time"]), 1)
            for k, v in s["labels"].items():
                e["labels"][k] = e["labels"].get(k, 0) + v
            evaluations += s["evaluations"]
            nontriv |= {name + d for d in s["nontrivial"]}
            if len(samples) < 6 and s["samples"]:
                samples.append({"sub": name, "case": s["samples"][0]})
    for e in ev_subs.values():
        e["distinct_nontrivial"] = len(e["distinct_nontrivial"])
        e["labels"] = dict(sorted(e["labels"].items()))
    ev = {"property": cid, "tier": tier, "seed": seed, "level": check.get("level", "exploration"),
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(nontriv), "rule": check["rule"], "samples": samples,
                       "by_sub_check": ev_subs, "corpus_replayed": corpus_n, "shards": SHARDS},
          "assumptions": check.get("assumptions", []), "wall_s": round(time.monotonic() - t0, 2), "build_s": round(t_build, 2),
          "violations": len(violations), "notes": notes}
    EV = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(EV, exist_ok=True)
    tmp = os.path.join(EV, ".%s.tmp" % cid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EV, cid + ".json"))
    import shutil
    for l in shard_logs:
        l.close()
    shutil.rmtree(work)
    for n in notes:
        print("note: " + n)
    if violations:
        path, msg = violations[0]
        print(msg)
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    print("%s held: %d cases (%d distinct non-trivial), %d corpus, %.1f s (build %.1f s)" % (cid, evaluations, len(nontriv), corpus_n, time.monotonic() - t0, t_build))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (HarnessError, RuntimeError) as e:
        print("HARNESS ERROR: %s" % e)
        sys.exit(3)
