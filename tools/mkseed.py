#!/usr/bin/env python3
"""mkseed.py [-f] ID...|all: builds seeded/<ID> from tools/seeds/<ID>.py and confirms it in a scratch copy: the patch applies, changes
original lines, the stable tests pass with it, and the demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "a7b8503"
SCRATCH = "/tmp/seed"


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def in_copy(repo, cmd):
    return sh(["unshare", "-Urm", "bash", "-c", f"mount --bind {repo} /repo && cd /repo && {cmd}"])


def make(sid):
    ns = {}
    exec(open(f"{V}/tools/seeds/{sid}.py").read(), ns)
    repo = f"{SCRATCH}/{sid}"
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    try:
        for f, old, new in ns["EDITS"]:
            p = f"{repo}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{sid}: text found {s.count(old)} times in {f}: {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", repo, "diff"]).stdout
        removed = 0
        for f, _, _ in ns["EDITS"]:
            d = sh(["git", "-C", repo, "diff", "-U0", "--", f]).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if n:
                    b = sh(["git", "-C", "/repo", "blame", "-s", f"-L{a},+{n}", "HEAD", "--", f]).stdout
                    removed += sum(l.startswith("^" + BASE) for l in b.splitlines())
        if not removed:
            return f"{sid}: changes no original line"
        d = f"{V}/seeded/{sid}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.copy(V + "/tools/seedkit/kit.hh", d)
        sc = open(V + "/tools/seedkit/demo.sh").read()
        if ns.get("FLAGS"):
            sc = sc.replace("#!/bin/bash\n", f"#!/bin/bash\nDEMO_FLAGS='{ns['FLAGS']}'\n")
        open(d + "/demo.sh", "w").write(sc)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write('#include "kit.hh"\n' + ns["DEMO"].lstrip("\n"))
        shutil.copytree(V + "/harness/fake_minio", d + "/minio")
        if ns.get("PYBIND"):  # the binding, compiled against the stand-in for pybind11
            shutil.copytree(V + "/harness/fake_pybind11", d + "/py")
            sc = open(d + "/demo.sh").read().replace("-I$here/minio", "-I$here/minio -I$here/py")
            open(d + "/demo.sh", "w").write(sc)
        r = in_copy(repo, f"bash /opt/vp/test.sh {SCRATCH}/{sid}.json")
        res = json.load(open(f"{SCRATCH}/{sid}.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        if set(stable) - set(res["passed"]):
            return f"{sid}: stable tests fail: {set(stable) - set(res['passed'])} "
        r1 = in_copy(repo, f"bash {d}/demo.sh")
        sh(["git", "-C", repo, "checkout", "-q", "--", "."])
        r0 = in_copy(repo, f"bash {d}/demo.sh")
        if r0.returncode != 0:
            return f"{sid}: demo fails on the unchanged tree ({r0.returncode}): {[l for l in r0.stdout.splitlines() if 'error' in l][:3] or r0.stdout[-400:]}"
        if r1.returncode == 0 or "error: " in r1.stdout:
            return f"{sid}: demo exits {r1.returncode} with the patch: {r1.stdout[-300:]}"
        return f"{sid}: ok ({removed} original lines; demo exits {r1.returncode}: {r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else ''})"
    finally:
        shutil.rmtree(repo, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(f[:-3] for f in os.listdir(V + "/tools/seeds") if f.endswith(".py"))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(make, ids):
            print(r, flush=True)
