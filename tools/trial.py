#!/usr/bin/env python3
"""trial.py [-t TIER] PATCH-OR-DIR ID...: run checks against a scratch copy of /repo with a patch applied (sensitivity tests).
PATCH may also be 'sed:FILE:EXPR' for a quick edit, or 'none'."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = "quick"
if args[0] == "-t":
    tier = args[1]
    args = args[2:]
patch, ids = args[0], args[1:]
d = tempfile.mkdtemp(prefix="trial-", dir="/tmp")
try:
    repo = d + "/repo"
    os.mkdir(repo)
    for x in ("src", "include"):
        shutil.copytree("/repo/" + x, repo + "/" + x)
    subprocess.run(["git", "init", "-q", repo], check=True)
    if patch.startswith("sed:"):
        _, f, e = patch.split(":", 2)
        before = open(repo + "/" + f).read()
        subprocess.run(["sed", "-i", "-E", e, repo + "/" + f], check=True)
        if open(repo + "/" + f).read() == before:
            sys.exit("sed expression changes nothing")
        subprocess.run(["diff", "-u", "/repo/" + f, repo + "/" + f])
    elif patch.startswith("py:"):  # py:FILE: old and new text from the environment
        f = patch[3:]
        s = open(repo + "/" + f).read()
        o, n = os.environ["OLD"], os.environ["NEW"]
        assert s.count(o) >= 1, "text not found"
        open(repo + "/" + f, "w").write(s.replace(o, n, 1))
    elif patch != "none":
        if os.path.isdir(patch):
            patch += "/patch.diff"
        subprocess.run(["git", "-C", repo, "apply", os.path.abspath(patch)], check=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=d + "/build", VERIF_EVIDENCE=d + "/ev")
    for i in ids:
        r = subprocess.run([sys.executable, V + "/check.py", i, "--tier", tier], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.environ.get("KEEP"):
            for line in r.stdout.splitlines():
                if "replay=" in line:
                    os.makedirs(os.environ["KEEP"], exist_ok=True)
                    shutil.copy(line.split("replay=")[1].strip(), os.path.join(os.environ["KEEP"], i + ".json"))
        print(i, "exit", r.returncode, "|", " / ".join(r.stdout.strip().splitlines()[-2:])[:600], flush=True)
finally:
    shutil.rmtree(d)
