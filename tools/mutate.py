#!/usr/bin/env python3
"""Mutation testing of the checks: random one-line mutants of /repo/src in a private copy, each tried against the checks of
the properties its file anchors, until one reports it.  mutate.py WORKDIR N SEED [FILE-SUBSTRING]
Writes WORKDIR/log.jsonl; survivors are to be looked at by hand (equivalent, outside the domain, or a gap)."""
import json, os, random, re, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    "zarr.dimension": "C20 C25 C24 C01 C02", "zarr.common": "C26 C25 C24 C05", "zarr.stream": "C09 C06 C07 C04 C08 C13 C11 C16 C12 C10 C15",
    "array.writer": "C24 C01 C02 C03 C05 C07 C11 C10 C16 C13 C12 C15", "zarrv2.array.writer": "C01 C05 C11 C10 C16 C12", "zarrv3.array.writer": "C02 C05 C11 C10 C16 C12",
    "sink.creator": "C27 C08 C11 C16 C12", "s3.sink": "C14 C16 C15", "s3.connection": "C14 C16 C15 C12 C13", "file.sink": "C19 C11 C27", "sink.": "C19 C14 C11 C13",
    "vectorized": "C18", "thread.pool": "C17 C12", "logger": "C21", "acquire.zarr": "C23 C21 C09 C13 C11 C04", "blosc": "C03 C26 C05", "macros": "C11 C13 C20",
}
OPS = [
    (r"(?<![<>=!-])<(?![<=])(?=\s)", ["<="]), (r"(?<=\s)<=", ["<"]), (r"(?<=\s)>(?=\s)", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]), (r"(?<=\s)%(?=\s)", ["/"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.\"])0(?![\w.\"x])", ["1"]), (r"(?<![\w.\"])1(?![\w.\"])", ["0", "2"]), (r"(?<![\w.\"])2(?![\w.\"])", ["1", "3"]),
    (r"\+\+(?=\w)", ["--"]), (r"(?<=[\s(])!(?=[\w*])", [""]), (r"\+=", ["-=", "="]), (r"\*=", ["="]), (r"\bsize_t\b", ["uint16_t"]), (r"\buint64_t\b", ["uint32_t", "uint16_t"]), (r"\buint32_t\b", ["uint8_t"]),
    (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r"\bbreak;", [";"]), (r"\breturn false;", ["return true;"]), (r"\breturn true;", ["return false;"]),
    (r"^(\s*)(?!return|break|case|default|const|auto|size_t|std::\w+ \w+;)([\w.\[\]>:*-]+(?:\(.*\)| [+*-]?= [^;]*);)\s*$", [r"\1;"]),
    (r"^(\s*)(std::(?:scoped|unique)_lock .*;)$", [r"\1;"]),
]


def candidates():
    out = []
    for root, _, fs in os.walk("/repo/src"):
        for f in fs:
            if not f.endswith((".cpp", ".hh", ".h")):
                continue
            p = os.path.join(root, f)
            win = False
            block = False
            for n, line in enumerate(open(p)):
                s = line.strip()
                if s.startswith("#ifdef _WIN32"):
                    win = True
                elif s.startswith(("#else", "#endif")):
                    win = False
                if s.startswith("/*"):
                    block = True
                if block:
                    if "*/" in s:
                        block = False
                    continue
                if win or not s or s.startswith(("//", "#", "*")) or "LOG_" in s or s.startswith('"') or "template" in s or re.match(r"(EXPECT|CHECK)\(", s):
                    continue
                code = line.split("//")[0] if '"' not in line else line
                for k, (pat, reps) in enumerate(OPS):
                    for m in re.finditer(pat, code):
                        if line[:m.start()].count('"') % 2:
                            continue
                        for r in reps:
                            new = line[:m.start()] + m.expand(r) + line[m.end():]
                            if new.strip() != line.strip():
                                out.append((p, n, line.rstrip("\n"), new.rstrip("\n")))
    return sorted(set(out))


def checks_for(path):
    b = os.path.basename(path)
    for k in sorted(ORDER, key=len, reverse=True):
        if b.startswith(k):
            return ORDER[k].split()
    return []


def main():
    work, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    flt = sys.argv[4] if len(sys.argv) > 4 else ""
    os.makedirs(work, exist_ok=True)
    repo = work + "/repo"
    if os.path.exists(repo):
        shutil.rmtree(repo)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    rng = random.Random(seed)
    cs = [c for c in candidates() if flt in c[0]]
    by = {}
    for c in cs:
        by.setdefault(c[:2], []).append(c)
    lines = sorted(by)
    rng.shuffle(lines)
    done = set()
    lp = work + "/log.jsonl"
    if os.path.exists(lp):
        for l in open(lp):
            e = json.loads(l)
            done.add((e["file"], e["line"]))
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=work + "/build", VERIF_EVIDENCE=work + "/ev", VERIF_SHRINK_S="0", VERIF_SHARDS=os.environ.get("MUT_SHARDS", "8"))
    print(len(cs), "candidates on", len(lines), "lines", flush=True)
    for path, no in lines[:n]:
        rel = os.path.relpath(path, "/repo")
        if (rel, no + 1) in done:
            continue
        c = rng.choice(by[(path, no)])
        dst = os.path.join(repo, rel)
        src = open(path).read().split("\n")
        src[no] = c[3]
        open(dst, "w").write("\n".join(src))
        e = {"file": rel, "line": no + 1, "old": c[2].strip(), "new": c[3].strip(), "killed": None, "ran": []}
        t0 = time.time()
        for cid in checks_for(path):
            try:
                r = subprocess.run(["python3", V + "/check.py", cid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            except subprocess.TimeoutExpired:
                e["killed"] = cid + " timeout"
                break
            if r.returncode == 3 and "build failed" in r.stdout:
                e["killed"] = "build"
                break
            e["ran"].append(cid)
            if r.returncode != 0:
                e["killed"] = cid if r.returncode == 1 else cid + " rc%d" % r.returncode
                e["msg"] = r.stdout.strip().split("\n")[0][:200]
                break
        e["s"] = round(time.time() - t0)
        shutil.copy(path, dst)
        subprocess.run(["rm", "-rf", work + "/build/replays"])
        with open(lp, "a") as f:
            f.write(json.dumps(e) + "\n")
        if e["killed"] != "build":
            print("%-10s %s:%d  %s  =>  %s  (%s, %ds)" % (e["killed"] or "SURVIVED", rel, e["line"], e["old"], e["new"], " ".join(e["ran"]), e["s"]), flush=True)


main()
