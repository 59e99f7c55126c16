import itertools, os, posixpath, stat

from hypothesis import strategies as st

from .. import fstree, gen, zarr
from ..core import Sub, Violation
from ..workers import UID

META = {2: [".zattrs", ".zgroup", "0/.zattrs", "acquire.json"], 3: ["zarr.json", "meta/root.group.json", "meta/acquire.json"]}


def grid_of(q):
    """parts along each dimension but the first"""
    out = []
    for d in q["dims"][1:]:
        n = gen.ceil_div(d["array"], d["chunk"])
        if q["parts"] == "shards":
            n = gen.ceil_div(n, d["shard"]) if d["shard"] else 0
        out.append(n)
    return out


def targets(q):
    """[(relative path, text written into it)] of a request, in order"""
    if q["kind"] == "sink":
        return [(None, "part 0")]
    if q["kind"] == "meta":
        return [(k, "meta " + k) for k in META[q["version"]]]
    return [("/".join(map(str, idx)), "part %d" % i) for i, idx in enumerate(itertools.product(*[range(n) for n in grid_of(q)]))]


# ---- a small model of the file system -------------------------------------------------------------------------------------
class Fs:
    """what is there, and what the worker's user may do; paths are absolute below the root"""

    def __init__(self, root):
        self.root = root

    def real(self, p):
        return os.path.realpath(p)

    def can_make_dir(self, p, made):
        """whether p can become a directory; adds what has to be made"""
        if p in made:
            return True
        if os.path.isdir(p):
            return True
        if os.path.lexists(p):
            return False
        if len(os.path.basename(p).encode()) > 255:
            return False
        up = os.path.dirname(p)
        if not self.can_make_dir(up, made):
            return False
        if up not in made and not self.may_write(up):
            return False
        made.add(p)
        return True

    def may_write(self, d):
        s = os.stat(d)
        return bool(s.st_mode & (0o200 if s.st_uid == UID else 0o002))

    def can_open(self, p, made):
        up = os.path.dirname(p)
        if len(os.path.basename(p).encode()) > 255:
            return False
        if up in made:
            return True
        if not os.path.isdir(up):
            return False
        if os.path.isdir(p):
            return False
        if os.path.exists(p):
            return self.may_write(p)
        if os.path.islink(p):  # dangling
            t = os.path.join(up, os.readlink(p))
            return os.path.isdir(os.path.dirname(t)) and self.may_write(os.path.dirname(t))
        return self.may_write(up)


def files(ctx, case):
    d = ctx.fresh()
    os.chmod(d, 0o755)
    area = os.path.join(d, "area")
    os.mkdir(area)
    fstree.own(area, 0o755)
    fstree.plant(area, [["cwd", "dir", ""], ["linked", "dir", ""], ["some file", "file", "content"]])
    obstacles = 0
    reqs = case["requests"]
    for o in case["obstacles"]:
        q = reqs[o["request"] % len(reqs)]
        rel = plain(q)
        base = place(rel, area)
        spots = [base]
        if q["kind"] != "sink" and not refusal(q, False):
            t = targets(q)[o["which"] % max(1, len(targets(q)))][0]
            parts = t.split("/")
            spots += [os.path.join(base, *parts[:i + 1]) for i in range(len(parts))]
        p = spots[o["depth"] % len(spots)]
        if any(len(c.encode()) > 255 for c in p.split("/")):
            continue
        rp = os.path.relpath(p, area)
        if rp == "." or rp.startswith("..") or rp == "cwd":
            continue
        arg = {"link dir": os.path.join(area, "linked"), "link file": os.path.join(area, "some file"), "dangling": os.path.join(area, "nowhere")}.get(o["kind"], "old content")
        kind = {"link dir": "link", "link file": "link", "dangling": "link", "rodir": "dir"}.get(o["kind"], o["kind"])
        had = os.path.lexists(p)
        fstree.plant(area, [[rp, kind, arg]])
        if not had and os.path.lexists(p):
            obstacles += 1
            if o["kind"] == "rodir":
                os.chmod(p, 0o555)
    # run
    msg = {"cmd": "sinks", "chdir": os.path.join(area, "cwd"), "threads": case["threads"], "connections": 0, "s3": {"buckets": []}, "prefix": area, "log_level": 4,
           "requests": [dict(q, path=q["path"].replace("AREA", area).encode("utf-8", "surrogateescape").hex()) for q in reqs]}
    if case["jitter"]:
        msg["jitter"] = case["jitter"]
    if case["faults"]:
        msg["faults"] = case["faults"]
    before = fstree.snapshot(d)
    res = None
    lab, last, nontriv = set(), 0, False
    # the model looks at the real tree, so requests run one by one when the tree matters
    for i, q in enumerate(reqs):
        fs, made = Fs(d), set()
        why = refusal(q, False)
        possible = why is None
        base = place(plain(q), area)
        want = {}
        if possible:
            for k, (t, text) in enumerate(targets(q)):
                p = base if t is None else os.path.join(base, t)
                if not fs.can_make_dir(os.path.dirname(p), made) or not fs.can_open(p, made):
                    possible = False
                else:
                    want[os.path.realpath(p)] = ("r0 " + text).encode()
        made = {os.path.realpath(p) for p in made}
        before = fstree.snapshot(d)
        one = dict(msg, requests=[msg["requests"][i]])
        r = ctx.run(one)
        x = [y for y in r["results"] if y.get("n") == 0]
        end = [y for y in r["results"] if y.get("end")]
        if not x or not end:
            raise Violation("no result")
        x, end = x[0], end[0]
        after = fstree.snapshot(d)
        where = "request %d (%s %r)" % (i, q["kind"], q["path"])
        slash = q["path"].endswith("/")
        if x["ok"] and (why or not possible):
            raise Violation("%s succeeded although %s" % (where, why or "a target cannot be created"))
        if x["ok"] and end["hits"]:
            raise Violation("%s succeeded although %d system calls failed" % (where, end["hits"]))
        if not x["ok"] and possible and not end["hits"] and not slash:
            raise Violation("%s failed without a cause (%s): %s" % (where, x["what"], r["err"][-400:]))
        if not x["ok"]:
            lab.add("refused: " + why if why else "obstacle reported" if not possible else "injected fault reported" if end["hits"] else "refused: trailing slash")
            # nothing but the targets may have been touched
            allowed = set()
            if why is None:
                for t, _ in targets(q):
                    p = base if t is None else os.path.join(base, t)
                    while len(p) > len(area):
                        allowed |= {p, os.path.realpath(p)}
                        p = os.path.dirname(p)
            for k in set(before) | set(after):
                k_ = os.path.join(d, k)
                if why == "a dimension has no parts" and any((k_ + "/").startswith(b + "/") or (b + "/").startswith(k_ + "/") for b in (base, os.path.realpath(base))):
                    if before.get(k) is None and after[k][0] == "dir":
                        continue  # directories made before the geometry was looked at
                if before.get(k) != after.get(k) and k_ not in allowed:
                    raise Violation("%s failed and changed %s" % (where, k))
            nontriv |= bool(obstacles or end["hits"] or why)
            continue
        n = len(targets(q))
        if len(x["sinks"]) != n:
            raise Violation("%s: %d targets, expected %d" % (where, len(x["sinks"]), n))
        for s in x["sinks"]:
            if s["null"] or not s["write"] or not s["finalize"]:
                raise Violation("%s: target %s is not writable" % (where, s["text"]))
        exp = dict(before)
        for p in made:
            exp[os.path.relpath(p, d)] = ("dir",)
        for p, content in want.items():
            k = os.path.relpath(p, d)
            exp[k] = ("file", content)
        for k in sorted(set(exp) | set(after)):
            a, b = after.get(k), exp.get(k)
            if a is None or b is None:
                raise Violation("%s: %s %s" % (where, k, "was not created" if a is None else "should not be there"))
            if a[0] != b[0] or a[-1] != b[-1] and (a[0] == "file" or a[0] == "link"):
                raise Violation("%s: %s is %r, expected %r" % (where, k, a, b))
        nontriv |= n > 1
        lab.add("%s ok" % q["kind"])
        if obstacles:
            lab.add("ok with something in the way")
        if len(made) > 4:
            lab.add("directories made")
    return {"nontrivial": nontriv, "labels": sorted(lab)}


def plain(q):
    p = q["path"]
    return p[7:] if p.startswith("file://") else p


def place(p, area):
    p = p.replace("AREA", area)
    p = os.path.join(area, "cwd", p)
    return os.path.normpath(p)


def refusal(q, s3, buckets=()):
    """why the request must fail whatever the file system says"""
    if not plain(q) if not s3 else not q["path"]:
        return "the path is empty"
    if s3 and not q["bucket"]:
        return "the bucket name is empty"
    if q["kind"] == "meta" and q["version"] not in META:
        return "the version is unknown"
    if q["kind"] == "data" and 0 in grid_of(q):
        return "a dimension has no parts"
    return None


comp = st.sampled_from(["a", "b", "store.zarr", "a b", "größe", "日本", "-x", ".hidden", "a\nb", "0", "meta", "c0", "x" * 60])


@st.composite
def dims_st(draw, zero):
    nd = draw(st.sampled_from([3, 3, 4, 5, 6]))
    big = draw(st.integers(0, 4)) == 0
    out, budget = [], draw(st.sampled_from([36, 80, 270])) if big else 36
    for i in range(nd):
        n = draw(st.integers(1, max(1, min(budget if big and i else 6, budget))))
        if i:
            budget //= n
        chunk = draw(st.integers(1, 20))
        array = draw(st.integers((n - 1) * chunk + 1, n * chunk))
        shard = draw(st.integers(1, n + 1))
        if zero and draw(st.integers(0, 5)) == 0:
            shard = 0
        if i == 0:
            array = draw(st.sampled_from([0, 0, 1, 5, 100000]))
        out.append({"name": "d%d" % i, "type": draw(st.integers(0, 3)), "array": array, "chunk": chunk, "shard": shard})
    return out


@st.composite
def request(draw, s3):
    kind = draw(st.sampled_from(["data", "data", "data", "meta", "meta", "sink"]))
    q = {"kind": kind, "s3": s3, "tail": draw(st.sampled_from(["", "", "/x", "0", "zzz"]))}
    p = "/".join(draw(st.lists(comp, min_size=1, max_size=4)))
    style = draw(st.sampled_from(["rel", "rel", "abs", "abs", "abs", "file:abs", "file:rel", "long", "empty", "slash", "dots", "double"]))
    if s3:
        style = draw(st.sampled_from(["rel", "rel", "rel", "rel", "empty"]))
    if kind == "sink" and style == "slash":
        style = "abs"
    q["path"] = {"rel": p, "abs": "AREA/" + p, "file:abs": "file://AREA/" + p, "file:rel": "file://" + p, "long": "AREA/" + draw(st.sampled_from(["y" * 255, "y" * 256])),
                 "empty": draw(st.sampled_from(["", "file://"])) if not s3 else "", "slash": "AREA/" + p + "/", "dots": "AREA/cwd/../" + p, "double": "AREA//" + p}[style]
    if s3:
        q["bucket"] = draw(st.sampled_from(["bucket", "bucket", "bucket", "other", "missing", ""]))
    if kind == "data":
        q["dims"] = draw(dims_st(True))
        q["parts"] = draw(st.sampled_from(["chunks", "shards"]))
    if kind == "meta":
        q["version"] = draw(st.sampled_from([2, 2, 2, 3, 3, 3, 0, 1, 4, 2 ** 32 + 2]))
    return q


jitters = st.one_of(st.none(), st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "permille": st.sampled_from([100, 500]), "max_us": st.sampled_from([20, 200])}))


@st.composite
def file_cases(draw):
    reqs = draw(st.lists(request(False), min_size=1, max_size=3))
    obstacles = draw(st.lists(st.fixed_dictionaries({"request": st.integers(0, 2), "which": st.one_of(st.integers(0, 40), st.integers(0, 270)), "depth": st.integers(0, 8),
                                                     "kind": st.sampled_from(["file", "file", "rofile", "dir", "dir", "rodir", "link dir", "link file", "dangling"])}), max_size=3))
    faults = draw(st.one_of(st.just([]), st.just([]), st.lists(st.fixed_dictionaries({"ops": st.sampled_from([1, 2, 3]), "nth": st.integers(0, 12), "count": st.sampled_from([1, 1, 3, -1]),
                                                                                      "err": st.sampled_from([13, 28, 24, 5, 30]), "mode": st.just(0)}), min_size=1, max_size=2)))
    return {"requests": reqs, "obstacles": obstacles, "faults": faults, "threads": draw(st.sampled_from([1, 2, 4, 8])), "jitter": draw(jitters)}


# ---- S3 -----------------------------------------------------------------------------------------------------------------------
def objects(ctx, case):
    reqs = case["requests"]
    msg = {"cmd": "sinks", "threads": case["threads"], "connections": case["connections"], "s3": {"buckets": ["bucket", "other"], "faults": case["faults"]}, "log_level": 4,
           "requests": [dict(q, path=q["path"].encode("utf-8", "surrogateescape").hex()) for q in reqs]}
    if case["jitter"]:
        msg["jitter"] = case["jitter"]
    r = ctx.run(msg)
    end = [y for y in r["results"] if y.get("end")]
    if not end:
        raise Violation("no result")
    end = end[0]
    if end["protocol_errors"]:
        raise Violation("protocol errors: %s" % end["protocol_errors"][:3])
    want, lab, nontriv, maybe = {}, set(), False, {}
    inj = end["injected"]
    for i, q in enumerate(reqs):
        x = [y for y in r["results"] if y.get("n") == i]
        if not x:
            raise Violation("request %d: no result" % i)
        x = x[0]
        where = "request %d (%s %r in %r)" % (i, q["kind"], q["path"], q["bucket"])
        why = refusal(q, True)
        if why is None and not case["connections"]:
            why = "there is no connection"
        missing = q["bucket"] == "missing"
        if why is None and missing and q["kind"] != "data":
            why = "the bucket is missing"
        if x["ok"] and why:
            raise Violation("%s succeeded although %s" % (where, why))
        if not x["ok"]:
            if not why and not inj and not missing:
                raise Violation("%s failed without a cause (%s): %s" % (where, x["what"], r["err"][-400:]))
            lab.add("refused: " + (why or "fault or missing bucket"))
            nontriv = True
            continue
        ts = targets(q)
        if len(x["sinks"]) != len(ts):
            raise Violation("%s: %d targets, expected %d" % (where, len(x["sinks"]), len(ts)))
        for s in x["sinks"]:
            if s["null"]:
                raise Violation("%s: target %s is null" % (where, s["text"]))
            good = s["write"] and s["finalize"]
            if missing and good:
                raise Violation("%s: target %s was written to a missing bucket" % (where, s["text"]))
            if not missing and not good and not inj:
                raise Violation("%s: target %s is not writable" % (where, s["text"]))
        texts = {s["text"]: s["write"] and s["finalize"] for s in x["sinks"]}
        for t, text in ts:
            key = q["path"] if t is None else q["path"] + "/" + t
            text = "r%d %s" % (i, text)
            if text not in texts:
                raise Violation("%s: no target for %s" % (where, text))
            if texts[text]:
                want[(q["bucket"], key)] = {text}
            elif not missing:
                want.setdefault((q["bucket"], key), {None}).add(text)
        nontriv |= len(ts) > 1
        lab.add("%s %s" % (q["kind"], "refused when written" if missing else "ok"))
    have = {(b, bytes.fromhex(k).decode("utf-8", "surrogateescape")): v for b, k, v in end["objects"]}
    for k in sorted(set(have) | set(want)):
        if k not in want:
            raise Violation("object %s should not be there" % (k,))
        if have.get(k) not in want[k]:
            raise Violation("object %s contains %r, expected %r" % (k, have.get(k), sorted(map(str, want[k]))))
    if inj:
        lab.add("faults injected")
    return {"nontrivial": nontriv, "labels": sorted(lab)}


@st.composite
def object_cases(draw):
    reqs = draw(st.lists(request(True), min_size=1, max_size=3))
    for q in reqs:
        if q["kind"] == "data":
            for d in q["dims"]:
                pass
    faults = draw(st.one_of(st.just([]), st.just([]), st.lists(st.fixed_dictionaries({"kind": st.sampled_from(["bucket_exists", "put", "create_upload", "upload_part", "complete_upload"]),
                                                                                      "nth": st.integers(0, 5), "count": st.sampled_from([1, 3, -1])}), min_size=1, max_size=2)))
    return {"requests": reqs, "faults": faults, "threads": draw(st.sampled_from([1, 4])), "connections": draw(st.sampled_from([0, 1, 1, 2, 4, 4])), "jitter": draw(jitters)}


CHECK = {
    "id": "C27",
    "level": "fault_enumeration",
    "rule": "random requests for single, data and metadata targets (geometries of 3 to 6 dimensions with up to 270 parts, more than 256 along one dimension, chunk and shard rows, all versions, base paths relative, absolute, "
            "prefixed, empty, too long, with odd characters, given as views into longer text), with files, directories, links and unwritable entries planted at and around the targets, failing "
            "mkdir/open calls and S3 operations; non-trivial: several targets, or a failure that must be reported. Oracle: a model of the file system and of the target lists; each target "
            "receives a text that says which one it is, and the resulting tree or objects are compared with the model.",
    "assumptions": ["a base path ending in a separator may be refused when its directory does not exist", "S3 is an in-memory fake of the minio-cpp client"],
    "technique": "model-based property-based testing with fault injection",
    "subs": [Sub("files", file_cases(), files, 5000, 80000, "internal:asan"),
             Sub("objects", object_cases(), objects, 2000, 30000, "internal:asan")],
}
