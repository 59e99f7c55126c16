import os
from hypothesis import strategies as st

from .. import fstree, gen, zarr, stream
from ..core import Sub, Violation


def check_layout(case, root):
    want = zarr.expected_files(case)
    if os.path.islink(root) or not os.path.isdir(root):
        raise Violation("the store path is not a directory")
    files, dirs, others = fstree.tree(root)
    if others:
        raise Violation("the store contains %s" % sorted(others)[:5])
    if files != want:
        raise Violation("missing files: %s, extra files: %s" % (sorted(want - files)[:6], sorted(files - want)[:6]))
    wd = set()
    for f in want:
        while "/" in f:
            f = f.rsplit("/", 1)[0]
            wd.add(f)
    opt = {"meta/root", "data", "data/root"} if case["version"] == 3 else set()
    opt |= {"0"}
    if not wd - opt <= dirs or not dirs <= wd | opt:
        raise Violation("missing directories: %s, extra directories: %s" % (sorted(wd - dirs)[:6], sorted(dirs - wd)[:6]))


def fn(ctx, case):
    d = ctx.fresh()
    work = os.path.join(d, "wörk dir")
    fstree.plant(work, [["", "dir", ""]])
    fstree.plant(work, case["outside"])
    name = case["name"]
    real = os.path.join(work, name)
    form = case["form"]
    given = {"abs": real, "rel": name, "dot": "./" + name, "up": "../wörk dir/" + name, "padded": "  \t" + real + " \n",
             "twice": os.path.join(work, ".", "", name)}[form]
    data = stream.data_for(case)
    prev = case["previous"]
    pdata = stream.data_for(prev) if prev else b""
    script = stream.base_script(case, d, data + pdata)
    if form in ("rel", "dot", "up"):
        script["chdir"] = work
    if case["at_path"]:
        kind = case["at_path"]
        if kind == "tree":
            fstree.plant(real, [["", "dir", ""]] + case["inside"])
        elif kind == "file":
            fstree.plant(real, [["", "file", "old"]])
        elif kind == "rofile":
            fstree.plant(real, [["", "rofile", "old"]])
        elif kind == "linkdir":
            fstree.plant(work, [["elsewhere", "dir", ""], ["elsewhere/keep/me", "file", "x"]])
            fstree.plant(real, [["", "link", "elsewhere"]])
        elif kind == "linkfile":
            fstree.plant(work, [["elsewhere.txt", "file", "x"]])
            fstree.plant(real, [["", "link", os.path.join(work, "elsewhere.txt")]])
        elif kind == "fifo":
            fstree.plant(real, [["", "fifo", ""]])
    before = fstree.snapshot(d, exclude=(real,))
    steps = []
    if prev:
        steps += [{"s": "create", "id": 1, "settings": stream.settings(prev, given)}] + stream.append_steps(prev, 1, len(data)) + [{"s": "destroy", "id": 1}]
    steps += [{"s": "create", "id": 0, "settings": stream.settings(case, given)}] + stream.append_steps(case) + [{"s": "destroy", "id": 0}]
    script["steps"] = steps
    r = ctx.run(script)
    r0 = dict(r, results=[x for x in r["results"] if x.get("id", 0) == 0])
    stream.require_success(case, r0)
    check_layout(case, real)
    after = fstree.snapshot(d, exclude=(real,))
    x = fstree.diff(before, after)
    if x:
        raise Violation("outside the store: " + x)
    lab = ["form=" + form, "previous content=" + (case["at_path"] or ("store" if prev else "none")), "v%d" % case["version"],
           "levels=%d" % min(3, len(zarr.plan_levels(case)))]
    if case["nframes"] == 0:
        lab.append("no frames")
    if any(e[1] == "link" for e in case["inside"]) and case["at_path"] == "tree":
        lab.append("old store holds symlinks")
    return {"nontrivial": bool(case["at_path"] or prev or case["outside"]), "labels": lab}


NAME = st.sampled_from(["store.zarr", "a", "with space", "größe.zarr", "日本", ".hidden", "-x", "a.b.c", "0", "meta", "data", "s\"q'", "x*?", "back\\slash"])
SEG = st.sampled_from(["0", "1", "c0", "meta", "data", "root", ".zattrs", ".zgroup", "acquire.json", "zarr.json", "0/0/0", "old", "data/root/0/c9", "meta/root", "7/.zarray", "x y"])


@st.composite
def entries(draw, n, links=True):
    out = []
    for i in range(draw(st.integers(0, n))):
        k = draw(st.sampled_from(["file", "file", "dir", "rofile", "link", "link", "fifo"] if links else ["file", "dir", "rofile", "link"]))
        p = "/".join(draw(st.lists(SEG, min_size=1, max_size=2)))
        arg = "content %d" % i
        if k == "link":
            arg = draw(st.sampled_from(["..", "../sibling", "../sibling/f", "../../data.bin", "nowhere", ".", "/dev/null"]))
        out.append([p, k, arg])
    return out


@st.composite
def cases(draw, heavy=False):
    c = draw(gen.heavy_case(compression=gen.compressions_all)) if heavy else draw(gen.stream_case(cap=40, max_px=100, max_chunks=16, max_inner=6, compression=gen.compressions_all))
    c["name"] = draw(NAME)
    c["form"] = draw(st.sampled_from(["abs", "abs", "abs", "rel", "dot", "up", "padded", "twice"]))
    what = draw(st.sampled_from(["none", "tree", "tree", "tree", "previous", "previous", "file", "rofile", "linkdir", "linkfile", "fifo"]))
    c["at_path"] = what if what not in ("none", "previous") else None
    c["inside"] = draw(entries(8)) if what == "tree" else []
    if heavy and what == "tree":  # many more than a few things to remove
        n = draw(st.sampled_from([0, 50, 300, 1500]))
        c["inside"] = [["%s/%d/%d" % (draw(SEG) if i % 100 == 0 else "old", i // 100, i), "file", "x"] for i in range(n)] + c["inside"]
    c["previous"] = draw(gen.heavy_case() if heavy else gen.stream_case(cap=30, max_px=64, max_chunks=12, max_inner=4)) if what == "previous" else None
    out = draw(entries(4, links=False))
    c["outside"] = [["sibling/f", "file", "sibling"]] + [["sib-" + p, k, a] for p, k, a in out]
    # names that differ from the store's name by a suffix or prefix
    c["outside"] += [[c["name"] + s, "file", "near"] for s in draw(st.lists(st.sampled_from([".bak", "~", "2", ".zattrs"]), max_size=2, unique=True))]
    return c


CHECK = {
    "id": "C08",
    "level": "exploration",
    "rule": "random configurations at store paths of many forms (absolute, relative, dotted, padded, unusual names) where something else was before (trees with "
            "read-only files, links to outside files and directories, fifos; a file or link at the path itself; an earlier acquisition with other settings), next to "
            "siblings; non-trivial: something existed at or next to the path. Oracle: model of the exact file and directory set, and a snapshot of everything outside.",
    "assumptions": ["empty data/root, meta/root and 0 directories may exist when a level has no data"],
    "subs": [Sub("layout", cases(), fn, 3000, 40000, "stream:asan"),
             Sub("heavy", cases(True), fn, 120, 1600, "stream:asan")],
}
