import os

from hypothesis import strategies as st

from .. import gen, stream, zarr
from ..core import Sub, Violation
from .c12 import jitter

WS = " \t\n\v\f\r"


def account(s):
    """what a server has to see"""
    host = s["endpoint"].strip(WS)
    return {"host": stream.hx(host), "key": stream.hx(s["key"].strip(WS)), "secret": stream.hx(s["secret"].strip(WS)), "https": host.startswith("https")}


def fn(ctx, case):
    ss = case["streams"]
    datas = [stream.data_for(s["cfg"]) for s in ss]
    # what each stream stores: the same stream to a directory
    want = []
    for s, data in zip(ss, datas):
        store, r, _ = stream.run_simple(ctx, s["cfg"])
        stream.require_success(s["cfg"], r)
        want.append({k: v for k, v in ((k, store.get(k)) for k in store.keys()) if v})
    d = ctx.fresh()
    accounts, decoys, seqs, at = [], [], [], 0
    for i, s in enumerate(ss):
        a = account(s)
        twin = [x for x in accounts if all(x[k] == a[k] for k in a)]
        acc = twin[0] if twin else dict(a, buckets=[])
        bucket = s["bucket"].strip(WS)
        if s["fate"] != "no access":
            acc["buckets"].append(bucket)
        if not twin and s["fate"] not in ("stranger",):
            accounts.append(acc)
        for b in (bucket, "decoy-%d" % i):
            decoys.append({"bucket": b, "key": stream.hx("decoy"), "text": "untouched"})
        z = stream.settings(s["cfg"], s["prefix"], True)
        z["s3"] = {"endpoint": stream.hx(s["endpoint"]), "bucket": stream.hx(s["bucket"]), "key": stream.hx(s["key"]), "secret": stream.hx(s["secret"])}
        seqs.append([{"s": "create", "id": i, "settings": z}] + stream.append_steps(s["cfg"], i, at) + [{"s": "destroy", "id": i}])
        at += len(datas[i])
    accounts.append({"host": stream.hx("http://elsewhere"), "key": stream.hx("k"), "secret": stream.hx("s"), "https": False, "buckets": ["decoy-0"]})
    # the same account may appear twice with one of them a stranger
    strangers = [i for i, s in enumerate(ss) if s["fate"] == "stranger" and not any(all(x[k] == v for k, v in account(s).items()) for x in accounts)]
    if case["mode"] == "threads":
        steps = [{"s": "par", "threads": seqs}]
    elif case["mode"] == "interleaved":
        steps, left = [], [list(q) for q in seqs]
        while any(left):
            for q in left:
                if q:
                    steps.append(q.pop(0))
    else:
        steps = sum(seqs, [])
    script = {"cmd": "script", "data": stream.write_data(d, b"".join(datas) or b"x"), "prefix": d + "/", "nprocs": case["nprocs"], "log_level": 3, "timeout": 120.0,
              "s3": {"buckets": [], "accounts": accounts, "objects": decoys}, "jitter": case["jitter"], "steps": steps + [{"s": "s3dump", "dir": os.path.join(d, "s3")}]}
    r = ctx.run(script)
    dump = stream.s3_dump(r)
    if dump["protocol_errors"]:
        raise Violation("a request a server would refuse: %s" % dump["protocol_errors"][:3])
    good = [i for i, s in enumerate(ss) if s["fate"] == "full"]
    lab, nontriv = [case["mode"], "streams=%d" % len(ss)], False
    if len(good) == len(ss) and dump["denied"]:
        raise Violation("the server refused %s" % dump["denied"][:3])
    have = {}
    for o in dump["objects"]:
        with open(o["file"], "rb") as f:
            have[(o["bucket"], bytes.fromhex(o["key"]).decode("utf-8", "surrogateescape"))] = f.read()
    exp = {(o["bucket"], "decoy"): b"untouched" for o in decoys}
    for i, s in enumerate(ss):
        cre = [x for x in r["results"] if x.get("s") == "create" and x["id"] == i][0]
        lab.append(s["fate"])
        if s["fate"] == "full":
            apps = [x for x in r["results"] if x.get("s") == "append" and x["id"] == i]
            lens = stream.append_list(s["cfg"])
            if not cre["ok"] or len(apps) != len(lens) or any(x["rc"] or x["bytes_out"] != n for x, n in zip(apps, lens)):
                raise Violation("stream %d failed (%s): %s" % (i, dump["denied"][:2], r["err"][-300:]))
            for k, v in want[i].items():
                exp[(s["bucket"].strip(WS), s["prefix"] + "/" + k)] = v
            nontriv |= s["cfg"]["nframes"] > 0
            if any(s[k] != s[k].strip(WS) for k in ("endpoint", "key", "secret", "bucket")):
                lab.append("blanks around")
            lab.append("https" if s["endpoint"].strip(WS).startswith("https") else "http")
        elif i in strangers or s["fate"] == "no access":
            nontriv = True
            if cre["ok"]:
                raise Violation("stream %d was created although the server refuses its requests" % i)
    for k in sorted(set(exp) | set(have)):
        if k not in exp:
            raise Violation("object %s should not be there" % (k,))
        if k not in have:
            raise Violation("object %s is missing" % (k,))
        if have[k] != exp[k]:
            raise Violation("object %s has another content" % (k,))
    return {"nontrivial": nontriv, "labels": lab}


pad = st.sampled_from(["", "", "", " ", "\t", "\n", "  "])
word = st.text(st.sampled_from("abcXYZ0189+/=-_.~ %&?#:@é"), min_size=1, max_size=40).map(lambda s: s.strip(WS) or "k")


@st.composite
def padded(draw, w):
    return draw(pad) + draw(w) + draw(pad)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    base = {"endpoint": draw(st.sampled_from(["http://localhost:9000", "https://s3.example.org", "localhost:9000", "http://10.0.0.1", "https://s3.eu-central-1.amazonaws.com:443", "s3.https.example", "HTTPS://host"])),
            "key": draw(word), "secret": draw(word)}
    out = []
    for i in range(n):
        a = dict(base)
        if i:  # differ in one thing or in everything
            for k in draw(st.sampled_from([[], ["secret"], ["key"], ["endpoint"], ["key", "secret"], ["endpoint", "key", "secret"]])):
                a[k] = draw(st.sampled_from(["http://localhost:9001", "https://localhost:9000", "other:1"])) if k == "endpoint" else draw(word)
        s = {k: draw(pad) + v + draw(pad) for k, v in a.items()}
        s["bucket"] = draw(pad) + "bucket-%d" % (i if draw(st.booleans()) else 7 + i) + draw(pad)
        s["prefix"] = draw(st.sampled_from(["store", "store", "a/b", "s %d" % i]))
        s["fate"] = draw(st.sampled_from(["full"] * 6 + ["stranger", "no access"]))
        s["cfg"] = draw(gen.stream_case(cap=12, max_px=64, max_chunks=8, max_inner=3, small=True, compression=gen.compressions, partitions="frames"))
        out.append(s)
    # a stranger differs from everybody else
    for i, s in enumerate(out):
        if s["fate"] == "stranger":
            s["secret"] = s["secret"].strip(WS) + "-wrong%d" % i
    return {"streams": out, "mode": draw(st.sampled_from(["one by one", "interleaved", "threads"])), "nprocs": draw(st.sampled_from([1, 2, 4])), "jitter": draw(jitter)}


CHECK = {
    "id": "C28",
    "level": "exploration",
    "rule": "one to three S3 streams (one after the other, interleaved, or on threads) with random endpoints, keys and buckets, which differ in one or several of them, with blanks around; some unknown to "
            "the server or without access to their bucket; other buckets and objects lie around; non-trivial: frames were streamed, or a stream had to be refused. Oracle: the fake server refuses requests that do not come with the "
            "account's own endpoint, protocol and keys or go to a bucket of somebody else; objects on the server = the files the same stream writes, in its bucket, plus everything that was there.",
    "assumptions": ["minio-cpp is replaced by an in-memory S3 server with the same interface"],
    "technique": "model-based property-based testing",
    "concurrent": True,
    "subs": [Sub("identity", cases(), fn, 900, 12000, "stream:asan")],
}
