#!/usr/bin/env python3
"""Builds harness workers from /repo's current working tree into /verif/.build/<variant>/.

usage: build.py TARGET...      e.g.  build.py stream:asan core_dims:asan
"""
import os, re, subprocess, sys, hashlib, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-include", "string", "-w",
          "'-DACQUIRE_ZARR_API_VERSION=\"0.0.1\"'"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=enum,alignment,nonnull-attribute,pointer-overflow,vptr",
             "-fno-sanitize-recover=all", "-DSHIM_PTHREAD_JITTER"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2", "-DNDEBUG", "-DSHIM_PTHREAD_JITTER"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "plain": []}

# target -> (library: core|full, modules)
TARGETS = {
    "stream": ("full", ["mod_stream.cpp"]),
    "internal": ("full", ["mod_internal.cpp"]),
    "pool": ("core", ["mod_pool.cpp"]),
    "files": ("core", ["mod_files.cpp"]),
    "dims": ("core", ["mod_dims.cpp"]),
    "misc": ("core", ["mod_misc.cpp"]),
    "logger": ("full", ["mod_logger.cpp"]),
    "py": ("full", ["mod_py.cpp", os.path.join(REPO, "python", "acquire-zarr-py.cpp")]),
}


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx", ".c")):
                out.append(os.path.join(root, f))
    return out


def include_dirs():
    dirs = [os.path.join(REPO, "include")]
    for root, ds, files in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        dirs.append(root)
    return dirs


_memo = {}


def needs_minio(path, incs):
    """does the file include <miniocpp/...>, directly or through the project's headers?"""
    if path in _memo:
        return _memo[path]
    _memo[path] = False
    found = False
    with open(path, errors="replace") as f:
        for line in f:
            m = re.match(r'\s*#\s*include\s*["<]([^">]+)[">]', line)
            if not m:
                continue
            if m.group(1).startswith("miniocpp/"):
                found = True
                break
            for d in [os.path.dirname(path)] + incs:
                p = os.path.join(d, m.group(1))
                if os.path.isfile(p):
                    if needs_minio(p, incs):
                        found = True
                    break
            if found:
                break
    _memo[path] = found
    return found


def build(targets, quiet=True):
    """targets: list of 'name:variant'. Returns {target: path}. Raises RuntimeError with the compiler's output."""
    os.makedirs(BUILD, exist_ok=True)
    incs = include_dirs()
    srcs = sources()
    core = [s for s in srcs if not needs_minio(s, incs)]
    lines = ["ninja_required_version = 1.5", "builddir = %s" % BUILD,
             "rule cxx", "  command = g++ -MMD -MF $out.d $flags -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule link", "  command = g++ $ldflags $in -o $out $libs"]
    done = set()
    result = {}
    iflags = " ".join("-I%s" % d for d in incs) + " -I%s -I%s/fake_minio -I%s/fake_pybind11" % (H, H, H)

    def obj(src, variant):
        o = os.path.join(BUILD, variant, hashlib.sha1(src.encode()).hexdigest()[:8] + "_" + os.path.basename(src) + ".o")
        if o not in done:
            done.add(o)
            flags = " ".join(COMMON + VARIANTS[variant]) + " " + iflags
            lines.append("build %s: cxx %s\n  flags = %s" % (o, src, flags))
        return o

    for t in targets:
        name, variant = t.split(":")
        lib, mods = TARGETS[name]
        objs = [obj(os.path.join(H, m), variant) for m in mods + ["worker.cpp", "shim.cpp"]]
        if lib == "full":
            objs.append(obj(os.path.join(H, "fake_minio", "fake_s3.cpp"), variant))
        objs += [obj(s, variant) for s in (core if lib == "core" else srcs)]
        exe = os.path.join(BUILD, variant, "w_" + name)
        lines.append("build %s: link %s\n  ldflags = -rdynamic %s\n  libs = -lblosc -lpthread -ldl" % (exe, " ".join(objs), " ".join(LINK[variant])))
        result[t] = exe
        os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    tag = hashlib.sha1(" ".join(sorted(targets)).encode()).hexdigest()[:8]
    nf = os.path.join(BUILD, "build_%s.ninja" % tag)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        text = "\n".join(lines) + "\n"
        with open(nf, "w") as f:
            f.write(text)
        r = subprocess.run(["ninja", "--quiet", "-f", nf] + list(result.values()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("build failed\n" + r.stdout[-8000:])
    return result


if __name__ == "__main__":
    print(build(sys.argv[1:]))
