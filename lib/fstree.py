"""Plants directory trees for the code under test and takes snapshots of them."""
import os, stat

from .workers import UID


def own(p, mode=None):
    os.chown(p, UID, UID, follow_symlinks=False)
    if mode is not None and not os.path.islink(p):
        os.chmod(p, mode)


def plant(root, entries):
    """entries: list of [relpath, kind, arg]; kinds: file, dir, link, fifo. Conflicting entries are skipped."""
    for rel, kind, arg in entries:
        p = os.path.join(root, rel) if rel else root
        parent = os.path.dirname(p)
        todo = []
        q = parent
        while not os.path.lexists(q):
            todo.append(q)
            q = os.path.dirname(q)
        if not os.path.isdir(q) or os.path.islink(q) or os.path.lexists(p):
            continue
        for q in reversed(todo):
            os.mkdir(q)
            own(q, 0o755)
        if kind == "file":
            with open(p, "wb") as f:
                f.write(arg.encode())
            own(p, 0o644)
        elif kind == "rofile":
            with open(p, "wb") as f:
                f.write(arg.encode())
            own(p, 0o444)
        elif kind == "dir":
            os.mkdir(p)
            own(p, 0o755)
        elif kind == "link":
            os.symlink(arg, p)
            own(p)
        elif kind == "fifo":
            os.mkfifo(p)
            own(p, 0o644)


def snapshot(root, exclude=()):
    """{relpath: description} of everything below root (links not followed); `exclude` are absolute paths left out with their content"""
    out = {}

    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if p in exclude:
                continue
            r = rel + n
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[r] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[r] = ("dir", stat.S_IMODE(st.st_mode))
                walk(p, r + "/")
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[r] = ("file", stat.S_IMODE(st.st_mode), f.read())
            else:
                out[r] = ("other", stat.S_IFMT(st.st_mode))
    walk(root, "")
    return out


def diff(a, b):
    """short description of the first difference of two snapshots, or None"""
    for k in sorted(set(a) | set(b)):
        if k not in b:
            return "%s disappeared" % k
        if k not in a:
            return "%s appeared" % k
        if a[k] != b[k]:
            return "%s changed from %s to %s" % (k, str(a[k])[:120], str(b[k])[:120])
    return None


def tree(root):
    """(files, dirs, others) relative to root"""
    fs, ds, os_ = set(), set(), set()
    for k, v in snapshot(root).items():
        (fs if v[0] == "file" else ds if v[0] == "dir" else os_).add(k)
    return fs, ds, os_
