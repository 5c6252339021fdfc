"""Large and deep trees on disk: without recursion, and without paths longer
than one element.

A tree is a dict: path -> node, with the nodes
  ("d", mode, owner, mtime), ("f", mode, owner, mtime, bytes),
  ("l", owner, target)
The root "/" is not part of it."""
import os
import random
import stat as S

from .sandbox import enc, dec


def split(p):
    i = p.rindex("/")
    return p[:i], p[i + 1:]


def build(root, tree):
    kids = {}
    for p in tree:
        a, b = split(p)
        kids.setdefault(a, []).append(b)
    # Directories list their entries in the order of creation.
    rng = random.Random(len(tree))
    for l in kids.values():
        rng.shuffle(l)
    start = os.getcwd()
    os.chdir(root)
    try:
        frames = []

        def enter(path):
            dirs = []
            for nm in kids.get(path, ()):
                n = tree[path + "/" + nm]
                e = enc(nm)
                if n[0] == "d":
                    os.mkdir(e, 0o700)
                    dirs.append(nm)
                elif n[0] == "f":
                    fd = os.open(e, os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                                 0o600)
                    v = memoryview(n[4])
                    while v:
                        v = v[os.write(fd, v):]
                    if n[2]:
                        os.fchown(fd, n[2], n[2])
                    os.fchmod(fd, n[1])
                    os.utime(fd, ns=(n[3] * 10 ** 9, n[3] * 10 ** 9))
                    os.close(fd)
                else:
                    os.symlink(enc(n[2]), e)
                    if n[1]:
                        os.lchown(e, n[1], n[1])
            frames.append([path, dirs])

        enter("")
        while frames:
            path, dirs = frames[-1]
            if dirs:
                nm = dirs.pop()
                os.chdir(enc(nm))
                enter(path + "/" + nm)
                continue
            frames.pop()
            if frames:
                n = tree[path]
                os.chown(".", n[2], n[2])
                os.chmod(".", n[1])
                os.utime(".", ns=(n[3] * 10 ** 9, n[3] * 10 ** 9))
                os.chdir("..")
    finally:
        os.chdir(start)


def listing(root, skip=("/repo",), limit=1 << 24):
    res = {}
    start = os.getcwd()
    os.chdir(root)
    try:
        frames = []

        def enter(path):
            dirs = []
            with os.scandir(".") as it:
                names = [(e.name, e.stat(follow_symlinks=False)) for e in it]
            for e, st in names:
                p = path + "/" + os.fsencode(e).decode("latin-1")
                if p in skip:
                    continue
                m = st.st_mode
                own = st.st_uid if st.st_uid == st.st_gid else \
                    (st.st_uid, st.st_gid)
                mt = st.st_mtime_ns // 10 ** 9
                if S.S_ISDIR(m):
                    res[p] = ("d", m & 0o7777, own, mt)
                    dirs.append(e)
                elif S.S_ISREG(m):
                    if st.st_size > limit:
                        data = ("size", st.st_size)
                    else:
                        with open(e, "rb") as fh:
                            data = fh.read()
                    res[p] = ("f", m & 0o7777, own, mt, data)
                elif S.S_ISLNK(m):
                    res[p] = ("l", own, dec(os.readlink(enc(e)
                              if isinstance(e, str) and e.isascii()
                              else os.fsencode(e))))
                else:
                    res[p] = ("?", m)
            frames.append([path, dirs])

        enter("")
        while frames:
            path, dirs = frames[-1]
            if dirs:
                e = dirs.pop()
                os.chdir(e)
                enter(path + "/" + os.fsencode(e).decode("latin-1"))
                continue
            frames.pop()
            if frames:
                os.chdir("..")
    finally:
        os.chdir(start)
    return res


def wipe(top):
    """Removes the content of a scratch directory."""
    assert "/nbv-" in top, top
    start = os.getcwd()
    os.chdir(top)
    try:
        names = []

        def enter():
            dirs = []
            with os.scandir(".") as it:
                for e in list(it):
                    if e.is_dir(follow_symlinks=False):
                        dirs.append(e.name)
                    else:
                        os.unlink(e.name)
            names.append(dirs)

        enter()
        here = []
        while names:
            if names[-1]:
                d = names[-1].pop()
                os.chmod(d, 0o700)
                os.chdir(d)
                here.append(d)
                enter()
                continue
            names.pop()
            if names:
                os.chdir("..")
                os.rmdir(here.pop())
    finally:
        os.chdir(start)


def differences(exp, act, limit=4):
    if exp == act:
        return []
    res = []
    for p in exp.keys() | act.keys():
        e, a = exp.get(p), act.get(p)
        if e != a:
            def show(x):
                s = repr(x)
                return s if len(s) < 120 else s[:120] + "..."
            q = p if len(p) < 80 else "%s...(%d)" % (p[:80], len(p))
            res.append("%s: expected %s, found %s" % (q, show(e), show(a)))
            if len(res) >= limit:
                break
    return res
