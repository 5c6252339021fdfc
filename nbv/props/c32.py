"""How the file system keeps files makes no difference."""
import ctypes
import fcntl
import os
import random
import shutil

from .. import fs, gen, hist
from ..driver import Violation
from ..sandbox import InfraError, dec, enc
from ..world import World, mutate, repo_listing, tree_of
from .c30 import recorded, same_now, stored

ID = "C32"
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing: the same generated history " \
    "on file systems which keep the same files in different ways"
NOTE = "Each generated history is played twice: once on plain files, and " \
    "once on the same files kept differently, changing before every " \
    "command: equal files are hard links of each other, directories list " \
    "their entries in another order, files are copied to new inodes, have " \
    "holes, other fractions of seconds, access times, extended attributes, " \
    "or are open and locked by somebody; directories and the repository are " \
    "file systems of their own; the files of the repository as " \
    "well, of which snapshots of hard links have to stay as they are. Output, exit statuses, metadata (apart from times), stored " \
    "contents and restored trees have to be equal, and what the reference " \
    "model predicts."
FAMILIES = [("history", 2600, 70000), ("linked", 1600, 45000),
            ("wide", 300, 8000)]
RULE = "A case is a history with the ways to keep the files. Non-trivial: " \
    "something was kept differently during a command with effects."
ASSUMPTIONS = ["recorded times are whole seconds"]
KINDS = ["order", "inode", "links", "ns", "holes", "atime", "xattr", "open",
         "repo", "snapshot", "mount", "device", "readonly"]
LAST = ["snapshot", "mount", "device", "readonly"]


def generate(rng, family, idx, tier):
    wide = family == "wide"
    linked = family == "linked"
    sc = hist.history(rng, backups=(2, 4), gc=0.2, away=0.4, here=0.4,
                      integrity=0.2, decline=0.05, quiet=0.15, cfgchange=0.2,
                      n=(20, 50) if wide else (4, 12),
                      muts=(5, 15) if wide else (1, 5), big=0.06,
                      hard=0.5 if linked else 0.05)
    cur = tree_of(sc["tree"])
    for o in sc["ops"]:
        if o[0] == "fs":
            cur = mutate(cur, o[1])
        if o[0] == "away":
            if rng.random() < 0.4:
                o[1] = []
            elif linked:
                t = tree_of(o[1])
                ln = gen.hard_links(rng, t)
                o[1] = gen.pairs(mutate(t, ln))
                o.append([m[1:] for m in ln])
            if rng.random() < 0.5:
                o[3] = "/"
    sc["odd"] = [[[rng.choice(KINDS), rng.randint(0, 1 << 30)]
                  for _ in range(rng.choice([0, 1, 1, 2, 4]))]
                 if o[0] not in ("cfg", "fs") else [] for o in sc["ops"]]
    return sc


class Flat(World):
    """No hard links."""

    def link(self, pairs):
        pass


class Odd(World):
    """Files are kept differently."""
    how = ()

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.held = []
        self.snap = {}
        self.mounts = []

    def keep(self):
        for kind, seed in sorted(
                self.how, key=lambda x: LAST.index(x[0]) if x[0] in LAST
                else -1):
            globals()["do_" + kind](self, random.Random(seed))
            self.case.tag("kept differently: " + kind)

    def nb(self, args, stdin="", check=None, **kw):
        try:
            r = super().nb(args, stdin, **kw)
            if check is not None:
                check()
            return r
        finally:
            for at, fd in reversed(self.mounts):
                if fd is not None:
                    copy_back(at, fd)
                    os.close(fd)
                libc().umount2(at, 2)
            self.mounts = []
            for fd in self.held:
                os.close(fd)
            self.held = []
            snap, self.snap = self.snap, {}
            for path, was in snap.items():
                now = look(path)
                os.unlink(path)
                if now != was:
                    raise Violation("%s changed a file of a snapshot of the "
                                    "repository (hard links): %s" % (
                                        args, path), "snapshot")

    def refused(self, args, what):
        """Commands that write must refuse a read-only repository."""
        if all(h[0] != "readonly" for h in self.how):
            return
        self.how = [h for h in self.how if h[0] != "readonly"]
        if not do_readonly(self, None):
            return
        before = repo_listing(self.repo_dir())
        lst = {}
        r = self.nb(args, "y\n", check=lambda: lst.update(
            repo_listing(self.repo_dir())))
        self.died(r, "%s with a read-only repository" % what)
        if "(y/n)" in r.out:
            raise Violation("%s asks before it refuses a read-only "
                            "repository" % what, "readonly", r.brief())
        if lst != before:
            raise Violation("%s changes a read-only repository" % what,
                            "readonly")
        self.same_tree(self.tree, "%s with a read-only repository" % what)

    def backup(self, *a, **kw):
        self.refused(["/repo"], "backup")
        self.keep()
        return super().backup(*a, **kw)

    def restore(self, *a, **kw):
        # (What is restored has to stay behind.)
        self.how = [h for h in self.how if h[0] != "mount"]
        self.keep()
        return super().restore(*a, **kw)

    def gc(self):
        self.refused(["/repo", "gc"], "gc")
        self.keep()
        return super().gc()

    def integrity(self):
        self.keep()
        return super().integrity()


def look(path):
    st = os.lstat(path)
    with open(path, "rb") as fh:
        return (st.st_mode, st.st_uid, st.st_gid, st.st_size, st.st_mtime_ns,
                fh.read())


def times(path, st, ns=None):
    os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns if ns is None else ns),
             follow_symlinks=False)


def reorder(path, rng):
    st = os.lstat(path)
    names = os.listdir(path)
    rng.shuffle(names)
    for nm in names:
        os.rename(path + b"/" + nm, path + b"/\xfftmp")
        os.rename(path + b"/\xfftmp", path + b"/" + nm)
    times(path, st)


def renew(path):
    """The same file with another inode."""
    up = os.path.dirname(path)
    ust, st = os.lstat(up), os.lstat(path)
    with open(path, "rb") as fh:
        data = fh.read()
    os.unlink(path)
    with open(path, "wb") as fh:
        fh.write(data)
    os.chown(path, st.st_uid, st.st_gid)
    os.chmod(path, st.st_mode & 0o7777)
    times(path, st)
    times(up, ust)


def files(w, rng, types="f", share=0.5):
    return [p for p in sorted(w.tree) if w.tree[p]["t"] in types and
            rng.random() < share]


def do_order(w, rng):
    for p in files(w, rng, "d", 0.7):
        if p != "/":
            reorder(enc(w.root + p), rng)


def do_inode(w, rng):
    for p in files(w, rng):
        renew(enc(w.root + p))


def do_links(w, rng):
    seen = {}
    for p in files(w, rng, "f", 0.8):
        n = fs.plain(w.tree[p])
        key = tuple(sorted((k, v) for k, v in n.items() if k != "ign"))
        seen.setdefault(key, []).append(p)
    for ps in seen.values():
        for p in ps[1:]:
            if w.tree[p] == w.tree[ps[0]]:
                up = os.path.dirname(enc(w.root + p))
                st = os.lstat(up)
                os.unlink(enc(w.root + p))
                os.link(enc(w.root + ps[0]), enc(w.root + p))
                times(up, st)
                w.linked = True


def do_ns(w, rng):
    for p in files(w, rng, "fd"):
        if p != "/":
            path = enc(w.root + p)
            st = os.lstat(path)
            times(path, st, st.st_mtime_ns // 10 ** 9 * 10 ** 9 +
                  rng.choice([0, 1, 999999999, rng.randrange(10 ** 9)]))


def do_holes(w, rng):
    for p in files(w, rng):
        path = enc(w.root + p)
        st = os.lstat(path)
        with open(path, "rb") as fh:
            data = fh.read()
        if st.st_nlink > 1:
            continue
        fd = os.open(path, os.O_WRONLY)
        # (Space beyond the end, and none where there are only zeros.)
        os.ftruncate(fd, 0)
        os.ftruncate(fd, len(data))
        for i in range(0, len(data), 4096):
            part = data[i:i + 4096]
            if part.strip(b"\0"):
                os.pwrite(fd, part, i)
        os.close(fd)
        os.chmod(path, st.st_mode & 0o7777)
        times(path, st)


def do_atime(w, rng):
    for p in files(w, rng, "fld"):
        path = enc(w.root + ("" if p == "/" else p))
        st = os.lstat(path)
        os.utime(path, ns=(rng.choice([0, 1 << 61, st.st_mtime_ns]),
                           st.st_mtime_ns), follow_symlinks=False)


def do_xattr(w, rng):
    for p in files(w, rng, "fd"):
        try:
            os.setxattr(enc(w.root + p), "trusted.nbv", b"x" * 10)
            w.case.tag("extended attribute")
        except OSError:
            return


def do_open(w, rng):
    for p in files(w, rng):
        fd = os.open(enc(w.root + p), os.O_RDWR)
        w.held.append(fd)
        try:
            if rng.random() < 0.5:
                fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            pass


def do_repo(w, rng):
    top = enc(w.repo_dir())
    for d, ds, fl in os.walk(top, topdown=False):
        for x in fl:
            if rng.random() < 0.6:
                renew(d + b"/" + x)
            if rng.random() < 0.3:
                os.utime(d + b"/" + x, (5, rng.choice([0, 1, 1 << 31])))
            if rng.random() < 0.2:
                os.chmod(d + b"/" + x, rng.choice([0o400, 0o777, 0o600]))
        reorder(d, rng)


def do_snapshot(w, rng):
    """Hard links of all files of the repository, as of "cp -al"."""
    top = enc(w.repo_dir())
    if w.snap:
        return
    i = 0
    for d, ds, fl in os.walk(top):
        for x in fl:
            i += 1
            path = enc(w.root) + b".snap%d" % i
            os.link(d + b"/" + x, path)
            w.snap[path] = look(path)


def libc():
    return ctypes.CDLL(None, use_errno=True)


private = []


def side(w):
    """A file system of its own, next to the root, or None. It exists only
    in a name space of the worker."""
    c = libc()
    if not private:
        private.append(c.unshare(0x20000) == 0 and  # CLONE_NEWNS
                       c.mount(b"none", b"/", None, 0x44000, None) == 0)
    if not private[0]:
        return None
    path = enc(w.root) + b".side"
    os.makedirs(path, exist_ok=True)
    if c.mount(b"tmpfs", path, b"tmpfs", 0, b"mode=755") != 0:
        return None
    return path


def place(path, at):
    if libc().mount(path, at, None, 8192, None) != 0:  # MS_MOVE
        raise InfraError("moving a mount failed")


def do_mount(w, rng):
    """A directory with all its contents is a file system of its own."""
    dirs = [p for p in sorted(w.tree) if w.tree[p]["t"] == "d" and p != "/" and
            not p.startswith("/repo") and fs.children(w.tree, p)]
    path = side(w) if dirs else None
    if path is None:
        return
    top = rng.choice(dirs)
    new = {q[len(top):] or "/": w.tree[q] for q in fs.subtree(w.tree, top)}
    fs.sync(dec(path), {"/": None}, new)
    fs.attrs(dec(path), "/", w.tree[top])
    place(path, enc(w.root + top))
    w.mounts.append((enc(w.root + top), None))
    w.case.tag("mounted")


def do_device(w, rng):
    """The repository is on a file system of its own."""
    if any(a == enc(w.repo_dir()) for a, _ in w.mounts):
        return
    path = side(w)
    if path is None:
        return
    at = enc(w.repo_dir())
    fd = os.open(at, os.O_RDONLY | os.O_DIRECTORY)
    copy_tree(at, path)
    place(path, at)
    w.mounts.append((at, fd))
    w.case.tag("repository mounted")


def do_readonly(w, rng):
    """The repository is on a file system that cannot be written."""
    if any(a == enc(w.repo_dir()) for a, _ in w.mounts):
        return False
    path = side(w)
    if path is None:
        return False
    at = enc(w.repo_dir())
    copy_tree(at, path)
    # MS_REMOUNT | MS_BIND | MS_RDONLY
    if libc().mount(None, path, None, 32 | 4096 | 1, None) != 0:
        libc().umount2(path, 2)
        return False
    place(path, at)
    w.mounts.append((at, None))
    w.case.tag("read-only repository")
    return True


def copy_tree(a, b):
    for d, ds, fl in os.walk(a):
        to = b + d[len(a):]
        for x in ds:
            os.mkdir(to + b"/" + x)
        for x in fl:
            with open(d + b"/" + x, "rb") as fh:
                data = fh.read()
            with open(to + b"/" + x, "wb") as fh:
                fh.write(data)
    for d, ds, fl in os.walk(a, topdown=False):
        for x in fl + [b""]:
            st = os.lstat(d + b"/" + x)
            q = b + d[len(a):] + b"/" + x
            os.chown(q, st.st_uid, st.st_gid)
            os.chmod(q, st.st_mode & 0o7777)
            times(q, st)


def copy_back(at, fd):
    below = b"/proc/self/fd/%d" % fd
    for x in os.listdir(below):
        q = below + b"/" + x
        if os.path.isdir(q):
            shutil.rmtree(q)
        else:
            os.unlink(q)
    copy_tree(at, below)


def run(ctx, sc, case):
    a = Flat(ctx, case)
    b = Odd(ctx, case, name="r3")
    for w in (a, b):
        w.set_tree(tree_of(sc["tree"]))
        w.set_config(sc["cfg"])
    for op, how in zip(sc["ops"], sc["odd"]):
        case.evals += 1
        got = []
        b.how = how
        for w in (a, b):
            w.last = None
            hist.play(w, [op])
            got.append(w.last)
        ra, rb = got
        if ra is None:
            continue
        if op[0] == "here":
            if a.vague or b.vague:
                return
            same_now(a, b)
            t = dict(a.tree)
            for p in b.loose:
                if p in t:
                    t[p] = dict(t[p], c=b.tree[p]["c"])
            a.set_tree(t)
        x = (ra.code, sorted(ra.out.split("\n")), sorted(ra.err.split("\n")))
        y = (rb.code, sorted(rb.out.split("\n")), sorted(rb.err.split("\n")))
        if x != y and (ra.code == 0 or ra.code != rb.code or
                       bool(ra.err) != bool(rb.err)):
            # (An error message names the first path in question.)
            raise Violation("%s depends on how files are kept (%s)" % (
                op[0], how), "differ", {"plain": ra.brief(),
                                        "other": rb.brief()})
        if recorded(a) != recorded(b):
            raise Violation("what %s records depends on how files are kept "
                            "(%s)" % (op[0], how), "meta")
        if stored(a) != stored(b):
            raise Violation("what %s stores depends on how files are kept "
                            "(%s)" % (op[0], how), "stored")
        if how and ("proceed?" in rb.out or "restore?" in rb.out):
            case.nontrivial = True
    d = fs.diff(dict(a.scan(), **{"/": b.scan()["/"]}), b.scan())
    if d:
        raise Violation("the trees differ: %s" % "; ".join(d), "tree")
