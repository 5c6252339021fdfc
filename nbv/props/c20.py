"""Every command stays within its bounds."""
import os

from .. import config, fs, gen, hist, model
from ..driver import Violation
from ..sandbox import dec, enc
from ..world import base_tree, install_repo, mutate, repo_listing, tree_of
from . import c10

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing with monitors of the system " \
    "calls and of inode changes, with fault injection"
NOTE = "Every command of random histories, successful, declined, refused or " \
    "hit by a failing system call, is traced. Each mutating system call " \
    "must aim at a place the command may touch: the repository for backup " \
    "and collection (but not the config), the lock file for checks and " \
    "declined commands, and for restores the recorded paths at and above " \
    "the requested one. Besides, the inodes of everything that must stay " \
    "as it is (numbers, change times, sizes, owners, modes) are compared " \
    "before and after. In 'litter' the repository contains foreign " \
    "files, and leftovers which are links to files elsewhere."
FAMILIES = [("history", 1100, 36000), ("restore", 1100, 36000),
            ("faults", 900, 30000), ("litter", 700, 22000),
            ("usage", 500, 16000), ("user", 900, 30000)]
RULE = "A case is a history of traced commands. Non-trivial: at least three " \
    "traced commands, one of which modified something."
ASSUMPTIONS = ["access times are not considered"]


def generate(rng, family, idx, tier):
    if family == "user":
        # A backup by somebody who can't read everything.
        from . import c28
        return {"user": c28.generate(rng, rng.choice(["backup", "backup",
                                                      "repo"]), idx, tier)}
    kw = {}
    if family == "restore":
        kw = dict(here=0.8, away=0.5, hard=0.25)
    sc = hist.history(rng, backups=(1, 3), n=(2, 9), decline=0.2, quiet=0.2,
                      gc=0.2, integrity=0.2, cfgchange=0.3, links=0.25, **kw)
    sc["spell"] = [rng.choice(["/repo", "/repo", "repo", "/repo/", "./repo"])
                   for _ in range(3)]
    # Bystanders.
    sc["tree"] += [x for x in [
        ["/x/dir", {"t": "d", "m": 0o755, "u": 0, "g": 0, "mt": 1000000000}],
        ["/x/dir/f", {"t": "f", "m": 0o644, "u": 0, "g": 0, "mt": 1000000000,
                      "c": ["bystander", 50]}],
        ["/x", {"t": "d", "m": 0o755, "u": 0, "g": 0, "mt": 1000000000}]]]
    sc["tree"].sort(key=lambda x: x[0])
    if family == "restore":
        # Foreign things among the recorded ones.
        extra = [["put", p + "/" + rng.choice(["foreign", "zz"]),
                  gen.node(rng)] for p, n in sc["tree"]
                 if n["t"] == "d" and p.startswith(("/s", "/t")) and
                 rng.random() < 0.5]
        sc["ops"].append(["fs", extra])
        m, _ = gen.touch_muts(rng, {p: n for p, n in [["/", base_tree()["/"]]]
                                    + sc["tree"]}, rng.randint(1, 4),
                              targets=["/x/dir", "/x/dir/f", "/x", "a", "/s"])
        if rng.random() < 0.4:
            m += gen.hard_links(rng, mutate(tree_of(sc["tree"]), m))
        sc["ops"].append(["fs", m])
        sc["ops"].append(["here", rng.randint(0, 3),
                          hist.restore_path(rng, {p: n for p, n in
                                                  sc["tree"]})])
    if family == "faults":
        sc["faults"] = [[rng.choice(["backup", "gc", "integrity",
                                     "restore"]),
                         [rng.randint(0, 1 << 20), rng.randint(0, 1 << 20),
                          1 if rng.random() < 0.3 else 0, 0]]
                        for _ in range(4)]
        m, _ = gen.touch_muts(rng, gen.base_tree(), 3)
        sc["last"] = m
    if family == "litter":
        lt = gen.tree(rng, tops=("/j",), n=(2, 9), links=0.4, targets=[
            "/x/dir", "/x/dir/f", "/x", "../../x", "/s", "..", "/",
            "../config"])
        sc["litter"] = [[p, n] for p, n in gen.pairs(lt)]
        t = tree_of(sc["tree"])
        for o in sc["ops"]:
            if o[0] == "fs":
                t = mutate(t, o[1])
        m, t = gen.touch_muts(rng, t, rng.randint(1, 4), big=0.3)
        sc["more"] = m
        # What an interrupted backup, or somebody else, has left.
        sc["tmp"] = rng.choice([
            None, ["l", "/x/dir/f"], ["l", "/x/dir/new"], ["l", "config"],
            ["l", "metadata"], ["l", rng.choice(sorted(t))], ["h", "/x/dir/f"],
            ["h", "/repo/metadata"], ["f", rng.randint(0, 5000)]])
    if family == "usage":
        sc["lines"] = [rng.choice([
            ["gc", "x"], ["integrity", "x"], ["0", "/s", "x"], ["frob"],
            ["99", "/s"], ["0", "/nope"], ["0", "/x/dir"], ["-1"],
            ["0", "/s/../x"], ["1x", "/s"], [""], ["0", "s"]])
            for _ in range(3)]
        sc["badcfg"] = rng.choice([
            "[copy]\n/s\n/s\n", "nonsense\n", "[copy]\n/s/../t\n",
            "[copy]\n/s//(\n", "[frob]\n/s\n", "[copy]\n//a\n//.\n"])
    return sc


# -- monitoring ---------------------------------------------------------------

AT = -100
FIRST = {"creat", "unlink", "rmdir", "mkdir", "chmod", "chown", "lchown",
         "utime", "utimes", "truncate", "mknod", "setxattr"}
ATS = {"mkdirat", "unlinkat", "fchmodat", "fchownat", "futimesat",
       "utimensat", "mknodat"}
FDS = {"fchmod", "fchown", "ftruncate", "fallocate"}


def norm(p):
    res = []
    for x in p.split("/"):
        if x in ("", "."):
            continue
        if x == ".." and res and res[-1] != "..":
            res.pop()
        elif x != "..":
            res.append(x)
    return "/" + "/".join(res)


def targets(log):
    """(call, path) of everything a traced run modified."""
    fds = {}
    for l in log or ():
        if "n" not in l:
            continue
        n, a, r = l["n"], l["a"], l.get("r", 0)
        p = [dec(bytes.fromhex(x)) for x in l["p"]]

        def at(fd, path):
            if path.startswith("/"):
                return norm(path)
            base = "/" if fd == AT or fd == AT & 0xffffffff else \
                fds.get(fd, "/?")
            return norm(base + "/" + path)

        if r is not None and r < 0:
            continue
        if n in ("open", "openat", "creat"):
            path = at(AT, p[0]) if n != "openat" else at(a[0], p[0])
            fds[r] = path
            flags = a[1] if n == "open" else a[2] if n == "openat" else 0o1101
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                yield l, path
        elif n == "close":
            fds.pop(a[0], None)
        elif n in ("dup", "dup2", "dup3"):
            fds[r] = fds.get(a[0], "/?")
        elif n in FIRST:
            yield l, at(AT, p[0])
        elif n in ATS:
            yield l, fds.get(a[0], "/?") if p[0] == "" else at(a[0], p[0])
        elif n in FDS:
            yield l, fds.get(a[0], "/?")
        elif n == "rename":
            yield l, at(AT, p[0])
            yield l, at(AT, p[1])
        elif n in ("renameat", "renameat2"):
            yield l, at(a[0], p[0])
            yield l, at(a[2], p[1])
        elif n == "symlink":
            yield l, at(AT, p[1])
        elif n == "symlinkat":
            yield l, at(a[1], p[1])
        elif n == "link":
            yield l, at(AT, p[0])
            yield l, at(AT, p[1])
        elif n == "linkat":
            yield l, at(a[0], p[0])
            yield l, at(a[2], p[1])


def inodes(w, paths):
    res = {}
    for p in paths:
        try:
            st = os.lstat(enc(w.root + p))
        except OSError:
            continue
        res[p] = (st.st_ino, st.st_ctime_ns, st.st_mtime_ns, st.st_mode,
                  st.st_uid, st.st_gid, st.st_size, st.st_nlink)
    return res


class Guard:
    """Watches one run."""

    def __init__(self, w, case, what):
        self.w, self.case, self.what = w, case, what
        self.paths = [p for p in w.tree] + ["/repo/config"]
        self.before = inodes(w, self.paths)
        self.root_only = self.before.get("/")

    def untouched(self, but=()):
        now = inodes(self.w, self.paths)
        for p in self.paths:
            if p in but:
                continue
            x, y = self.before.get(p), now.get(p)
            if x and y and x[-1] > y[-1]:
                # One hard link less.
                x, y = x[:1] + x[2:-1], y[:1] + y[2:-1]
            if x != y:
                raise Violation("%s touched %s: %s -> %s" % (
                    self.what, p, self.before.get(p), now.get(p)), "inode",
                    self.w.last.brief())

    def calls(self, allowed):
        n = 0
        for l, p in targets(self.w.last.log):
            n += 1
            if not allowed(p):
                raise Violation("%s: %s of %s" % (self.what, l["n"], p),
                                "call", self.w.last.brief())
        return n

    def clean(self):
        w = self.w
        names = set(os.listdir(enc(w.repo_dir())))
        left = names & ({b"lockfile", b"tmp"} - self.had)
        if left:
            raise Violation("%s leaves %s" % (self.what, dec(left.pop())),
                            "leftover", w.last.brief())

    def __enter__(self):
        self.had = set(os.listdir(enc(self.w.repo_dir())))
        return self

    def __exit__(self, *exc):
        return False


def in_repo(p):
    return p.startswith("/repo/") and p != "/repo/config" or False


def lock_only(p):
    return p == "/repo/lockfile"


def collecting(p):
    return in_repo(p) and p != "/repo/metadata"


def may_restore(w, bid, path):
    """What a restore may touch, as a predicate."""
    full = "/" + "/".join(x for x in path.split("/") if x)
    ids = w.repo.ids()
    places, doomed = set(), set()
    for n in w.repo.walk():
        st = w.repo.state_at(n, bid, ids)
        if st is None:
            continue
        p = n.path
        if not (full == "/" or p == full or p.startswith(full + "/") or
                full.startswith(p + "/")):
            continue
        cur = fs.stat(w.tree, p)
        if n.policy == "none" and st["t"] == "d" and cur is not None and \
                cur["t"] == "d":
            # An implicit parent which is there keeps its attributes.
            continue
        places.add(p)
        for follow in (False, True):
            r = fs.resolve(w.tree, p, follow and st["t"] == "d")
            if r is not None and not r.startswith("!"):
                places.add(r)
                if w.tree[r]["t"] == "d" and st["t"] != "d":
                    doomed.add(r)
                    doomed.add(p)
        # Where it is going to be, below symlinked directories.
        r = fs.resolve(w.tree, fs.parent(p), True)
        if r is not None and not r.startswith("!"):
            places.add(fs.join(r, fs.name(p)))
        if p in w.tree and w.tree[p]["t"] == "d" and st["t"] != "d":
            doomed.add(p)

    def allowed(p):
        if lock_only(p) or p in places:
            return True
        return any(p.startswith(d + "/") for d in doomed)

    return allowed


def changed_only(w, m, allowed):
    """The paths whose inodes may change in a restore."""
    try:
        exp = m.apply()
    except config.Die:
        exp = None
    res = {"/"}
    for p in w.tree:
        if allowed(p):
            res.add(p)
            res.add(fs.parent(p) or "/")
        if exp is not None and exp.get(p) != w.tree[p]:
            res.add(p)
            if exp.get(p) is None or exp[p]["t"] != w.tree[p]["t"]:
                res.add(fs.parent(p) or "/")
        if exp is None and any(allowed(q) for q in
                               [fs.join(p, "?")]):
            res.add(p)
    if exp is not None:
        for p in exp:
            if p not in w.tree:
                res.add(fs.parent(p))
    else:
        res |= set(w.tree)
    return res


# -- playing ------------------------------------------------------------------

def backup(w, case, answer, spell="/repo"):
    with Guard(w, case, "a backup") as g:
        w.backup(answer, args=[spell], log=True)
        g.calls(in_repo if w.committed else lock_only)
        g.untouched()
        g.clean()
    case.evals += 1
    return w.committed


def collect(w, case, spell="/repo"):
    with Guard(w, case, "a collection") as g:
        r = w.nb([spell, "gc"], log=True)
        if w.has_metadata != (r.code == 0):
            raise Violation("gc: exit status %d" % r.code, "gc", r.brief())
        n = g.calls(collecting)
        g.untouched()
        g.clean()
    case.evals += 1
    return n > 2


def check(w, case, spell="/repo"):
    with Guard(w, case, "an integrity check") as g:
        before = repo_listing(w.repo_dir())
        w.nb([spell, "integrity"], log=True)
        g.calls(lock_only)
        g.untouched()
        g.clean()
        w.same_repo(before, "an integrity check")
    case.evals += 1


def restore(w, case, bid, path, spell="/repo", answer="y"):
    """Restores in place."""
    full = "/" + "/".join(x for x in path.split("/") if x)
    tree = dict(w.tree)
    known = w.has_metadata and not w.aliased(bid)
    m = None
    if known:
        try:
            m = w.plan(bid, full)
        except config.Die:
            m = None
        allowed = may_restore(w, bid, path)
    with Guard(w, case, "a restore of %s to backup %d" % (path, bid)) as g:
        before = repo_listing(w.repo_dir())
        r = w.nb([spell, str(bid), path], stdin=answer + "\n", log=True)
        if w.has_metadata and not known:
            w.adopt(w.scan())
            return False
        act = answer == "y" and m is not None and m.changes
        n = g.calls(allowed if act else lock_only)
        if act:
            g.untouched(changed_only(w, m, allowed))
        else:
            g.untouched()
        g.clean()
        w.same_repo(before, "a restore")
        if m is None and r.code == 0:
            raise Violation("succeeds, although it is not possible", "exit",
                            r.brief())
    w.adopt(w.scan())
    case.evals += 1
    return n > 2


def run(ctx, sc, case):
    if "user" in sc:
        from . import c28
        c28.run(ctx, sc["user"], case)
        return
    w = hist.start(ctx, case, sc)
    runs = active = 0
    sp = sc["spell"] or ["/repo"]
    for op in sc["ops"]:
        k = op[0]
        spell = sp[runs % len(sp)]
        if k == "fs":
            w.mutate(op[1])
        elif k == "cfg":
            w.set_config(op[1])
        elif k == "backup":
            active += backup(w, case, op[1], spell)
        elif k == "gc":
            collect(w, case, spell)
        elif k == "integrity":
            check(w, case, spell)
        elif k == "here":
            active += restore(w, case, hist.pick(w, op[1]), op[2], spell)
        elif k == "away":
            with w.elsewhere(tree_of(op[1])):
                active += restore(w, case, hist.pick(w, op[2]), op[3], spell)
        if k not in ("fs", "cfg"):
            runs += 1
            case.tag(k)
    if "lines" in sc:
        usage(w, sc, case)
        runs += 3
    if "litter" in sc and w.has_metadata:
        litter(w, sc, case)
        runs += 2
        active += 1
    if "faults" in sc and w.has_metadata:
        faults(w, sc, case)
        runs += 3
        active += 1
    case.nontrivial = runs >= 3 and active > 0


def usage(w, sc, case):
    for a in sc["lines"]:
        if len(a) > 1 and a[0] == "0":
            restore(w, case, 0, "/" + a[1].lstrip("/")) \
                if ".." not in a[1] and len(a) == 2 else None
            continue
        with Guard(w, case, "nb %s" % a) as g:
            before = repo_listing(w.repo_dir())
            w.nb(["/repo"] + a, stdin="n\n", log=True)
            g.calls(lock_only)
            g.untouched()
            g.clean()
            w.same_repo(before, "nb %s" % a)
        case.evals += 1
    w.set_config(sc["badcfg"])
    with Guard(w, case, "a backup with a wrong config") as g:
        before = repo_listing(w.repo_dir())
        r = w.nb(["/repo"], stdin="n\n", log=True)
        g.calls(lock_only)
        g.untouched()
        g.clean()
        w.same_repo(before, "a backup with a wrong config")
    case.tag("usage")


def litter(w, sc, case):
    for p, n in sc["litter"]:
        fs.put(w.root, "/repo" + p, n)
    collect(w, case)
    if os.path.lexists(enc(w.repo_dir() + "/j")):
        raise Violation("the collection leaves garbage", "garbage",
                        w.last.brief())
    for p, n in sc["litter"]:
        fs.put(w.root, "/repo" + p, n)
    w.mutate(sc["more"])
    if sc["tmp"]:
        k, v = sc["tmp"]
        tmp = enc(w.repo_dir() + "/tmp-file")
        if k == "l":
            os.symlink(enc(v), tmp)
        elif k == "h":
            v = enc(w.root + v)
            if not os.path.isfile(v):
                return
            os.link(v, tmp)
        else:
            with open(tmp, "wb") as fh:
                fh.write(b"x" * v)
        case.tag("leftover: " + k)
    if backup(w, case, "y"):
        r = w.integrity()
        if r.code != 0:
            raise Violation("the integrity check fails after a backup with "
                            "litter around", "integrity", r.brief())
    case.tag("litter")


def faults(w, sc, case):
    w.mutate(sc["last"])
    for kind, f in sc["faults"]:
        args = {"backup": ["/repo"], "gc": ["/repo", "gc"],
                "integrity": ["/repo", "integrity"],
                "restore": ["/repo", "0"]}[kind]
        saved = repo_listing(w.repo_dir())
        tree = dict(w.tree)
        dry = w.run_.run(w.root, args, stdin="y\n", log=True)
        log = c10.calls(dry.log)
        hist_reset(w, saved, tree)
        if not log:
            continue
        opts, call, name = c10.options(log, f)
        if opts is None:
            continue
        what = "%s with %s in %s" % (kind, name, call["n"])
        case.tag("fault: " + kind)
        if kind == "restore":
            if w.aliased(0):
                continue
            try:
                allowed = may_restore(w, 0, "/")
                m = w.plan(0, "/")
            except config.Die:
                continue
        with Guard(w, case, what) as g:
            before = repo_listing(w.repo_dir())
            w.nb(args, stdin="y\n", log=True, opts=list(opts))
            if kind == "restore":
                g.calls(allowed)
                g.untouched(changed_only(w, m, allowed))
            else:
                g.calls({"backup": in_repo, "gc": collecting,
                         "integrity": lock_only}[kind])
                g.untouched()
            if kind in ("restore", "integrity"):
                now = repo_listing(w.repo_dir())
                now.pop("lockfile", None)
                if now != before:
                    raise Violation("%s changed the repository" % what,
                                    "repo-changed", w.last.brief())
        case.evals += 1
        hist_reset(w, saved, tree)


def hist_reset(w, saved, tree):
    install_repo(w.repo_dir(), saved)
    w.adopt(w.scan())
    w.set_tree(tree)
