"""No command does more work than it has to."""
import os

from .. import config, fs, gen, hist
from ..driver import Violation
from ..sandbox import dec, enc
from ..world import repo_listing, tree_of
from . import c20

ID = "C33"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing with monitors of the files " \
    "which the program opens and the amount it writes"
NOTE = "Each command of random histories is traced. Which files may be " \
    "opened follows from what was recorded before and from the declarative " \
    "selection: before the question only recorded files with another " \
    "modification time but the same size, afterwards also new and changed " \
    "ones, each at most twice, only selected directories, only stored files which could be " \
    "equal; what is written to the repository is not more than the new " \
    "contents and the metadata. Collections open no files but the " \
    "metadata; integrity checks open each stored file once; restores read " \
    "what they write."
FAMILIES = [("history", 1300, 40000), ("restore", 1300, 40000),
            ("sharing", 800, 24000)]
RULE = "A case is a history of traced commands. Non-trivial: some command " \
    "had to open a file which is backed up, or a stored one, while other " \
    "recorded files had to be left alone."
ASSUMPTIONS = ["what is opened without being read does not count as less "
               "than reading it"]


def generate(rng, family, idx, tier):
    kw = dict(here=0.8, away=0.3) if family == "restore" else {}
    if family == "sharing":
        # Few contents.
        sc = hist.history(rng, backups=(2, 4), n=(4, 12), quiet=0.3,
                          cfgchange=0.2, links=0.1)
        few = [["w%d" % i, rng.choice([21, 40, 300, 4096, 5000, 9000])]
               for i in range(3)]

        def alike(n):
            if n["t"] == "f" and rng.random() < 0.8:
                n = dict(n, c=rng.choice(few))
            return n

        sc["tree"] = [[p, alike(n)] for p, n in sc["tree"]]
        for o in sc["ops"]:
            if o[0] == "fs":
                o[1] = [m[:2] + [alike(m[2])] if m[0] == "put" else m
                        for m in o[1]]
        return sc
    sc = hist.history(rng, backups=(2, 4), n=(3, 12), decline=0.25,
                      quiet=0.2, gc=0.15, integrity=0.2, cfgchange=0.25,
                      links=0.2, big=0.08, **kw)
    # Files whose times alone change.
    ops = []
    for o in sc["ops"]:
        ops.append(o)
        if o[0] == "fs" and rng.random() < 0.5:
            ops.append(["touch", rng.randint(0, 1 << 30)])
    sc["ops"] = ops
    return sc


# -- what happened ------------------------------------------------------------

class Opened:
    """The files a run opened: path -> how often; split by purpose."""

    def __init__(self, w):
        log = w.last.log
        self.read, self.written, self.dirs = {}, {}, {}
        self.amount = {}
        fds = {}
        for l in log or ():
            if "n" not in l:
                continue
            n, a, r = l["n"], l["a"], l.get("r", 0)
            if r is None or r < 0:
                continue
            if n in ("open", "openat", "creat"):
                p = dec(bytes.fromhex(l["p"][0]))
                if n == "openat" and not p.startswith("/") and \
                        a[0] & 0xffffffff != c20.AT & 0xffffffff:
                    p = fds.get(a[0], "/?") + "/" + p
                p = c20.norm(p)
                fds[r] = p
                flags = a[1] if n == "open" else a[2] if n == "openat" \
                    else os.O_WRONLY
                if flags & getattr(os, "O_PATH", 0):
                    continue
                d = self.dirs if flags & os.O_DIRECTORY else self.written \
                    if flags & (os.O_WRONLY | os.O_RDWR) else self.read
                d[p] = d.get(p, 0) + 1
            elif n == "close":
                fds.pop(a[0], None)
            elif n in ("dup", "dup2", "dup3"):
                fds[r] = fds.get(a[0], "/?")
            elif n in ("write", "pwrite64", "writev"):
                p = fds.get(a[0])
                if p is not None:
                    self.amount[p] = self.amount.get(p, 0) + r
            elif n == "sendfile" or n == "copy_file_range":
                p = fds.get(a[0] if n == "sendfile" else a[2])
                if p is not None:
                    self.amount[p] = self.amount.get(p, 0) + r
        for p in list(self.read):
            # Directories are opened to sync them.
            if os.path.isdir(enc(w.root + p)):
                self.dirs[p] = self.dirs.get(p, 0) + self.read.pop(p)


def places(tree, paths):
    """All names under which these paths may be opened."""
    res = set()
    for p in paths:
        res.add(p)
        r = fs.resolve(tree, p, True)
        if r is not None and not r.startswith("!"):
            res.add(r)
        r = fs.resolve(tree, fs.parent(p) or "/", True)
        if r is not None and not r.startswith("!"):
            res.add(fs.join(r, fs.name(p)))
    return res


def expect(what, w, got, allowed):
    for p in sorted(got):
        if p not in allowed:
            raise Violation("%s: %s" % (what, p), what.split(":")[0],
                            w.last.brief())


META = {"/repo/config", "/repo/metadata", "/repo/lockfile"}


def stored_names(contents):
    return {"/repo/" + hist.stored_path(c, s) for c in contents
            for s in (0, 1)}


# -- commands -----------------------------------------------------------------

def backup(w, case, answer):
    old = {n.path: n for n in w.repo.walk()}
    had = w.repo.stored()
    w.backup(answer, log=True)
    if w.pend is None:
        return
    o = Opened(w)
    case.evals += 1
    tree = w.visible()
    first, later, rest, dirs, new = [], [], [], ["/"], set()
    for f in config.flatten(w.pend.search.found):
        if f.type == "d":
            dirs.append(f.path)
        if f.type != "f" or fs.size(f.st) == 0:
            continue
        n = old.get(f.path)
        states = [p.state for p in n.hist[:2]] if n else []
        st = states[0] if states else None
        same = st is not None and st["t"] == "f" and \
            fs.size(st) == fs.size(f.st)
        if any(s is not None and s["t"] == "f" and s["mt"] != f.st["mt"] and
               fs.size(s) == fs.size(f.st) for s in states):
            first.append(f.path)
        if not same or fs.content(st["c"]) != fs.content(f.st["c"]):
            later.append(f.path)
            c = fs.content(f.st["c"])
            if len(c) > 20:
                new.add(c)
        elif f.path not in first:
            rest.append(f.path)
    may = places(tree, first + (later if w.committed else []))
    expect("a backup reads a file without need: ", w,
           [p for p in o.read if not p.startswith("/repo/")], may)
    expect("a backup writes outside of the repository: ", w,
           [p for p in o.written if not p.startswith("/repo/")], ())
    expect("a backup lists a directory which is not selected: ", w,
           [p for p in o.dirs if p != "/repo" and
            not p.startswith("/repo/")], places(tree, dirs))
    expect("a backup reads something in the repository without need: ", w,
           [p for p in o.read if p.startswith("/repo/")],
           META | (stored_names(new & had | {c for c in new})
                   if w.committed else set()))
    for p, k in o.read.items():
        if k > 2 and not p.startswith("/repo/"):
            raise Violation("a backup reads %s %d times" % (p, k), "often",
                            w.last.brief())
    n = sum(v for p, v in o.amount.items() if p.startswith("/repo/"))
    most = 0
    if w.committed:
        most = sum(map(len, new - had)) + \
            os.path.getsize(w.repo_dir() + "/metadata")
    if n > most:
        raise Violation("a backup writes %d bytes, of which %d are needed" %
                        (n, most), "amount", w.last.brief())
    if rest and (first or w.committed and later):
        case.nontrivial = True
    case.tag("declined" if not w.committed else "confirmed")


def collect(w, case):
    r = w.nb(["/repo", "gc"], log=True)
    if r.code != 0:
        return
    case.evals += 1
    case.tag("gc")
    o = Opened(w)
    expect("a collection opens a file: ", w, set(o.read) | set(o.written),
           META)
    expect("a collection lists a directory outside: ", w,
           [p for p in o.dirs if p != "/repo" and
            not p.startswith("/repo/")], ())


def check(w, case):
    r = w.nb(["/repo", "integrity"], log=True)
    if r.code != 0:
        return
    case.evals += 1
    case.tag("integrity")
    o = Opened(w)
    expect("an integrity check opens a file: ", w,
           set(o.read) | set(o.written) | set(o.dirs),
           META | stored_names(w.repo.stored()))
    twice = sorted(p for p, k in o.read.items() if k > 1 and p not in META)
    if twice:
        raise Violation("an integrity check reads %s %d times" % (
            twice[0], o.read[twice[0]]), "twice", r.brief())
    if len(o.read) > 3:
        case.nontrivial = True


def restore(w, case, bid, path, answer):
    full = "/" + "/".join(x for x in path.split("/") if x)
    if not w.has_metadata or w.aliased(bid):
        return
    try:
        w.plan(bid, full)
    except config.Die:
        return
    tree = w.tree
    ids = w.repo.ids()
    first, later, contents, rest = [], [], set(), 0
    for n in w.repo.walk():
        p = n.path
        if not (full == "/" or p == full or p.startswith(full + "/")):
            continue
        st = w.repo.state_at(n, bid, ids)
        if st is None or st["t"] != "f":
            continue
        up = fs.resolve(tree, fs.parent(p), True)
        cur = None
        if up is not None and not up.startswith("!"):
            cur = tree.get(fs.join(up, fs.name(p)))
        if cur is not None and cur["t"] == "f" and \
                fs.size(cur) == fs.size(st):
            if cur["mt"] == st["mt"] or fs.size(st) == 0:
                rest += 1
                continue
            first.append(p)
            if fs.content(cur["c"]) == fs.content(st["c"]):
                continue
        later.append(p)
        if fs.size(st) > 20:
            contents.add(fs.content(st["c"]))
    before = repo_listing(w.repo_dir())
    r = w.nb(["/repo", str(bid), path], stdin=answer + "\n", log=True)
    w.same_repo(before, "a restore")
    now = w.scan()
    o = Opened(w)
    case.evals += 1
    case.tag("restore" if answer == "y" else "declined restore")
    act = answer == "y"
    after = tree_after(now)
    expect("a restore reads a file without need: ", w,
           [p for p in o.read if not p.startswith("/repo/")],
           places(tree, first))
    expect("a restore reads something in the repository without need: ", w,
           [p for p in o.read if p.startswith("/repo/")],
           META | (stored_names(contents) if act else set()))
    expect("a restore writes a file without need: ", w,
           [p for p in o.written if p != "/repo/lockfile"],
           places(tree, later) | places(after, later) if act else ())
    if act:
        big = {p for p in later}
        for p, k in o.written.items():
            if k > 1 and p != "/repo/lockfile" and p in big:
                raise Violation("a restore writes %s %d times" % (p, k),
                                "twice", r.brief())
    if rest and (first or later):
        case.nontrivial = True
    w.adopt(now)


def tree_after(scan):
    return {p: n for p, n in scan.items()}


def touch(w, seed):
    """Changes modification times."""
    import random
    rng = random.Random(seed)
    w.mutate([["put", p, dict(n, mt=n["mt"] + rng.randint(1, 9))]
              for p, n in sorted(w.tree.items())
              if n["t"] == "f" and rng.random() < 0.4])


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    k = 0
    for op in sc["ops"]:
        k += 1
        if op[0] == "fs":
            w.mutate(op[1])
        elif op[0] == "touch":
            touch(w, op[1])
        elif op[0] == "cfg":
            w.set_config(op[1])
        elif op[0] == "backup":
            backup(w, case, op[1])
        elif op[0] == "gc" and w.has_metadata:
            collect(w, case)
        elif op[0] == "integrity" and w.has_metadata:
            check(w, case)
        elif op[0] == "here":
            restore(w, case, hist.pick(w, op[1]), op[2],
                    "n" if k % 5 == 0 else "y")
        elif op[0] == "away":
            with w.elsewhere(tree_of(op[1])):
                restore(w, case, hist.pick(w, op[2]), op[3], "y")
