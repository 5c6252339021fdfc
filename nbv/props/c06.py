"""Garbage collection removes all unneeded data and nothing else."""
import os

from .. import fs, gen, hist, model
from ..driver import Violation
from ..sandbox import dec, enc
from ..world import base_tree, repo_listing, tree_of

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated litter inside repositories, " \
    "exact oracle for what remains and for what is reported"
NOTE = "Repositories with random histories get litter of all kinds at all " \
    "depths: files, directories, symlinks (to the outside, to needed data, " \
    "to themselves), pipes, names close to needed ones. After the " \
    "collection the repository has to consist of exactly config, metadata " \
    "and the needed contents, byte for byte, the reported size has to be " \
    "exact, the outside unchanged, a second run has to delete nothing and " \
    "everything has to restore as the reference model says. Parts of the " \
    "store may live behind symlinks to other directories, and litter may be " \
    "in the way of new data: then the backup has to fail cleanly, and to " \
    "work after a collection."
FAMILIES = [("litter", 2500, 50000), ("leftover", 1200, 24000),
            ("backup", 1200, 24000), ("spread", 800, 16000),
            ("way", 800, 16000), ("long", 250, 5000)]
RULE = "A case is a history, generated litter and one or two collections " \
    "(or a backup, which ends with one). Non-trivial: something was " \
    "deleted while needed contents were stored."
ASSUMPTIONS = ["the name lockfile inside the repository belongs to the tool"]

LINKS = ["/s", "/s/a", "/o", "/o/f", "/o/d", "../o", "..", ".", "config",
         "metadata", "/repo", "nowhere", "/", "../../o/d", "/repo/config",
         "/repo/metadata", "loop"]


def litter(rng, k):
    """[[where, what, arg]]: where is a path relative to the repository; "#i"
    stands for parts of the name of the i-th needed content."""
    res = []
    dirs = ["", "", "0/", "a/", "#0.0/", "#0.1/", "#1.0/", "#1.1/", "#0.2/"]
    for _ in range(k):
        d = rng.choice(dirs)
        nm = rng.choice(["x", "config", "metadata", "tmp-file", "config.bak",
                         "metadata~", ".metadata", "a", "0", "00", "ff",
                         "lockfile~", "#0.f", "#0.g", "#1.f", "#0.u",
                         gen.name(rng, 0.6), "loop", "Config", "METADATA",
                         "lockfile"])
        if d == "" and nm in ("config", "metadata", "loop", "lockfile"):
            nm += "2"
        kind = rng.choice(["f", "f", "f", "d", "d", "l", "l", "p", "h"])
        if kind == "f":
            arg = rng.choice([0, 1, 20, 21, 1000, 1023, 1024, 5000, 70000])
        elif kind == "d":
            arg = 0
            dirs.append(d + nm + "/")
        elif kind == "l":
            arg = rng.choice(LINKS)
        else:
            arg = 0
        res.append([d + nm, kind, arg])
    return res


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(1, 4), gc=0, cfgchange=0.2, big=0.06,
                      n=(2, 8))
    if family == "long":
        sc = hist.long_past(rng)
    sc["litter"] = litter(rng, rng.randint(1, 12))
    sc["how"] = family
    if family == "spread":
        sc["move"] = [[rng.randint(0, 99), rng.choice([1, 1, 2]),
                       rng.choice(["/o/p%d", "../o/p%d", "/o/./p%d"])]
                      for _ in range(rng.randint(1, 3))]
    if family in ("spread", "way"):
        m, _ = gen.touch_muts(rng, tree_of(sc["tree"]), rng.randint(1, 4))
        sc["more"] = m + [["put", "/s/new", dict(gen.fnode(rng),
                                                 c=["w%d" % rng.randint(0, 99),
                                                    50])]]
        sc["litter"] = sc["litter"][:2]
    if family == "way":
        sc["way"] = [[rng.randint(0, 99), rng.choice([1, 2, 2, 3]),
                      rng.choice(["f", "l", "l", "p", "o"])]
                     for _ in range(rng.randint(1, 2))]
    if family == "backup":
        sc["more"] = [["put", "/s", {"t": "d", "m": 0o755, "u": 0, "g": 0,
                                     "mt": 77}],
                      ["put", "/s/new", gen.fnode(rng)]]
    return sc


def plant(w, items):
    names = sorted(hist.stored_path(c) for c in w.repo.stored())
    root = w.repo_dir() + "/"

    def expand(rel):
        out = []
        for part in rel.split("/"):
            if part.startswith("#") and len(part) == 4 and part[2] == ".":
                if not names:
                    return None
                full = names[int(part[1]) % len(names)]
                a, b, c = full.split("/")
                part = {"0": a, "1": a + "/" + b, "f": c, "2": full,
                        "g": c[:-1] + "1", "u": c.upper()}.get(part[3])
                if part is None:
                    return None
            out.append(part)
        return "/".join(out)

    n = 0
    for rel, kind, arg in items:
        p = expand(rel)
        if p is None:
            continue
        path = enc(root + p)
        # Never through a symlink, and nothing is overwritten.
        parts = p.split("/")
        ok = True
        for i in range(1, len(parts)):
            d = enc(root + "/".join(parts[:i]))
            if os.path.lexists(d):
                if os.path.islink(d) or not os.path.isdir(d):
                    ok = False
                    break
            else:
                os.mkdir(d)
        if not ok or os.path.lexists(path):
            continue
        if kind == "f":
            with open(path, "wb") as fh:
                fh.write(b"L" * arg)
            if arg == 20:
                os.chmod(path, 0)
        elif kind == "d":
            os.mkdir(path)
        elif kind == "l":
            os.symlink(enc(arg), path)
        elif kind == "p":
            os.mkfifo(path)
        else:
            # A hard link to a file outside.
            src = enc(w.root + "/o/f")
            if not os.path.exists(src):
                continue
            os.link(src, path)
        n += 1
    return n


def outside(w):
    t = dict(w.tree)
    for p, n in (("/o", {"t": "d", "m": 0o755, "u": 0, "g": 0, "mt": 5}),
                 ("/o/f", {"t": "f", "m": 0o644, "u": 0, "g": 0, "mt": 5,
                           "c": "outside data"}),
                 ("/o/d", {"t": "d", "m": 0o755, "u": 0, "g": 0, "mt": 5}),
                 ("/o/d/x", {"t": "f", "m": 0o644, "u": 0, "g": 0, "mt": 5,
                             "c": ["x", 50]})):
        t[p] = n
    w.set_tree(t)


def deleted_size(before, after):
    return sum(len(v[1]) for k, v in before.items()
               if v[0] == "f" and k not in after)


def pending_names(w):
    """Stored files which the next backup needs, None if it is refused or
    has nothing to do."""
    pend, err = w.simulate()
    if err is not None or not pend.report().total.any():
        return None
    saved = w.repo
    w.label += 1
    repo = pend.commit(w.label)
    w.label -= 1
    names = sorted(hist.stored_path(c) for c in repo.stored())
    w.repo = saved
    return names


def behind(w, lst, names):
    """The listing with the needed content behind symlinked directories in
    place of the links."""
    res = dict(lst)
    for n in names:
        a, b, _ = n.split("/")
        for d in (a, a + "/" + b):
            if res.get(d, ("",))[0] != "l":
                continue
            res[d] = ("d",)
            at = resolve(w, "/repo/" + d)
            for m in names:
                if m.startswith(d + "/"):
                    f = w.root + at + m[len(d):]
                    if os.path.isfile(enc(f)):
                        with open(enc(f), "rb") as fh:
                            res[m] = ("f", fh.read())
                        up = m[:m.rindex("/")]
                        if up != d:
                            res[up] = ("d",)
    return res


def resolve(w, p):
    """Where a directory really is (inside of the root)."""
    t = w.scan()
    for r, d in repo_listing(w.repo_dir()).items():
        t["/repo/" + r] = {"t": d[0], "to": dec(d[1]) if d[0] == "l" else
                         ""}
    t["/repo"] = {"t": "d"}
    return fs.resolve(t, p, True)


def spread(w, sc, case):
    """Parts of the store are moved behind symlinks."""
    names = sorted(hist.stored_path(c) for c in w.repo.stored())
    moved = 0
    for i, (k, depth, to) in enumerate(sc["move"]):
        if not names:
            break
        n = names[k % len(names)].split("/")
        rel = "/".join(n[:depth])
        path = enc(w.repo_dir() + "/" + rel)
        if os.path.islink(enc(w.repo_dir() + "/" + n[0])) or \
                os.path.islink(path) or \
                any(os.path.islink(path + b"/" + x)
                    for x in os.listdir(path)):
            continue
        real = "/o/p%d" % i
        to %= i
        if to.startswith(".."):
            to = "../" * (depth - 1) + "../o/p%d" % i
        os.rename(path, enc(w.root + real))
        os.symlink(enc(to), path)
        moved += 1
    w.tree = w.scan()
    return moved


def check_all(w, what):
    ids = range(len(w.repo.backups))
    for bid in ids if len(ids) < 3 else (0, ids[-1]):
        for p in sorted(w.repo.roots):
            restorable(w, bid, p, what)


def restorable(w, bid, p, what):
    """The store gives everything: restores to the root it lives in."""
    n = w.repo.find(p)
    if w.repo.state_at(n, bid) is None:
        return
    saved = w.tree
    t = {q: x for q, x in saved.items() if q == "/" or
         q == "/o" or q.startswith("/o/")}
    w.set_tree(t)
    w.restore(bid, p)
    w.set_tree(saved)


def run_spread(w, sc, case):
    moved = spread(w, sc, case)
    plant(w, sc["litter"])
    w.tree = w.scan()
    r = w.gc()
    if r.code != 0:
        raise Violation("gc fails: " + r.err, "gc-exit", r.brief())
    names = sorted(hist.stored_path(c) for c in w.repo.stored())
    hist.check_store(w, "after a collection", behind(
        w, repo_listing(w.repo_dir()), names))
    w.same_tree(w.tree, "a collection", "outside")
    if moved:
        case.nontrivial = True
        case.tag("moved directories", moved)
    if w.integrity().code != 0:
        raise Violation("the integrity check fails after a collection",
                        "integrity", w.last.brief())
    check_all(w, "after a collection")
    w.mutate(sc["more"])
    w.backup("y", check_repo=False)
    w.adopt(w.scan())
    names = sorted(hist.stored_path(c) for c in w.repo.stored())
    # Unneeded files behind symlinks stay, everything needed has to be there.
    lst = behind(w, repo_listing(w.repo_dir()), names)
    hist.check_store(w, "after a backup", lst)
    if w.integrity().code != 0:
        raise Violation("the integrity check fails after a backup",
                        "integrity", w.last.brief())
    check_all(w, "after a backup")


def run_way(w, sc, case):
    """Something is in the way of new data."""
    plant(w, sc["litter"])
    w.mutate(sc["more"])
    names = pending_names(w)
    if not names:
        case.evals = 0
        return
    put = 0
    for k, depth, kind in sc["way"]:
        rel = "/".join(names[k % len(names)].split("/")[:depth])
        path = enc(w.repo_dir() + "/" + rel)
        if os.path.lexists(path) or not os.path.isdir(os.path.dirname(path)) \
                or os.path.islink(os.path.dirname(path)):
            continue
        if kind == "f":
            with open(path, "wb") as fh:
                fh.write(b"litter")
        elif kind == "p":
            os.mkfifo(path)
        else:
            os.symlink(b"/nowhere" if kind == "l" else b"/o/d", path)
        put += 1
    if not put:
        case.evals = 0
        return
    case.nontrivial = True
    w.adopt(w.scan())
    old = w.repo
    had = {p: v for p, v in repo_listing(w.repo_dir()).items()
           if p in {hist.stored_path(c) for c in old.stored()} or
           p in ("config", "metadata")}
    r = w.nb(["/repo"], stdin="y\n")
    if r.code not in (0, 1) or r.code == 1 and not r.err:
        raise Violation("backup with litter in the way: exit status %d" %
                        r.code, "crash", r.brief())
    now = repo_listing(w.repo_dir())
    if r.code == 1:
        case.tag("the backup fails")
        for p, v in had.items():
            if now.get(p) != v:
                raise Violation("a failing backup changed %s" % p,
                                "repo-changed", r.brief())
        w.adopt(w.scan())
        r = w.gc()
        if r.code != 0:
            raise Violation("gc fails: " + r.err, "gc-exit", r.brief())
        lst = repo_listing(w.repo_dir())
        hist.check_store(w, "a collection after a failed backup", lst)
        w.backup("y", check_repo=False)
        if not w.committed:
            raise Violation("no backup after a collection", "again")
    else:
        case.tag("the backup works")
        pend, _ = w.simulate()
        w.label += 1
        w.repo = pend.commit(w.label)
        w.adopt(w.scan())
    names = sorted(hist.stored_path(c) for c in w.repo.stored())
    hist.check_store(w, "after a backup with litter in the way", behind(
        w, repo_listing(w.repo_dir()), names))
    if w.integrity().code != 0:
        raise Violation("the integrity check fails after a backup",
                        "integrity", w.last.brief())
    check_all(w, "after a backup")


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    outside(w)
    hist.play(w, sc["ops"])
    if not w.has_metadata:
        return
    if sc["how"] in ("spread", "way") and "/" in sc["cfg"]:
        case.evals = 0
        return
    if sc["how"] == "spread":
        return run_spread(w, sc, case)
    if sc["how"] == "way":
        return run_way(w, sc, case)
    if sc["how"] == "leftover":
        # Valid stored files which nothing needs.
        for k in range(3):
            data = fs.content(["left%d" % k, 30 + 1000 * k])
            path = enc(w.repo_dir() + "/" + hist.stored_path(data))
            if not os.path.exists(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as fh:
                    fh.write(data)
    plant(w, sc["litter"])
    before = repo_listing(w.repo_dir())
    if sc["how"] == "backup":
        w.mutate(sc["more"])
        if any(p == "tmp-file" and v[0] not in ("f", "l") for p, v in
               before.items()):
            return
        if any(before.get(n[:i], ("d",))[0] != "d" for i in (1, 4)
               for n in pending_names(w) or []):
            case.evals = 0      # In the way of new data: family "way".
            return
        w.backup("y", check_repo=False)
        if not w.committed:
            return
        r = w.last
        hist.check_store(w, "after a backup")
        after = repo_listing(w.repo_dir())
        gone = deleted_size(before, after)
    else:
        r = w.gc()
        if r.code != 0:
            raise Violation("gc fails: " + r.err, "gc-exit", r.brief())
        hist.check_store(w, "after a collection")
        after = repo_listing(w.repo_dir())
        if after["metadata"] != before["metadata"]:
            raise Violation("gc changes the metadata", "metadata")
        gone = deleted_size(before, after)
    if sc["how"] != "backup" or "tmp-file" not in before:
        want = "Discarding unreferenced data... 100.0%% (%s deleted)" % \
            model.human(gone)
        if want not in r.out:
            raise Violation("gc reports %r instead of %r" %
                            (r.out[-100:], want), "size")
    w.same_tree(w.tree, "a collection", "outside")
    r = w.gc()
    if r.code != 0 or "(0 b deleted)" not in r.out or \
            repo_listing(w.repo_dir()) != after:
        raise Violation("a second collection deletes something", "second",
                        r.brief())
    case.nontrivial = len(before) != len(after) and bool(w.repo.stored())
    ids = range(len(w.repo.backups))
    for bid in ids if len(ids) < 3 else (0, ids[-1]):
        with w.elsewhere(base_tree()):
            w.restore(bid)
