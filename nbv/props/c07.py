"""The integrity check reports exactly the damaged paths."""
import os

from .. import fs, gen, hist, model
from ..driver import Violation
from ..sandbox import enc
from ..world import repo_listing

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated damage, exact oracle for " \
    "the listed paths"
NOTE = "Repositories with random histories get random combinations of " \
    "damage to stored files (every kind of byte change, truncation, growth, " \
    "removal, replacement by other types, exchange of two stored files); " \
    "the printed list is compared with the recorded paths which have a " \
    "state that needs one of the damaged files. Histories have up to 20 " \
    "backups."
FAMILIES = [("damage", 2600, 50000), ("bytes", 1500, 30000),
            ("shared", 1300, 26000), ("long", 250, 5000),
            ("many", 16, 120)]
RULE = "A case is a history and up to four damages. Non-trivial: at least " \
    "one needed stored file was damaged (undamaged cases count as " \
    "evaluations only)."
ASSUMPTIONS = ["BLAKE2b does not collide on the generated contents"]

KINDS = ["flip", "flip", "cut", "cut1", "grow", "empty", "zero", "del",
         "dir", "link", "linkcopy", "linkexact", "fifo", "swap", "subst", "rename",
         "deldir", "touch"]


def generate(rng, family, idx, tier):
    if family == "shared":
        # The same contents again and again, in several states.
        sc = hist.history(rng, policies=("track", "track", "copy"),
                          backups=(2, 5), gc=0, n=(2, 6), big=0.0)
        for op in sc["ops"]:
            if op[0] == "fs":
                for m in op[1]:
                    if m[0] == "put" and m[2]["t"] == "f" and \
                            rng.random() < 0.7:
                        m[2]["c"] = [rng.choice("kK"), 40]
        for p in sc["tree"]:
            if p[1]["t"] == "f" and rng.random() < 0.7:
                p[1]["c"] = [rng.choice("kK"), 40]
    elif family == "long":
        # Damage anywhere in a long past.
        sc = hist.long_past(rng)
    elif family == "many":
        # The damaged paths are as many as a byte can count, or about.
        sc = hist.history(rng, backups=(1, 1), gc=0, n=(1, 3), big=0.0)
        c = [rng.choice("kK"), 40]
        n = rng.choice([255, 256, 256, 256, 257, 512])
        sc["tree"] = [[p, v] for p, v in sc["tree"]
                      if not (p + "/").startswith("/t/")] + \
            [["/t", gen.dnode(rng)]] + \
            [["/t/%03d" % i, dict(gen.fnode(rng), c=c)] for i in range(n)]
        sc["cfg"] = ["[track]", "/t"]
        sc["ops"] = [["backup", "y"]]
        sc["damage"] = [[0, rng.choice(["flip", "del", "cut1"]),
                         rng.randint(0, 1 << 20), rng.randint(0, 7)]]
        return sc
    else:
        sc = hist.history(rng, backups=(1, 4), gc=0, cfgchange=0.1, big=0.12
                          if family == "bytes" else 0.03)
    dmg = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 4])):
        kind = rng.choice(KINDS if family != "bytes" else
                          ["flip", "cut1", "grow", "zero", "last", "first"])
        dmg.append([rng.randint(0, 99), kind, rng.randint(0, 1 << 20),
                    rng.randint(0, 7)])
    sc["damage"] = dmg
    return sc


def damage(w, items, names):
    """Applies the damage; contents -> still intact is computed by looking at
    the result."""
    root = w.repo_dir() + "/"
    for k, kind, pos, bit in items:
        rel = names[k % len(names)]
        path = enc(root + rel)
        if not os.path.lexists(path) or os.path.islink(path) or \
                not os.path.isfile(path):
            continue
        with open(path, "rb") as fh:
            data = fh.read()
        n = len(data)
        new = None
        if kind in ("flip", "last", "first"):
            i = {"flip": pos % n if n else 0, "last": n - 1,
                 "first": 0}[kind]
            new = data[:i] + bytes([data[i] ^ (1 << bit)]) + data[i + 1:] \
                if n else b"x"
        elif kind == "cut":
            new = data[:pos % n] if n else b"x"
        elif kind == "cut1":
            new = data[:-1]
        elif kind == "grow":
            new = data + b"\0" * (1 + pos % 3)
        elif kind == "empty":
            new = b""
        elif kind == "zero":
            new = bytes(n)
        elif kind == "subst":
            new = data[::-1]
        elif kind == "touch":
            os.utime(path, (1, 1))
            os.chmod(path, 0o400)
        elif kind == "del":
            os.unlink(path)
        elif kind == "deldir":
            d = os.path.dirname(path)
            for x in os.listdir(d):
                if os.path.isdir(d + b"/" + x) and \
                        not os.path.islink(d + b"/" + x):
                    os.rmdir(d + b"/" + x)
                else:
                    os.unlink(d + b"/" + x)
            os.rmdir(d)
        elif kind == "dir":
            os.unlink(path)
            os.mkdir(path)
        elif kind == "link":
            os.unlink(path)
            os.symlink(b"/nowhere", path)
        elif kind == "linkcopy":
            os.rename(path, path + b"~")
            os.symlink(os.path.basename(path) + b"~", path)
        elif kind == "linkexact":
            # The target is as long as the file.
            if 21 <= n < 4000:
                os.rename(path, os.path.dirname(path) + b"/~")
                os.symlink(b"." + b"/" * (n - 2) + b"~", path)
        elif kind == "fifo":
            os.unlink(path)
            os.mkfifo(path)
        elif kind == "rename":
            os.rename(path, path[:-1] + b"1")
        elif kind == "swap":
            other = enc(root + names[(k + 1 + pos) % len(names)])
            if os.path.isfile(other) and not os.path.islink(other) and \
                    other != path:
                os.rename(path, path + b".t")
                os.rename(other, path)
                os.rename(path + b".t", other)
        if new is not None:
            with open(path, "wb") as fh:
                fh.write(new)


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    hist.play(w, sc["ops"])
    if not w.has_metadata:
        return
    contents = sorted(w.repo.stored())
    names = [hist.stored_path(c) for c in contents]
    if names:
        damage(w, sc["damage"], names)
    lst = repo_listing(w.repo_dir())
    broken = {c for c, n in zip(contents, names) if lst.get(n) != ("f", c)}
    expect = sorted(
        n.path for n in w.repo.walk()
        if any(p.state is not None and p.state["t"] == "f" and
               fs.size(p.state) > 20 and fs.content(p.state["c"]) in broken
               for p in n.hist))
    r = w.integrity()
    got = sorted(l[3:-len(" (corrupted)")] for l in r.out.split("\n")
                 if l.startswith("?? ") and l.endswith(" (corrupted)"))
    if got != expect:
        raise Violation("damaged are %s, reported are %s" %
                        (expect[:5], got[:5]), "list",
                        {"expected": expect, "found": got,
                         "run": r.brief()})
    if (r.code == 0) != (not expect) or r.code not in (0, 1):
        raise Violation("integrity check: exit status %d with %d damaged "
                        "paths" % (r.code, len(expect)), "exit", r.brief())
    status = "Healthy" if not expect else "Incomplete"
    if "Status of repository: %s\n" % status not in r.out:
        raise Violation("integrity check does not print %s" % status,
                        "status", r.brief())
    if expect:
        want = "found %d item%s with corrupted backup history" % (
            len(expect), "" if len(expect) == 1 else "s")
        if want not in r.err:
            raise Violation("expected %r" % want, "count", r.brief())
        case.tag("damaged paths", len(expect))
        case.nontrivial = True
    total = sum(len(c) for c in contents)
    if "100.0%% (%s processed)" % model.human(total) not in r.out and \
            not broken:
        raise Violation("wrong amount of processed data", "processed",
                        r.brief())
    if repo_listing(w.repo_dir()) != lst:
        raise Violation("the integrity check changed the repository",
                        "changed")
    w.same_tree(w.tree, "the integrity check", "outside")
