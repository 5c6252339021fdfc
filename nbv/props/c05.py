"""The repository stores exactly the referenced contents, once."""
import os

from .. import fs, gen, hist
from ..driver import Invalid, Violation
from ..sandbox import enc
from ..world import base_tree, repo_listing, tree_of, mutate

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: invariant over the stored " \
    "files after every backup"
NOTE = "After every confirmed backup of random histories the whole " \
    "repository directory is compared with the set of contents that the " \
    "reference model needs, whose names are computed with an independent " \
    "BLAKE2b. In the family 'bogus', files, symlinks and directories of " \
    "other content are placed under the names of contents to come."
FAMILIES = [("pool", 2500, 50000), ("history", 2000, 40000),
            ("bogus", 2000, 40000), ("long", 200, 4000)]
RULE = "A case is a history with gc runs. Non-trivial: at some time the " \
    "repository stored at least two contents, and some content was needed " \
    "by two or more recorded states (or, for 'bogus', a bogus stored file " \
    "was met by a backup)."
ASSUMPTIONS = ["BLAKE2b does not collide on the generated contents",
               "after an intact content had to be stored under a further "
               "name, because of bogus stored files, it may be stored twice"]

SIZES = [0, 1, 19, 20, 21, 21, 22, 40, 255, 256, 257, 4095, 4096, 4097]


def pool(rng, k):
    res = []
    for i in range(k):
        n = rng.choice(SIZES)
        res.append(["P%d" % rng.randint(0, 3), n] if n > 20 else
                   "Q%d" % rng.randint(0, 3) * n)
    return [c if not isinstance(c, str) else c[:20] for c in res]


def generate(rng, family, idx, tier):
    if family == "history":
        return hist.history(rng, cfgchange=0.25, gc=0.25, big=0.08)
    if family == "long":
        return hist.long_past(rng, gc=0.05)
    # Few contents, many files.
    contents = pool(rng, rng.randint(2, 5))
    if family == "bogus" and rng.random() < 0.4:
        contents.append(["P9", rng.choice([8192, 8193, 12288, 20000, 70001])])
    t = tree_of([["/s", gen.dnode(rng)]])
    gen.grow(rng, t, "/s", rng.randint(3, 10))

    def shuffle(t, p):
        for q in t:
            if t[q]["t"] == "f" and rng.random() < p:
                t[q] = dict(t[q])
                t[q]["c"] = rng.choice(contents)
                t[q]["mt"] += rng.randint(1, 5)
        return t

    t = shuffle(t, 1)
    cfg = gen.rules(rng, t, tops=("/s",), ignore=0.2)
    ops = []
    cur = t
    for i in range(rng.randint(1, 4)):
        if family == "bogus":
            for _ in range(rng.randint(0, 3)):
                c = rng.choice(contents)
                k = rng.choice(["flip", "long", "short", "empty", "dir",
                                "link", "zero", "flip", "head",
                                rng.randint(0, 1 << 20),
                                rng.randint(0, 1 << 20)])
                ops.append(["plant", c, rng.choice([0, 0, 0, 1]), k])
        ops.append(["backup", "y"])
        if rng.random() < 0.3 and family != "bogus":
            ops.append(["gc"])
        _, new = gen.touch_muts(rng, cur, rng.randint(1, 4), tops=("/s",))
        new = shuffle(dict(new), 0.3)
        muts = [["del", p] for p in sorted(cur) if p not in new and p != "/"]
        muts += [["put", p, new[p]] for p in sorted(new)
                 if p != "/" and new[p] != cur.get(p)]
        cur = mutate(cur, muts)
        ops.append(["fs", muts])
    return {"tree": gen.pairs(t), "cfg": cfg, "ops": ops}


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    if any(o[0] == "plant" for o in sc["ops"]):
        return bogus(w, sc, case)

    def hook(kind, op, res):
        if kind != "gc" and not (kind == "backup" and w.committed) or \
                not w.has_metadata:
            return
        case.evals += 1
        hist.check_store(w, "after a " + kind)
        refs = {}
        for n in w.repo.walk():
            for p in n.hist:
                if p.state is not None and p.state["t"] == "f" and \
                        fs.size(p.state) > 20:
                    c = fs.content(p.state["c"])
                    refs[c] = refs.get(c, 0) + 1
        if len(refs) >= 2 and any(v > 1 for v in refs.values()):
            case.nontrivial = True

    hist.play(w, sc["ops"], hook)
    if w.has_metadata:
        # Small contents really are inside the metadata: everything
        # restores.
        with w.elsewhere(base_tree()):
            w.restore(0)


def bogus(w, sc, case):
    planted = {}

    def plant(c, slot, kind):
        data = fs.content(c)
        if len(data) <= 20:
            return
        rel = hist.stored_path(data, slot)
        path = enc(w.repo_dir() + "/" + rel)
        if os.path.lexists(path) or slot and rel[:-1] + "0" not in planted:
            return
        os.makedirs(os.path.dirname(path), 0o755, exist_ok=True)
        if kind == "dir":
            os.mkdir(path)
        elif kind == "link":
            os.symlink(b"/s", path)
        else:
            bad = {"flip": data[:-1] + bytes([data[-1] ^ 1]),
                   "long": data + b"!", "short": data[:-1], "empty": b"",
                   "zero": bytes(len(data)),
                   "head": bytes([data[0] ^ 1]) + data[1:]}.get(kind)
            if bad is None:
                i = kind % len(data)
                bad = data[:i] + bytes([data[i] ^ 64]) + data[i + 1:]
            with open(path, "wb") as fh:
                fh.write(bad)
        planted[rel] = data

    for op in sc["ops"]:
        if op[0] == "plant":
            plant(op[1], op[2], op[3])
            continue
        hist.play(w, [op])
        if not w.committed:
            continue
        # Every needed content is stored under one of its names, and nothing
        # else is there.
        lst = repo_listing(w.repo_dir())
        names = {}
        for c in w.repo.stored():
            names[hist.stored_path(c)[:-1]] = c
            if hist.stored_path(c) in planted:
                case.nontrivial = True
                case.tag("bogus files met")
        found = set()
        for p, what in lst.items():
            if p in ("config", "metadata") or what[0] == "d":
                continue
            c = names.get(p[:-1])
            if c is None:
                raise Violation("surplus %s in the repository" % p, "surplus")
            if what != ("f", c):
                raise Violation("%s has the wrong content" % p, "wrong")
            found.add(c)
        if found != set(names.values()):
            raise Violation("needed content is missing", "missing")
        planted.clear()
    if w.has_metadata:
        r = w.integrity()
        if r.code != 0:
            raise Violation("a backup relies on bogus stored files",
                            "integrity", r.brief())
        with w.elsewhere(base_tree()):
            w.restore(0)
