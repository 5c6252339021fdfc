"""No command needs resources that grow with the data."""
import os

from .. import big, fs, gen, hist
from ..driver import Violation
from ..sandbox import Runner
from ..world import World, tree_of
from . import c27

ID = "C34"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing under resource limits derived " \
    "from the structure of the generated trees, against the reference model"
NOTE = "Histories are played with low limits and have to go as the model " \
    "predicts: with many files and directories, and no more open files than " \
    "the nesting depth and a constant; with files of many megabytes, and " \
    "memory for a small part of one of them; with tens of thousands of " \
    "entries that are ignored, collected or in the way of a restore, and " \
    "memory for what is recorded."
VARIANTS = ("static",)
FAMILIES = [("files", 700, 16000), ("large", 140, 3600), ("entries", 40, 600)]
RULE = "A case is a history with its limits. Non-trivial: something was " \
    "backed up or restored whose data or number exceeds the limit many times."
ASSUMPTIONS = ["each level of directories needs at most one open file, and "
               "each recorded state at most 8 KiB of memory",
               "3 MiB are enough for the program itself"]

MIB = 1 << 20


class LimitedRunner(Runner):
    more = ()

    def run(self, root, argv, stdin=b"", opts=(), **kw):
        return super().run(root, argv, stdin, list(opts) + list(self.more),
                           **kw)


# -- generation ---------------------------------------------------------------

def big_content(rng):
    n = int(2 * MIB * (12 ** rng.random())) + rng.choice([0, 1, -1, 4096, 777])
    return ["\0" + rng.choice(["", "e", "s"]), n]


def files(rng):
    few = [["w%d" % i, rng.choice([1, 20, 21, 300, 4096, 5000])]
           for i in range(rng.choice([2, 4, 40]))]
    sc = hist.history(rng, backups=(2, 3), n=(30, 60), muts=(10, 40),
                      here=0.4, away=0.5, gc=0.4, integrity=0.4, hard=0.2,
                      quiet=0.2, cfgchange=0.2, odd=0.05, ignore=0.1,
                      deep=0.15)

    def alike(n):
        return dict(n, c=rng.choice(few)) \
            if n["t"] == "f" and rng.random() < 0.8 else n

    sc["tree"] = [[p, alike(n)] for p, n in sc["tree"]]
    for o in sc["ops"]:
        if o[0] == "fs":
            o[1] = [m[:2] + [alike(m[2])] if m[0] == "put" else m
                    for m in o[1]]
        elif o[0] == "away":
            o[1] = [[p, alike(n)] for p, n in o[1]] \
                if rng.random() < 0.5 else []
            o[3] = "/"
    # Many files are touched, many others changed.
    ops = []
    for o in sc["ops"]:
        ops.append(o)
        if o[0] == "fs" and rng.random() < 0.7:
            ops.append(["touch", rng.randint(1, 9), rng.random() < 0.5])
    sc["ops"] = ops
    return sc


def large(rng):
    tops = rng.sample(["/s", "/t"], rng.choice([1, 1, 2]))
    t = {"/s": gen.dnode(rng), "/t": gen.dnode(rng), "/s/d": gen.dnode(rng)}
    for i in range(rng.randint(1, 3)):
        p = rng.choice(["/s", "/t", "/s/d"]) + "/" + "abcd"[i]
        t[p] = dict(gen.fnode(rng), c=big_content(rng))
    ops = []
    cur = tree_of(gen.pairs(t))
    cfg = [["[%s]" % rng.choice(hist.ALL), p] for p in tops]
    for i in range(rng.randint(2, 3)):
        ops.append(["backup", "y"])
        k = rng.random()
        if k < 0.3:
            ops.append(["integrity"])
        elif k < 0.5:
            ops.append(["gc"])
        muts = []
        for p in [p for p in cur if cur[p]["t"] == "f"]:
            n = cur[p]
            k = rng.random()
            if k < 0.3:
                # A copy: the same content.
                muts.append(["put", p + "k", dict(n, mt=n["mt"] + 1)])
            elif k < 0.5:
                muts.append(["put", p, dict(n, mt=n["mt"] + 1)])
            elif k < 0.7:
                muts.append(["put", p, dict(
                    n, mt=n["mt"] + 1,
                    c=["\0" + rng.choice(["", "e", "s"]), n["c"][1]])])
            elif k < 0.8:
                muts.append(["put", p, dict(n, mt=n["mt"] + 1,
                                            c=big_content(rng))])
            elif k < 0.9:
                muts.append(["del", p])
        muts = [m for m in muts if len(m) > 2] + \
            [m for m in muts if len(m) == 2]
        for m in muts:
            if m[0] == "put":
                cur = dict(cur, **{m[1]: m[2]})
            else:
                cur = {p: n for p, n in cur.items() if p != m[1]}
        ops.append(["fs", muts])
        k = rng.random()
        if k < 0.5:
            ops.append(["here", rng.randint(0, 3), "/"])
        elif k < 0.8:
            ops.append(["away", [], rng.randint(0, 3), "/"])
    return {"tree": gen.pairs(t), "cfg": sum(cfg, []), "ops": ops}


def entries(rng):
    return {"variant": "static",
            "seed": 1,
            "shape": rng.choice(["ignored", "regex", "fifo", "garbage",
                                 "aside"] + ["recorded"] * 3),
            "n": rng.randint(15000, 25000), "len": rng.randint(150, 240),
            "dir": rng.choice([1, 60, 250]),
            "policy": rng.choice(hist.ALL), "again": rng.random() < 0.5}


def generate(rng, family, idx, tier):
    return dict({"files": files, "large": large,
                 "entries": entries}[family](rng), k=family)


# -- running ------------------------------------------------------------------

def depth(paths):
    return max([p.count("/") for p in paths] + [1])


def limits(w, sc):
    if sc["k"] == "large":
        return ["-l", "9:%d" % (6 * MIB)]
    # 0-2, the binary, the lock file, one for each level, two for copying.
    d = max(depth(w.tree), depth(n.path for n in w.repo.walk()), 4) + 1
    return ["-n", str(3 + 1 + 1 + d + 2 + 1)]


def touch(w, k, same):
    w.mutate([["put", p, dict(
        n, mt=n["mt"] + k, c=n["c"] if same else
        ["t%d" % (i % 30), fs.size(n)])]
        for i, (p, n) in enumerate(sorted(w.tree.items()))
        if n["t"] == "f" and p.startswith(("/s", "/t"))])


def run(ctx, sc, case):
    if "limited" not in ctx.runners:
        ctx.runners["limited"] = LimitedRunner(ctx.bins["nbrun"],
                                               ctx.bins["static"])
    lim = ctx.runners["limited"]
    if sc["k"] == "entries":
        lim.more = ["-l", "9:%d" % (3 * MIB)]
        r = c27.Run(ctx, sc, case)
        r.runner = lim
        try:
            if sc["shape"] == "recorded":
                many_files(r, sc, lim)
            else:
                many_entries(r, sc)
        finally:
            r.clean()
        case.tag(sc["shape"])
        case.nontrivial = True
        return
    w = World(ctx, case, "limited")
    w.set_tree(tree_of(sc["tree"]))
    w.set_config(sc["cfg"])
    for op in sc["ops"]:
        case.evals += 1
        if op[0] == "touch":
            touch(w, op[1], op[2])
            continue
        if op[0] == "away":
            with w.elsewhere(tree_of(op[1])):
                lim.more = limits(w, sc)
                w.restore(hist.pick(w, op[2]), op[3])
                nontrivial(sc, w, case, w.last)
            continue
        lim.more = limits(w, sc)
        hist.play(w, [op])
        if op[0] in ("backup", "here"):
            nontrivial(sc, w, case, w.last)
    lim.more = ()
    if w.committed:
        hist.check_store(w, "at the end")


def fill(path, sc, kind="f"):
    d = os.open(path, os.O_RDONLY)
    for i in range(sc["n"]):
        nm = ("%d" % i).ljust(sc["len"], "-")
        if kind == "f":
            os.close(os.open(nm, os.O_CREAT | os.O_WRONLY, 0o600, dir_fd=d))
        else:
            os.mkfifo(nm, 0o600, dir_fd=d)
    os.close(d)


def many_entries(r, sc):
    """A directory with many entries that are not to be recorded."""
    shape = sc["shape"]
    x = "/s/" + "x" * sc["dir"]
    day = 1000000000
    t = {"/s": ("d", 0o755, 0, day), x: ("d", 0o755, 0, day),
         x + "/keep": ("f", 0o644, 0, day, b"kept " * 20)}
    r.config({"ignored": "[%s]\n/s\n[ignore]\n--$\n",
              "regex": "[%%s]\n%s//^ke.p$\n" % x}.get(
                  shape, "[%s]\n/s\n") % sc["policy"])
    if shape == "aside":
        t[x] = ("f", 0o644, 0, day, b"a file " * 20)
        del t[x + "/keep"]
    seen = set(t)
    big.build(r.root, t)
    if shape in ("ignored", "regex", "fifo"):
        fill(r.root + x, sc, "p" if shape == "fifo" else "f")
    for i in range(1 + sc["again"]):
        r.backup("backup %d" % i)
        r.recorded(seen, "backup %d" % i)
        with open(r.root + (x if shape == "aside" else x + "/keep"),
                  "ab") as fh:
            fh.write(b"+")
        os.utime(fh.name, (day + i + 1, day + i + 1))
    r.check()
    if shape == "garbage":
        os.mkdir(r.root + "/repo/junk")
        fill(r.root + "/repo/junk", sc)
    before = r.stored()
    r.nb("the collection", ["gc"])
    if os.path.exists(r.root + "/repo/junk") or r.stored() != before:
        raise Violation("the collection", "gc")
    if shape == "aside":
        os.unlink(r.root + x)
        os.mkdir(r.root + x)
        fill(r.root + x, sc)
        r.restore(0)
        with open(r.root + x, "rb") as fh:
            if not fh.read().startswith(b"a file "):
                raise Violation("the restored file is another one",
                                "restored")


def many_files(r, sc, lim):
    """Many files, for which only their records may take memory."""
    n = sc["n"] // 4
    lim.more = ["-l", "9:%d" % (3 * MIB + n * 1536)]
    day = 1000000000
    t = {"/s": ("d", 0o755, 0, day)}
    for i in range(n):
        p = "/s/%d" % (i % 50)
        t[p] = ("d", 0o755, 0, day)
        t["%s/%d" % (p, i)] = (
            "f", 0o644, 0, day,
            b"file %d" % (i if i % 2 else i % 100) + b"-" * 20)
    r.config("[%s]\n/s\n" % sc["policy"])
    big.build(r.root, t)
    r.backup("the backup")
    r.recorded(set(t), "the backup")
    for i in range(n):
        os.utime("%s/s/%d/%d" % (r.root, i % 50, i), (day + 1, day + 1))
    if sc["again"]:
        r.backup("the backup of touched files")
    r.check()
    r.nb("the collection", ["gc"])
    r.elsewhere()
    r.restore(0)
    got = sum(len(f) for _, _, f in os.walk(r.root + "/s"))
    if got != n:
        raise Violation("%d of %d files are restored" % (got, n), "restored")


def nontrivial(sc, w, case, r):
    if r is None or r.code != 0 or "(y/n)" not in r.out:
        return
    case.tag("done")
    n = w.tree.values()
    if sc["k"] == "large":
        if sum(fs.size(x) for x in n if x["t"] == "f") > 6 * MIB:
            case.nontrivial = True
    elif sum(x["t"] == "f" for x in n) > 20:
        case.nontrivial = True
